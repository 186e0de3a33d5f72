-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two or more forms of the same configuration have been given the same    *)
(* calls: what was observed is the same (C15).                             *)
(*                                                                         *)
(* obs[i]: a sequence of <<instant, events>>, what happens at the same     *)
(* instant being ordered.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Same == \A i \in 2..Len(T.obs) : T.obs[i] = T.obs[1]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"V", tid, IF Same THEN "" ELSE "differ">>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
