---------------------------- MODULE BridgeTrace ----------------------------
(***************************************************************************)
(* Decides whether recorded executions of the bridges are behaviours of    *)
(* BridgeObs.                                                              *)
(*                                                                         *)
(* mk i          the source of bridge i makes its next element             *)
(* g i v         the consumer of bridge i receives v                       *)
(* x i how       ... is told that it ended like that                       *)
(* tick d        something due at d happens on the consumers' loop         *)
(* alive n       everybody has finished, n helper threads are left         *)
(* end how                                                                 *)
(*                                                                         *)
(* Static: src[i] = [xs, fin].                                             *)
(***************************************************************************)
EXTENDS BridgeObs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, made, got, over, alive, bad, done
vars == <<tid, l, made, got, over, alive, bad, done>>
T == Traces[tid]
ev == T.ev[l]
N == DOMAIN T.src

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ made = [i \in DOMAIN Traces[tid].src |-> 0]
        /\ got = [i \in DOMAIN Traces[tid].src |-> <<>>]
        /\ over = {} /\ alive = FALSE
        /\ bad = {} /\ done = FALSE

Mk == /\ ev.e = "mk"
      /\ made' = [made EXCEPT ![ev.i] = @ + 1]
      /\ UNCHANGED <<got, over, alive, bad>>
G == /\ ev.e = "g"
     /\ bad' = bad \cup GetClauses(T.src[ev.i].xs, made[ev.i], got[ev.i],
                                   ev.v)
     /\ got' = [got EXCEPT ![ev.i] = Append(@, ev.v)]
     /\ UNCHANGED <<made, over, alive>>
X == /\ ev.e = "x"
     /\ bad' = bad \cup EndClauses(T.src[ev.i].xs, T.src[ev.i].fin,
                                   got[ev.i], ev.how)
     /\ over' = over \cup {ev.i}
     /\ UNCHANGED <<made, got, alive>>
Tick == /\ ev.e = "tick"
        /\ bad' = bad \cup LoopClauses(ev.d, ev.t)
        /\ UNCHANGED <<made, got, over, alive>>
Alive == /\ ev.e = "alive"
         /\ bad' = bad \cup AliveClauses(ev.n)
         /\ alive' = TRUE
         /\ UNCHANGED <<made, got, over>>
End == /\ ev.e = "end"
       /\ bad' = bad \cup (IF over = N /\ alive THEN {} ELSE {"hangs"})
       /\ UNCHANGED <<made, got, over, alive>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})
Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Mk \/ G \/ X \/ Tick \/ Alive \/ End)
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<tid, l, made, got, over, alive, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
