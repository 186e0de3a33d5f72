------------------------------ MODULE BridgeObs ------------------------------
(***************************************************************************)
(* The contract of to_async_iter and to_sync_iter (C16).                   *)
(* src: the elements the source yields, fin: how it goes on afterwards     *)
(* ("stop" or the name of an exception); got: what the consumer has        *)
(* received, fin2: how that ended.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* the consumer receives v next; made: how many elements the source has made
GetClauses(src, made, got, v) ==
     (IF Len(got) < Len(src) /\ src[Len(got) + 1] = v THEN {} ELSE {"sequence"})
  \cup (IF Len(got) < made THEN {} ELSE {"sequence"})
EndClauses(src, fin, got, fin2) ==
     (IF Len(got) = Len(src) THEN {} ELSE {"sequence"})
  \cup (IF fin = fin2 THEN {} ELSE {"error"})
AliveClauses(helpers) == IF helpers = 0 THEN {} ELSE {"thread"}
\* something due at d on the loop happens at t
LoopClauses(d, t) == IF t > d THEN {"blocked"} ELSE {}
=============================================================================
