----------------------------- MODULE BatcherObs -----------------------------
(***************************************************************************)
(* The contract of AsyncBackgroundBatcher (C04, C09, C10, C11) on what a   *)
(* caller and the batch function can observe.                              *)
(*                                                                         *)
(* A call either creates a request or joins one of its key.  A request is  *)
(* named after the call which created it.  Everything the batch function   *)
(* yields or raises carries a unique tag.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Err == <<"err", 0>>      \* any error which is nobody else's outcome

(* May a call arriving at t join request o / create a new one?             *)
(*  pending: no outcome produced yet; t0: instant it was produced; ret: the *)
(*  retention time; answered: the original caller has been answered, t1:   *)
(*  when, not before t0; dead: all its callers are cancelled.  At least    *)
(*  one of them holds.                                                     *)
MayJoin(pending, answered, t, t1, ret) ==
  pending \/ (IF ret = 0 THEN ~answered ELSE ~answered \/ t <= t1 + ret)
MayCreate(pending, dead, t, t0, ret) ==
  IF pending THEN dead ELSE ret = 0 \/ t >= t0 + ret

(* What the callers of the requests rs still unanswered in a batch get     *)
Allowed(kind, u) == IF kind \in {"val", "exc"} THEN <<kind, u>> ELSE Err
\* yielded: tags of what was yielded for some key
OutcomeOk(allowed, how, u, yielded) ==
  \/ <<how, u>> \in allowed
  \/ Err \in allowed /\ how \in {"exc", "err", "canc"}
       /\ ~(how = "exc" /\ u \in yielded)

(* A batch starts with the requests xs (a sequence); queue: requests in    *)
(* order of arrival, n: how many were started before; at: their arrivals;  *)
(* limit bounds lo..hi which were in effect meanwhile.                     *)
BatchClauses(xs, busy, conc, hi) ==
     (IF xs = <<>> THEN {"empty"} ELSE {})
  \cup (IF Len(xs) > hi THEN {"size"} ELSE {})
  \cup (IF busy >= conc THEN {"conc"} ELSE {})
OrderClauses(xs, queue, n) ==
  IF n + Len(xs) <= Len(queue) /\ SubSeq(queue, n + 1, n + Len(xs)) = xs
    THEN {} ELSE {"fifo"}
\* the first of xs could have been in the previous batch (of size m)
ShareClauses(queue, n, at, bto, m, lo) ==
  IF n > 0 /\ n < Len(queue) /\ at[queue[n + 1]] - at[queue[n]] < bto
     /\ m < lo
    THEN {"share"} ELSE {}

(* Instant by which the oldest queued request must be handed over.         *)
RECURSIVE GroupEnd(_, _, _, _, _)
GroupEnd(queue, i, at, bto, room) ==
  IF i < Len(queue) /\ room > 1 /\ at[queue[i + 1]] - at[queue[i]] <= bto
    THEN GroupEnd(queue, i + 1, at, bto, room - 1)
    ELSE at[queue[i]]
Deadline(queue, n, at, bto, hi) == GroupEnd(queue, n + 1, at, bto, hi) + bto
=============================================================================
