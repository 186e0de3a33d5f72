------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* Design of to_async_iter / to_sync_iter (C16).                           *)
(*                                                                         *)
(* The producer thread hands every element over and, whatever happens, a   *)
(* mark at the end.  Dir = "async": over the loop's thread-safe callback   *)
(* queue into an asyncio queue; "sync": straight into a thread-safe queue. *)
(* The consumer takes elements until it sees the mark, then looks at the   *)
(* outcome of the producer, waits for its thread and finishes.             *)
(***************************************************************************)
EXTENDS BridgeObs

CONSTANTS Dir, MaxLen,
  MarkAlways,   \* the mark is put even if the source fails
  LookAtOutcome \* the consumer raises the producer's exception

VARIABLES src, fin,      \* the source (chosen at the beginning)
          i, ppc,        \* producer: next element; src | mark | end | gone
          cb, q,         \* scheduled callbacks, queue
          outcome,       \* of the producer's future: none | stop | err
          got, cpc, fin2 \* consumer
vars == <<src, fin, i, ppc, cb, q, outcome, got, cpc, fin2>>

Mark == 99
Init == /\ \E k \in 0..MaxLen : src \in [1..k -> 1..2]
        /\ fin \in {"stop", "err"}
        /\ i = 1 /\ ppc = "src" /\ cb = <<>> /\ q = <<>>
        /\ outcome = "none" /\ got = <<>> /\ cpc = "get" /\ fin2 = "none"

Put(x) == IF Dir = "async" THEN cb' = Append(cb, x) /\ UNCHANGED q
          ELSE q' = Append(q, x) /\ UNCHANGED cb
Produce == /\ ppc = "src" /\ i <= Len(src)
           /\ Put(src[i]) /\ i' = i + 1
           /\ UNCHANGED <<src, fin, ppc, outcome, got, cpc, fin2>>
SourceEnds == /\ ppc = "src" /\ i > Len(src)
              /\ ppc' = IF fin = "stop" \/ MarkAlways THEN "mark" ELSE "end"
              /\ UNCHANGED <<src, fin, i, cb, q, outcome, got, cpc, fin2>>
PutMark == /\ ppc = "mark" /\ Put(Mark) /\ ppc' = "end"
           /\ UNCHANGED <<src, fin, i, outcome, got, cpc, fin2>>
SetOutcome == /\ ppc = "end" /\ ppc' = "gone" /\ outcome' = fin
              /\ UNCHANGED <<src, fin, i, cb, q, got, cpc, fin2>>

Callback == /\ cb # <<>>
            /\ q' = Append(q, Head(cb)) /\ cb' = Tail(cb)
            /\ UNCHANGED <<src, fin, i, ppc, outcome, got, cpc, fin2>>
Get == /\ cpc = "get" /\ q # <<>>
       /\ q' = Tail(q)
       /\ IF Head(q) = Mark THEN cpc' = "look" /\ UNCHANGED got
          ELSE got' = Append(got, Head(q)) /\ UNCHANGED cpc
       /\ UNCHANGED <<src, fin, i, ppc, cb, outcome, fin2>>
Look == /\ cpc = "look" /\ outcome # "none"
        /\ fin2' = IF LookAtOutcome THEN outcome ELSE "stop"
        /\ cpc' = "join"
        /\ UNCHANGED <<src, fin, i, ppc, cb, q, outcome, got>>
Joined == /\ cpc = "join" /\ ppc = "gone"
          /\ cpc' = "done"
          /\ UNCHANGED <<src, fin, i, ppc, cb, q, outcome, got, fin2>>

Next == Produce \/ SourceEnds \/ PutMark \/ SetOutcome \/ Callback \/ Get
        \/ Look \/ Joined
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == /\ Len(got) <= Len(src)
          /\ \A k \in 1..Len(got) : got[k] = src[k]
Contract == cpc = "done" =>
              /\ EndClauses(src, fin, got, fin2) = {}
              /\ AliveClauses(IF ppc = "gone" THEN 0 ELSE 1) = {}
Finishes == <>(cpc = "done")
=============================================================================
