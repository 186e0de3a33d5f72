------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* aiuti.itertools.split / exhaust (C18).                                  *)
(*                                                                         *)
(* A source of n elements (identified by position) and a condition, either *)
(* a callable evaluated per element or an iterable of m truth values, are  *)
(* consumed through two cursors in any order.  Partition is stated as an   *)
(* invariant; every behaviour carries its history (what each next() must   *)
(* return and how much of the source/condition it may have touched), which *)
(* is printed at the end and replayed on the real code.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

MaxN   == atoi(IOEnv.MAXN)     \* longest source
Extra  == atoi(IOEnv.EXTRA)    \* next() calls beyond the elements
Emit   == IOEnv.EMIT = "1"

Bools == {TRUE, FALSE}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

VARIABLES n,        \* length of the source
          kind,     \* "call" | "iter"
          cond,     \* sequence of truth values (call: one per element)
          pos,      \* [side -> elements of the source this side has passed]
          out,      \* [side -> positions yielded so far]
          over,     \* [side -> number of next() calls past its end]
          seen,     \* furthest source position that had to be looked at
          dead,     \* sides dropped by the consumer
          hist,     \* sequence of [op, ret, need]
          fin

vars == <<n, kind, cond, pos, out, over, seen, dead, hist, fin>>

Side == {"T", "F"}
Want(s) == s = "T"
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Lim == Min2(n, Len(cond))              \* elements that take part

Init ==
  /\ n \in 0..MaxN
  /\ kind \in {"call", "iter"}
  /\ \/ kind = "call" /\ cond \in [1..n -> Bools]
     \/ kind = "iter" /\ cond \in SeqsUpTo(Bools, MaxN)
  /\ pos = [s \in Side |-> 0]
  /\ out = [s \in Side |-> <<>>]
  /\ over = [s \in Side |-> 0]
  /\ seen = 0
  /\ dead = {}
  /\ hist = <<>>
  /\ fin = FALSE

\* next position matching side s after its cursor, 0 if there is none
NextPos(s) ==
  LET c == {i \in (pos[s]+1)..Lim : cond[i] = Want(s)}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

Step(s) ==
  /\ ~fin /\ s \notin dead
  /\ Len(hist) < n + Extra
  /\ LET p == NextPos(s) IN
     /\ pos' = [pos EXCEPT ![s] = IF p = 0 THEN Lim ELSE p]
     /\ out' = [out EXCEPT ![s] = IF p = 0 THEN @ ELSE Append(@, p)]
     \* every next() of an exhausted side may look for one more element
     \* (only one of the two streams needs to have ended)
     /\ over' = [over EXCEPT ![s] = IF p = 0 THEN @ + 1 ELSE @]
     /\ seen' = Max2(seen, IF p = 0 THEN Lim + over'[s] ELSE p)
     /\ hist' = Append(hist, [op |-> s, ret |-> p, need |-> seen'])
  /\ UNCHANGED <<n, kind, cond, dead, fin>>

\* the consumer forgets about one of the two iterators
Drop(s) ==
  /\ ~fin /\ dead = {}
  /\ Len(hist) < n + Extra
  /\ dead' = {s}
  /\ hist' = Append(hist, [op |-> "D" \o s, ret |-> 0, need |-> seen])
  /\ UNCHANGED <<n, kind, cond, pos, out, over, seen, fin>>

\* drain what is left of both sides, in one go each
Finish ==
  /\ ~fin /\ Len(hist) > 0
  /\ Len(hist) = n + Extra \/ n = 0
  /\ fin' = TRUE
  /\ IF Emit
       THEN PrintT(ToJson([n |-> n, kind |-> kind, cond |-> cond,
                           hist |-> hist, lim |-> Lim,
                           rest |-> [s \in Side |->
                              SelectSeq([i \in 1..Lim |-> i],
                                LAMBDA i : i > pos[s] /\ cond[i] = Want(s))]]))
       ELSE TRUE
  /\ UNCHANGED <<n, kind, cond, pos, out, over, seen, dead, hist>>

Next == (\E s \in Side : Step(s) \/ Drop(s)) \/ Finish

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
SeqRange(q) == {q[i] : i \in 1..Len(q)}
Increasing(q) == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]

\* source order, only matching elements, no element twice, nothing skipped
Partition ==
  /\ \A s \in Side : Increasing(out[s])
  /\ SeqRange(out["T"]) \cap SeqRange(out["F"]) = {}
  /\ \A s \in Side : SeqRange(out[s]) =
        {i \in 1..Min2(pos[s], Lim) : cond[i] = Want(s)}
Complete ==
  (pos["T"] = Lim /\ pos["F"] = Lim) =>
     SeqRange(out["T"]) \cup SeqRange(out["F"]) = 1..Lim
\* nothing is looked at before it is needed
Lazy == /\ hist = <<>> => seen = 0
        /\ seen <= Max2(pos["T"] + over["T"], pos["F"] + over["F"])
OnlyForward == [][\A s \in Side : pos'[s] >= pos[s]]_vars
=============================================================================
