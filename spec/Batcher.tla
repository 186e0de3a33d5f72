------------------------------ MODULE Batcher ------------------------------
(***************************************************************************)
(* Design of AsyncBackgroundBatcher (C04, C09, C10, C11): calls, the key   *)
(* -> future cache, the queue, batch assembly with its timer, the          *)
(* semaphore, running batches, cancellation.  Time is discrete; it passes  *)
(* only when the event loop has nothing left to do at the present instant. *)
(* Everything is judged with the operators of BatcherObs, as recorded      *)
(* executions are.                                                         *)
(***************************************************************************)
EXTENDS BatcherObs

CONSTANTS
  KeyOf,     \* call -> key; calls are made in this order
  Size, Conc, Bto, Ret,
  MaxT,      \* calls are made until then
  MaxCancel, \* how many calls may be cancelled
  Kinds,     \* how batches go: val, exc, raise, omit
  Shielded,  \* callers await the shared future through a shield
  OnDone     \* eviction is bound to the future, not to the first caller

Calls == 1..Len(KeyOf)
Keys == {KeyOf[c] : c \in Calls}
VARIABLES now, next,
  st,        \* call -> not | wait | done | canc
  req,       \* call -> its request (0: none yet)
  cache,     \* key -> request | 0
  evict,     \* key -> instant of eviction | -1
  q, asm, timer,
  waiting,   \* batches waiting for a slot
  running,   \* set of [items, left]
  res,       \* request -> <<kind, tag>> | None
  fresh,     \* futures done whose callbacks have not run
  \* history for BatcherObs
  at, queue, n, prev, t0, t1, answered, bad
vars == <<now, next, st, req, cache, evict, q, asm, timer, waiting, running,
          res, fresh, at, queue, n, prev, t0, t1, answered, bad>>
hist == <<at, queue, n, prev, t0, t1, answered>>

None == <<"none", 0>>
Init == /\ now = 0 /\ next = 1
        /\ st = [c \in Calls |-> "not"] /\ req = [c \in Calls |-> 0]
        /\ cache = [k \in Keys |-> 0] /\ evict = [k \in Keys |-> -1]
        /\ q = <<>> /\ asm = <<>> /\ timer = -1
        /\ waiting = <<>> /\ running = {}
        /\ res = [c \in Calls |-> None] /\ fresh = {}
        /\ at = [c \in Calls |-> 0] /\ queue = <<>> /\ n = 0 /\ prev = 0
        /\ t0 = [c \in Calls |-> 0] /\ t1 = [c \in Calls |-> 0]
        /\ answered = {} /\ bad = {}

Cancelled == {c \in Calls : st[c] = "canc"}
NoCancel == Cancelled = {}
\* another call with the key may still come
Matters(c) == \E d \in next..Len(KeyOf) : KeyOf[d] = KeyOf[c]

\* what has no bearing on the future any more is not told apart
View == <<now, next, st, req, cache, evict, q, asm, timer, waiting, running,
          res, fresh, queue, n, prev, t0, t1, answered, bad,
          [c \in Calls |-> IF \E i \in 1..Len(queue) :
                              i >= n /\ queue[i] = c THEN at[c] ELSE 0]>>

---------------------------------------------------------------------------
Call == /\ next \in Calls /\ now <= MaxT
        /\ LET c == next
               k == KeyOf[c]
               o == cache[k]
               \* what the contract says about the key's latest request
               prior == {x \in 1..(c - 1) : KeyOf[x] = k /\ req[x] = x}
               last == CHOOSE x \in prior : \A y \in prior : y <= x
               pend == res[last] = None
               ans == last \in answered
               dead == \A x \in 1..(c - 1) : req[x] = last => st[x] = "canc"
               tt == IF t1[last] > t0[last] THEN t1[last] ELSE t0[last]
           IN /\ next' = c + 1
              /\ st' = [st EXCEPT ![c] = "wait"]
              /\ at' = [at EXCEPT ![c] = now]
              /\ IF o # 0
                   THEN /\ req' = [req EXCEPT ![c] = o]
                        /\ UNCHANGED <<cache, q, queue>>
                        /\ bad' = bad \cup
                             (IF IF last \in Cancelled THEN pend \/ now <= tt + Ret
                                 ELSE MayJoin(pend, ans, now, tt, Ret)
                              THEN {}
                              ELSE {"stale"})
                   ELSE /\ req' = [req EXCEPT ![c] = c]
                        /\ cache' = [cache EXCEPT ![k] = c]
                        /\ q' = Append(q, c)
                        /\ queue' = Append(queue, c)
                        /\ bad' = bad \cup
                             (IF prior = {} THEN {}
                              ELSE IF MayCreate(pend, dead, now, t0[last],
                                                Ret) THEN {}
                              ELSE {"recompute"})
        /\ UNCHANGED <<now, evict, asm, timer, waiting, running, res, fresh,
                       n, prev, t0, t1, answered>>

Cancel(c) == /\ st[c] = "wait" /\ Cardinality(Cancelled) < MaxCancel
             /\ st' = [st EXCEPT ![c] = "canc"]
             /\ t1' = [t1 EXCEPT ![c] = IF Matters(c) THEN now ELSE 0]
             /\ IF ~Shielded /\ res[req[c]] = None
                  THEN /\ res' = [res EXCEPT ![req[c]] = <<"canc", 0>>]
                       /\ fresh' = fresh \cup {req[c]}
                  ELSE UNCHANGED <<res, fresh>>
             /\ UNCHANGED <<now, next, req, cache, evict, q, asm, timer,
                            waiting, running, at, queue, n, prev, t0,
                            answered, bad>>

---------------------------------------------------------------------------
(* Assembly *)
Take == /\ q # <<>> /\ Len(asm) < Size
        /\ asm' = Append(asm, Head(q)) /\ q' = Tail(q)
        /\ timer' = now + Bto
        /\ UNCHANGED <<now, next, st, req, cache, evict, waiting, running,
                       res, fresh, bad>> /\ UNCHANGED hist
Flush == /\ asm # <<>>
         /\ Len(asm) = Size \/ (q = <<>> /\ now >= timer)
         /\ waiting' = Append(waiting, asm)
         /\ asm' = <<>> /\ timer' = -1
         /\ UNCHANGED <<now, next, st, req, cache, evict, q, running, res,
                        fresh, bad>> /\ UNCHANGED hist

Start == /\ waiting # <<>> /\ Cardinality(running) < Conc
         /\ LET xs == Head(waiting) IN
            /\ running' = running \cup
                 {[items |-> xs, left |-> {xs[i] : i \in 1..Len(xs)}]}
            /\ bad' = bad
                 \cup BatchClauses(xs, Cardinality(running), Conc, Size)
                 \cup (IF NoCancel THEN OrderClauses(xs, queue, n)
                         \cup ShareClauses(queue, n, at, Bto, prev, Size)
                       ELSE {})
                 \cup (IF Cardinality({KeyOf[xs[i]] : i \in 1..Len(xs)})
                          # Len(xs) /\ NoCancel THEN {"dup"} ELSE {})
            /\ n' = n + Len(xs) /\ prev' = Len(xs)
         /\ waiting' = Tail(waiting)
         /\ UNCHANGED <<now, next, st, req, cache, evict, q, asm, timer, res,
                        fresh, at, queue, t0, t1, answered>>

---------------------------------------------------------------------------
(* The batch function *)
Settle(os, x) ==
  /\ res' = [o \in Calls |-> IF o \in os /\ res[o] = None THEN x ELSE res[o]]
  /\ t0' = [o \in Calls |-> IF o \in os /\ Matters(o) THEN now ELSE t0[o]]
  /\ fresh' = fresh \cup os
Yield(b, o) ==
  /\ o \in b.left
  \* a future which is already done makes the batch fail
  /\ IF res[o] = None
       THEN /\ \E kind \in Kinds \cap {"val", "exc"} : Settle({o}, <<kind, o>>)
            /\ running' = (running \ {b})
                 \cup {[b EXCEPT !.left = @ \ {o}]}
       ELSE /\ Settle(b.left, Err)
            /\ running' = running \ {b}
  /\ UNCHANGED <<now, next, st, req, cache, evict, q, asm, timer, waiting, at,
                 queue, n, prev, t1, answered, bad>>
\* it raises, or ends without having yielded some keys
Finish(b, raises) ==
  /\ Settle(b.left, IF raises THEN <<"exc", 100>> ELSE Err)
  /\ running' = running \ {b}
  /\ UNCHANGED <<now, next, st, req, cache, evict, q, asm, timer, waiting, at,
                 queue, n, prev, t1, answered, bad>>

---------------------------------------------------------------------------
(* Callbacks of futures and timers *)
Forget(o) ==
  /\ o \in fresh
  /\ fresh' = fresh \ {o}
  /\ IF ~OnDone /\ st[o] = "canc"
       THEN UNCHANGED <<cache, evict>>     \* the caller is gone
     ELSE IF Ret > 0
       THEN /\ evict' = [evict EXCEPT ![KeyOf[o]] = now + Ret]
            /\ UNCHANGED cache
       ELSE /\ cache' = [cache EXCEPT ![KeyOf[o]] = 0]
            /\ UNCHANGED evict
  /\ UNCHANGED <<now, next, st, req, q, asm, timer, waiting, running, res,
                 bad>> /\ UNCHANGED hist
Evict(k) == /\ evict[k] >= 0 /\ now >= evict[k]
            /\ cache' = [cache EXCEPT ![k] = 0]
            /\ evict' = [evict EXCEPT ![k] = -1]
            /\ UNCHANGED <<now, next, st, req, q, asm, timer, waiting,
                           running, res, fresh, bad>> /\ UNCHANGED hist
Answer(c) ==
  /\ st[c] = "wait"
  /\ LET o == req[c] IN
     /\ o # 0 /\ res[o] # None /\ o \notin fresh
     /\ bad' = bad \cup (IF res[o][1] = "canc" THEN {"outcome"} ELSE {})
     /\ IF o = c THEN answered' = answered \cup {o} ELSE UNCHANGED answered
     /\ t1' = [t1 EXCEPT ![c] = IF Matters(c) THEN now ELSE 0]
  /\ st' = [st EXCEPT ![c] = "done"]
  /\ UNCHANGED <<now, next, req, cache, evict, q, asm, timer, waiting,
                 running, res, fresh, at, queue, n, prev, t0>>

Urgent == \/ q # <<>> /\ Len(asm) < Size
          \/ asm # <<>> /\ (Len(asm) = Size \/ (q = <<>> /\ now >= timer))
          \/ waiting # <<>> /\ Cardinality(running) < Conc
          \/ fresh # {}
          \/ \E k \in Keys : evict[k] >= 0 /\ now >= evict[k]
          \/ \E c \in Calls : st[c] = "wait" /\ res[req[c]] # None
Tick == /\ ~Urgent /\ now <= MaxT + Bto
        /\ now' = now + 1
        /\ bad' = bad \cup
             (IF NoCancel /\ n < Len(queue) /\ Cardinality(running) < Conc
                 /\ now' > Deadline(queue, n, at, Bto, Size)
              THEN {"late"} ELSE {})
        /\ UNCHANGED <<next, st, req, cache, evict, q, asm, timer, waiting,
                       running, res, fresh>> /\ UNCHANGED hist

Over == now > MaxT /\ ~Urgent /\ asm = <<>> /\ q = <<>> /\ waiting = <<>>
        /\ running = {}
Next == \/ Call \/ \E c \in Calls : Cancel(c)
        \/ Take \/ Flush \/ Start
        \/ \E b \in running : (\E o \in b.left : Yield(b, o))
                              \/ ("raise" \in Kinds /\ Finish(b, TRUE))
                              \/ ((b.left = {} \/ "omit" \in Kinds)
                                    /\ Finish(b, FALSE))
        \/ \E o \in Calls : Forget(o)
        \/ \E k \in Keys : Evict(k)
        \/ \E c \in Calls : Answer(c)
        \/ Tick
        \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Contract == bad = {}
\* when nothing is left to do, everybody has been answered
Answered == Over => \A c \in Calls : st[c] # "wait"
\* a request which is over is not remembered for ever
Forgotten == (Over /\ \A k \in Keys : evict[k] < 0) =>
               \A k \in Keys : cache[k] = 0
RightKey == \A c \in Calls : st[c] = "done" =>
              res[req[c]] \in {<<"val", req[c]>>, <<"exc", req[c]>>,
                               <<"exc", 100>>, Err}
              /\ KeyOf[req[c]] = KeyOf[c]
K3 == <<1, 2, 1>>
D4 == <<1, 2, 3, 4>>
K4 == <<1, 2, 1, 3>>
K5 == <<1, 2, 3, 4, 5>>
K1 == <<1, 1, 2, 1>>
=============================================================================
