-------------------------------- MODULE Fork --------------------------------
(***************************************************************************)
(* FileLock objects and fork(), exit and kill (C02, C12, C13).             *)
(*                                                                         *)
(* Actors: 1, 2 threads of the parent P, which share the object x; 3 the   *)
(* child C, forked by actor 1, which has a copy of x; 4 another process Q  *)
(* with an object of its own.                                              *)
(*                                                                         *)
(* What the properties demand is `holder` (the actor inside, 0: none) and  *)
(* `depth`.  What the code has are open file descriptions, the kernel's    *)
(* lock on one of them, which processes still refer to it, and per process *)
(* the object's descriptor, thread lock and level counter.  Reset: does a  *)
(* forked child start over (FALSE: the algorithm before the repair).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Reset
Depth == atoi(IOEnv.DEPTH)

Actors == 1..4
Proc(a) == IF a <= 2 THEN "P" ELSE IF a = 3 THEN "C" ELSE "Q"
Procs == {"P", "C", "Q"}

VARIABLES re,                   \* is x reentrant?
          holder, depth,        \* the contract
          alive,                \* processes
          klock, refs, next,    \* locked description, process -> those open
          fd, tl, cnt,          \* process -> descriptor, thread lock owner,
                                \* levels
          ret, hist
vars == <<re, holder, depth, alive, klock, refs, next, fd, tl, cnt, ret, hist>>

Init == /\ re \in BOOLEAN
        /\ holder = 0 /\ depth = 0 /\ alive = {"P", "Q"}
        /\ klock = 0 /\ refs = [p \in Procs |-> {}] /\ next = 1
        /\ fd = [p \in Procs |-> 0] /\ tl = [p \in Procs |-> 0]
        /\ cnt = [p \in Procs |-> 0]
        /\ ret = [want |-> TRUE, got |-> TRUE] /\ hist = <<>>

Reent(a) == re \/ Proc(a) = "Q"      \* Q's object is reentrant
IsLocked(p) == fd[p] # 0
Locked == [p \in Procs |-> p \in alive /\ holder' # 0
                           /\ Proc(IF holder' = 0 THEN 1 ELSE holder') = p]
Log(op, a, r) == hist' = Append(hist,
                    [op |-> op, a |-> a, ret |-> r, held |-> holder',
                     p |-> Locked["P"], c |-> Locked["C"], q |-> Locked["Q"]])

(* -- acquire(blocking=False) -------------------------------------------- *)
CGot(a) == holder = 0 \/ (holder = a /\ Reent(a))
Acq(a) ==
  LET p == Proc(a)
      thread == tl[p] = 0 \/ (tl[p] = a /\ Reent(a))   \* gets the thread lock
      nested == thread /\ IsLocked(p)
      fresh  == thread /\ ~IsLocked(p) /\ klock = 0
      got == nested \/ fresh
  IN /\ p \in alive
     /\ IF CGot(a) THEN holder' = a /\ depth' = depth + 1
        ELSE UNCHANGED <<holder, depth>>
     /\ ret' = [want |-> CGot(a), got |-> got]
     /\ tl' = IF got THEN [tl EXCEPT ![p] = a] ELSE tl
     /\ cnt' = IF got THEN [cnt EXCEPT ![p] = @ + 1] ELSE cnt
     /\ IF fresh THEN /\ klock' = next /\ next' = next + 1
                      /\ refs' = [refs EXCEPT ![p] = @ \cup {next}]
                      /\ fd' = [fd EXCEPT ![p] = next]
        ELSE UNCHANGED <<klock, refs, next, fd>>
     /\ Log("acq", a, CGot(a))
     /\ UNCHANGED <<re, alive>>

\* the last reference to a description is gone: so is its lock
Close(r) == klock' = IF \E q \in Procs : klock \in r[q] THEN klock ELSE 0

(* -- release(); a thread does not release what another thread holds ----- *)
Rel(a, force) ==
  LET p == Proc(a)
      full == IsLocked(p) /\ (force \/ cnt[p] <= 1)
  IN /\ p \in alive
     /\ holder = 0 \/ Proc(holder) # p \/ holder = a
     /\ IF holder = a
          THEN /\ depth' = IF force THEN 0 ELSE depth - 1
               /\ holder' = IF depth' = 0 THEN 0 ELSE a
          ELSE UNCHANGED <<holder, depth>>
     /\ IF full
          THEN /\ refs' = [refs EXCEPT ![p] = @ \ {fd[p]}]
               /\ klock' = IF klock = fd[p] THEN 0 ELSE klock  \* LOCK_UN
               /\ fd' = [fd EXCEPT ![p] = 0]
               /\ cnt' = [cnt EXCEPT ![p] = 0]
               /\ tl' = [tl EXCEPT ![p] = 0]
          ELSE /\ cnt' = IF IsLocked(p) THEN [cnt EXCEPT ![p] = @ - 1]
                         ELSE cnt
               /\ UNCHANGED <<refs, klock, fd, tl>>
     /\ ret' = [want |-> TRUE, got |-> TRUE]
     /\ Log(IF force THEN "force" ELSE "rel", a, TRUE)
     /\ UNCHANGED <<re, alive, next>>

ForkIt ==
  /\ "P" \in alive /\ "C" \notin alive
  /\ \A i \in 1..Len(hist) : hist[i].op # "fork"
  /\ alive' = alive \cup {"C"}
  /\ IF Reset
       THEN /\ refs' = [refs EXCEPT !["C"] = refs["P"] \ {fd["P"]}]
            /\ UNCHANGED <<fd, tl, cnt>>
       ELSE /\ refs' = [refs EXCEPT !["C"] = refs["P"]]
            /\ fd' = [fd EXCEPT !["C"] = fd["P"]]
            /\ tl' = [tl EXCEPT !["C"] = IF tl["P"] = 1 THEN 3 ELSE tl["P"]]
            /\ cnt' = [cnt EXCEPT !["C"] = cnt["P"]]
  /\ ret' = [want |-> TRUE, got |-> TRUE]
  /\ UNCHANGED <<re, holder, depth, klock, next>>
  /\ Log("fork", 1, TRUE)

\* p ends; in good order: what it believes to hold is released
End(p, op) ==
  /\ p \in alive
  /\ alive' = alive \ {p}
  /\ IF holder # 0 /\ Proc(holder) = p THEN holder' = 0 /\ depth' = 0
     ELSE UNCHANGED <<holder, depth>>
  /\ refs' = [refs EXCEPT ![p] = {}]
  /\ IF op = "exit" /\ IsLocked(p) /\ klock = fd[p] THEN klock' = 0
     ELSE Close(refs')
  /\ fd' = [fd EXCEPT ![p] = 0]
  /\ UNCHANGED <<re, next, tl, cnt>>
  /\ ret' = [want |-> TRUE, got |-> TRUE]
  /\ Log(op, IF p = "P" THEN 1 ELSE 3, TRUE)

\* no two operations of no interest in a row
Useful(op, a) == IF hist = <<>> THEN FALSE
                 ELSE hist[Len(hist)].a # a \/ hist[Len(hist)].op # op
                      \/ depth > 0
Next == /\ Len(hist) < Depth
        /\ \/ \E a \in Actors : Acq(a)
           \/ \E a \in Actors : \E f \in BOOLEAN :
                Useful(IF f THEN "force" ELSE "rel", a) /\ Rel(a, f)
           \/ ForkIt
           \/ End("C", "exit") \/ End("C", "kill") \/ End("P", "kill")
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* The code reports the truth ...
Truth == ret.want = ret.got
IsLockedOk == \A p \in alive :
                IsLocked(p) = (holder # 0 /\ Proc(holder) = p)
\* ... and the kernel's lock is with whoever is inside
Exclusion == holder # 0 => klock # 0 /\ fd[Proc(holder)] = klock
Free == holder = 0 => klock = 0
\* worth replaying
Emit == (Len(hist) = Depth /\ \E i \in 1..Len(hist) - 1 : hist[i].op = "fork")
          => PrintT(ToJson([re |-> re, hist |-> hist]))
=============================================================================
