------------------------------ MODULE FileLock ------------------------------
(***************************************************************************)
(* Design of aiuti.filelock: threads of one or more processes, lock        *)
(* objects (owned by a process), the in-process thread lock of an object,  *)
(* its level counter, its descriptor, and the kernel's flock table.  One   *)
(* action per atomic step of the algorithm.  Processes can be killed at    *)
(* any step and the OS can fail a bounded number of times.                 *)
(*                                                                         *)
(* TLC checks that every execution satisfies the contract LockObs (no      *)
(* clause of AcquireClauses is violated), that at most one thread is in    *)
(* its critical section, that nothing is left behind by a crash or a       *)
(* failure, and that nobody gets stuck.                                    *)
(***************************************************************************)
EXTENDS LockObs

CONSTANTS NThreads, NObjects, MaxRounds, MaxFaults, MaxCrashes,
          ThreadProc,      \* <<process of thread 1, ...>>
          ObjectProc,      \* <<process of object 1, ...>>
          Kinds            \* subset of {"nb", "bl", "tm"}

Threads == 1..NThreads
Objects == 1..NObjects
Procs == {ThreadProc[t] : t \in Threads}

VARIABLES
  re,        \* object -> reentrant?
  pc,        \* thread -> step
  obj,       \* thread -> object it is working on
  kind,      \* thread -> kind of its current acquire
  todo,      \* thread -> rounds left
  depth,     \* thread -> levels it believes it holds
  tlo, tlc,  \* object -> thread lock: owner (0: free), recursion count
  cnt,       \* object -> _lock_counter
  fd,        \* object -> descriptor stored in the object (0: none)
  tfd,       \* thread -> descriptor it has open locally (0: none)
  kern,      \* descriptor holding the kernel lock (0: none)
  open,      \* set of open descriptors
  nfd,       \* descriptors opened so far (identity only)
  dead,      \* crashed processes
  faults, flt,  \* OS failures so far; thread -> one hit its operation
  hold, bad,    \* contract state and violated clauses
  und        \* thread -> its acquire has been undisturbed
vars == <<re, pc, obj, kind, todo, depth, tlo, tlc, cnt, fd, tfd, kern, open,
          nfd, dead, faults, flt, hold, bad, und>>

Live(t) == ThreadProc[t] \notin dead

Init ==
  /\ re \in [Objects -> BOOLEAN]
  /\ pc = [t \in Threads |-> "idle"]
  /\ obj = [t \in Threads |-> 1] /\ kind = [t \in Threads |-> "nb"]
  /\ todo = [t \in Threads |-> MaxRounds]
  /\ depth = [t \in Threads |-> 0]
  /\ tlo = [o \in Objects |-> 0] /\ tlc = [o \in Objects |-> 0]
  /\ cnt = [o \in Objects |-> 0] /\ fd = [o \in Objects |-> 0]
  /\ tfd = [t \in Threads |-> 0]
  /\ kern = 0 /\ open = {} /\ nfd = 0 /\ dead = {} /\ faults = 0
  /\ flt = [t \in Threads |-> FALSE]
  /\ hold = Free /\ bad = {}
  /\ und = [t \in Threads |-> TRUE]

Disturbed(t) == [x \in Threads |-> IF x = t THEN und[x] ELSE FALSE]

\* --- acquire -------------------------------------------------------------
Start(t, o, k) ==
  /\ (pc[t] = "idle" /\ todo[t] > 0) \/ (pc[t] = "cs" /\ re[o] /\ depth[t] = 1)
  /\ ObjectProc[o] = ThreadProc[t]
  /\ pc[t] = "cs" => o = obj[t]
  /\ pc' = [pc EXCEPT ![t] = "tl"]
  /\ obj' = [obj EXCEPT ![t] = o] /\ kind' = [kind EXCEPT ![t] = k]
  /\ todo' = IF pc[t] = "idle" THEN [todo EXCEPT ![t] = @ - 1] ELSE todo
  /\ flt' = [flt EXCEPT ![t] = FALSE]
  /\ und' = [Disturbed(t) EXCEPT ![t] = \A x \in Threads \ {t} :
                                     pc[x] \in {"idle", "cs"}]
  /\ UNCHANGED <<re, depth, tlo, tlc, cnt, fd, tfd, kern, open, nfd, dead,
                 faults, hold, bad>>

\* the acquire of t returns; the contract judges it
Return(t, ret) ==
  LET o == obj[t] IN
  /\ bad' = bad \cup AcquireClauses(hold, re, o, t, kind[t], 0, 0, ret, 0,
                     und[t] /\ \A x \in Threads \ {t} :
                                 pc[x] \in {"idle", "cs"}, flt[t])
  /\ hold' = IF ret = "T" THEN AfterAcquire(hold, o, t) ELSE hold
  /\ depth' = IF ret = "T" THEN [depth EXCEPT ![t] = @ + 1] ELSE depth
  /\ und' = Disturbed(t)
  /\ pc' = [pc EXCEPT ![t] = IF ret = "T" \/ depth[t] > 0 THEN "cs"
                             ELSE "idle"]

TakeTl(t) ==
  LET o == obj[t] IN
  /\ pc[t] = "tl"
  /\ \/ /\ tlo[o] = 0 \/ (re[o] /\ tlo[o] = t)
        /\ tlo' = [tlo EXCEPT ![o] = t] /\ tlc' = [tlc EXCEPT ![o] = @ + 1]
        /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
        /\ IF fd[o] # 0
             THEN Return(t, "T")
             ELSE /\ pc' = [pc EXCEPT ![t] = "open"]
                  /\ UNCHANGED <<hold, bad, depth, und>>
     \/ /\ tlo[o] # 0 /\ ~(re[o] /\ tlo[o] = t)
        /\ kind[t] # "bl"
        /\ Return(t, "F")
        /\ UNCHANGED <<tlo, tlc, cnt>>
  /\ UNCHANGED <<re, obj, kind, todo, fd, tfd, kern, open, nfd, dead, faults,
                 flt>>

Fail(t) == /\ faults < MaxFaults
           /\ faults' = faults + 1
           /\ flt' = [flt EXCEPT ![t] = TRUE]

Open(t) ==
  /\ pc[t] = "open"
  /\ \/ /\ nfd' = nfd + 1
        /\ tfd' = [tfd EXCEPT ![t] = nfd + 1]
        /\ open' = open \cup {nfd + 1}
        /\ pc' = [pc EXCEPT ![t] = "lock"]
        /\ UNCHANGED <<faults, flt>>
     \/ /\ Fail(t) /\ pc' = [pc EXCEPT ![t] = "missed"]
        /\ UNCHANGED <<nfd, tfd, open>>
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, kern, dead,
                 hold, bad, und>>

Lock(t) ==
  /\ pc[t] = "lock"
  /\ \/ /\ kern = 0
        /\ kern' = tfd[t]
        /\ pc' = [pc EXCEPT ![t] = "got"]
        /\ UNCHANGED <<faults, flt>>
     \/ /\ kern # 0 /\ kind[t] # "bl"
        /\ pc' = [pc EXCEPT ![t] = "undo"]
        /\ UNCHANGED <<kern, faults, flt>>
     \/ /\ Fail(t) /\ pc' = [pc EXCEPT ![t] = "undo"]
        /\ UNCHANGED kern
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, tfd, open,
                 nfd, dead, hold, bad, und>>

Undo(t) ==             \* close the descriptor of the failed attempt
  /\ pc[t] = "undo"
  /\ open' = open \ {tfd[t]}
  /\ kern' = IF kern = tfd[t] THEN 0 ELSE kern
  /\ tfd' = [tfd EXCEPT ![t] = 0]
  /\ pc' = [pc EXCEPT ![t] = "missed"]
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, nfd, dead,
                 faults, flt, hold, bad, und>>

Got(t) ==
  /\ pc[t] = "got"
  /\ fd' = [fd EXCEPT ![obj[t]] = tfd[t]]
  /\ tfd' = [tfd EXCEPT ![t] = 0]
  /\ Return(t, "T")
  /\ UNCHANGED <<re, obj, kind, todo, tlo, tlc, cnt, kern, open, nfd, dead,
                 faults, flt>>

Missed(t) ==           \* try again after a poll interval, or give up
  LET o == obj[t] IN
  /\ pc[t] = "missed"
  /\ \/ /\ kind[t] \in {"bl", "tm"}
        /\ pc' = [pc EXCEPT ![t] = "open"]
        /\ UNCHANGED <<tlo, tlc, cnt, hold, bad, depth, und>>
     \/ /\ kind[t] \in {"nb", "tm"}
        /\ cnt' = [cnt EXCEPT ![o] = @ - 1]
        /\ tlc' = [tlc EXCEPT ![o] = @ - 1]
        /\ tlo' = [tlo EXCEPT ![o] = IF tlc[o] = 1 THEN 0 ELSE @]
        /\ Return(t, "F")
  /\ UNCHANGED <<re, obj, kind, todo, fd, tfd, kern, open, nfd, dead, faults,
                 flt>>

\* --- release -------------------------------------------------------------
Release(t, force) ==
  LET o == obj[t] IN
  /\ pc[t] = "cs" /\ depth[t] > 0
  /\ hold' = AfterRelease(hold, o, t, force)
  /\ und' = Disturbed(t)
  /\ flt' = [flt EXCEPT ![t] = FALSE]
  /\ IF cnt[o] = 1 \/ force
       THEN /\ tfd' = [tfd EXCEPT ![t] = fd[o]]
            /\ fd' = [fd EXCEPT ![o] = 0]
            /\ pc' = [pc EXCEPT ![t] = "unlock"]
            /\ depth' = [depth EXCEPT ![t] = 0]
            /\ UNCHANGED <<cnt, tlc, tlo>>
       ELSE /\ cnt' = [cnt EXCEPT ![o] = @ - 1]
            /\ tlc' = [tlc EXCEPT ![o] = @ - 1]
            /\ depth' = [depth EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<tfd, fd, pc, tlo>>
  /\ UNCHANGED <<re, obj, kind, todo, kern, open, nfd, dead, faults, bad>>

Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ \/ /\ kern' = IF kern = tfd[t] THEN 0 ELSE kern
        /\ UNCHANGED <<faults, flt>>
     \/ Fail(t) /\ UNCHANGED kern
  /\ pc' = [pc EXCEPT ![t] = "close"]
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, tfd, open,
                 nfd, dead, hold, bad, und>>

Close(t) ==
  /\ pc[t] = "close"
  /\ open' = open \ {tfd[t]}
  /\ kern' = IF kern = tfd[t] THEN 0 ELSE kern
  /\ tfd' = [tfd EXCEPT ![t] = 0]
  /\ pc' = [pc EXCEPT ![t] = "reltl"]
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, nfd, dead,
                 faults, flt, hold, bad, und>>

RelTl(t) ==
  LET o == obj[t] IN
  /\ pc[t] = "reltl"
  /\ cnt' = [cnt EXCEPT ![o] = 0]
  /\ tlc' = [tlc EXCEPT ![o] = 0] /\ tlo' = [tlo EXCEPT ![o] = 0]
  /\ und' = Disturbed(t)
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<re, obj, kind, todo, depth, fd, tfd, kern, open, nfd, dead,
                 faults, flt, hold, bad>>

\* --- crash: the kernel closes the descriptors of the process --------------
OwnFds(p) == {tfd[t] : t \in {t \in Threads : ThreadProc[t] = p}}
        \cup {fd[o] : o \in {o \in Objects : ObjectProc[o] = p}}
Crash(p) ==
  /\ p \notin dead /\ Cardinality(dead) < MaxCrashes
  /\ dead' = dead \cup {p}
  /\ open' = open \ OwnFds(p)
  /\ kern' = IF kern \in OwnFds(p) THEN 0 ELSE kern
  /\ hold' = IF hold.th # 0 /\ ThreadProc[hold.th] = p THEN Free ELSE hold
  /\ pc' = [t \in Threads |-> IF ThreadProc[t] = p THEN "dead" ELSE pc[t]]
  /\ und' = [t \in Threads |-> FALSE]
  /\ UNCHANGED <<re, obj, kind, todo, depth, tlo, tlc, cnt, fd, tfd, nfd,
                 faults, flt, bad>>

Step(t) == /\ Live(t)
           /\ \/ \E o \in Objects, k \in Kinds : Start(t, o, k)
              \/ TakeTl(t) \/ Open(t) \/ Lock(t) \/ Undo(t) \/ Got(t)
              \/ Missed(t) \/ \E f \in BOOLEAN : Release(t, f)
              \/ Unlock(t) \/ Close(t) \/ RelTl(t)
Quit == /\ \A t \in Threads : pc[t] = "dead" \/ (pc[t] = "idle" /\ todo[t] = 0)
        /\ UNCHANGED vars
Next == (\E t \in Threads : Step(t)) \/ (\E p \in Procs : Crash(p)) \/ Quit
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Contract == bad = {}
InCs == {t \in Threads : pc[t] # "dead" /\ depth[t] > 0}
Exclusion == Cardinality(InCs) <= 1
TruthfulFlag == \A o \in Objects :
   (fd[o] # 0 /\ ObjectProc[o] \notin dead) =>
     kern = fd[o] \/ \E t \in Threads : pc[t] \in {"unlock", "close"}
\* in a quiet state nothing is left over
NoResidue ==
  (\A t \in Threads : pc[t] \in {"idle", "dead"}) =>
     /\ kern = 0 /\ open = {}
     /\ \A o \in Objects : ObjectProc[o] \notin dead =>
           tlo[o] = 0 /\ tlc[o] = 0 /\ cnt[o] = 0 /\ fd[o] = 0
\* the kernel lock always belongs to an open descriptor of a live process
KernelOwned == kern # 0 => kern \in open
\* configurations
P111 == <<1, 1, 1>>
P112 == <<1, 1, 2>>
P123 == <<1, 2, 3>>
P11 == <<1, 1>>
P12 == <<1, 2>>
\* identity of descriptors does not matter beyond equality
View == <<re, pc, obj, kind, todo, depth, tlo, tlc, cnt,
          [o \in Objects |-> fd[o] # 0], [t \in Threads |-> tfd[t] # 0],
          IF kern = 0 THEN <<"-">>
          ELSE IF \E o \in Objects : fd[o] = kern
                 THEN <<"o", CHOOSE o \in Objects : fd[o] = kern>>
          ELSE IF \E t \in Threads : tfd[t] = kern
                 THEN <<"t", CHOOSE t \in Threads : tfd[t] = kern>>
          ELSE <<"?">>,
          Cardinality(open), dead, faults, flt, hold, bad, und>>
=============================================================================
