------------------------------ MODULE LockObs ------------------------------
(***************************************************************************)
(* The contract of FileLock (C02, C12): who holds the lock file, which     *)
(* results of an operation are truthful, and what it may cost.             *)
(*                                                                         *)
(* hold is the holder of the lock file: [o |-> object, th |-> thread,      *)
(* d |-> depth], o = 0 if it is free.  Objects of other processes count as *)
(* objects of other threads.  All times are in milliseconds.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Free == [o |-> 0, th |-> 0, d |-> 0]

\* may thread th acquire object o right now?
CanAcquire(hold, re, o, th) ==
  \/ hold.o = 0
  \/ hold.o = o /\ hold.th = th /\ re[o]

AfterAcquire(hold, o, th) ==
  IF hold.o = o /\ hold.th = th THEN [hold EXCEPT !.d = @ + 1]
  ELSE [o |-> o, th |-> th, d |-> 1]

AfterRelease(hold, o, th, force) ==
  IF hold.o # o THEN hold                       \* unheld: a no-op
  ELSE IF force \/ hold.d = 1 THEN Free
  ELSE [hold EXCEPT !.d = @ - 1]

IsLocked(hold, o) == hold.o = o

(* How an acquire is normalised: "nb" returns at once, "bl" waits for ever,*)
(* "tm" waits at most tmo for each of the two stages plus a poll interval. *)
Kind(blocking, tmo) ==
  IF tmo >= 0 THEN "tm" ELSE IF blocking THEN "bl" ELSE "nb"

(* Clauses violated by an acquire which ended with ret in {"T","F","X"}    *)
(* ("X": an exception) after dt ms; quiet: nobody else held or touched the *)
(* lock file meanwhile except hold itself; fault: the OS failed in it.     *)
AcquireClauses(hold, re, o, th, kind, tmo, poll, ret, dt, quiet, fault) ==
     (IF ret = "T" /\ ~CanAcquire(hold, re, o, th)
        THEN {"C02.exclusion", "C12.true_not_held"} ELSE {})
  \cup (IF ret = "X" /\ ~fault THEN {"C12.raised"} ELSE {})
  \cup (IF ret = "F" /\ ~fault /\ quiet /\ CanAcquire(hold, re, o, th)
          THEN {"C12.false_though_free"} ELSE {})
  \cup (IF ret = "F" /\ ~fault /\ kind = "bl"
          THEN {"C12.blocking_gave_up"} ELSE {})
  \cup (IF ret = "F" /\ ~fault /\ kind = "tm" /\ dt < tmo
          THEN {"C12.gave_up_early"} ELSE {})
  \cup (IF kind = "nb" /\ dt > 0 THEN {"C12.nonblocking_waited"} ELSE {})
  \cup (IF kind = "tm" /\ dt > 2 * tmo + poll
          THEN {"C12.timeout_exceeded"} ELSE {})
=============================================================================
