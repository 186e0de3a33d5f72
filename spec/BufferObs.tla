----------------------------- MODULE BufferObs -----------------------------
(***************************************************************************)
(* The contract of buffer_until_timeout (C03, C07, C08) on what can be     *)
(* observed: submissions, invocations of the wrapped function, waits.      *)
(* Elements are the arguments; the same argument may be submitted again.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* An invocation begins with the set xs.  running: is one in progress;     *)
(* known: the elements submitted so far.                                   *)
StartClauses(running, known, xs) ==
     (IF running THEN {"C08.overlap"} ELSE {})
  \cup (IF xs = {} THEN {"C08.empty"} ELSE {})
  \cup (IF xs \ known # {} THEN {"C03.never_submitted"} ELSE {})

(* It has succeeded with xs; okd: delivered successfully before (as often  *)
(* as submitted); own: the elements submitted from the loop's own thread.  *)
SuccessClauses(okd, own, xs) ==
  IF xs \cap okd \cap own # {} THEN {"C03.delivered_twice"} ELSE {}

\* wait() returns; must: what had been submitted before it was called; okd:
\* what has been delivered since its submission
WaitClauses(okd, must) == IF must \ okd # {} THEN {"C07.barrier"} ELSE {}

(* Debouncing, for immediately available arguments without forced flush.   *)
(* last: time of the latest submission (-1: none); idle: the undelivered   *)
(* elements which arrived while the function was idle.                     *)
DebounceStart(t, tmo, last, idle, xs) ==
     (IF last >= 0 /\ t - last < tmo THEN {"C08.early"} ELSE {})
  \cup (IF idle \ xs # {} THEN {"C08.not_together"} ELSE {})
\* time is about to pass to t
DebounceLate(t, tmo, lastIdle, idle) ==
  IF idle # {} /\ t > lastIdle + tmo THEN {"C08.late"} ELSE {}
=============================================================================
