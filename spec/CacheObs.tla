----------------------------- MODULE CacheObs -----------------------------
(***************************************************************************)
(* The contract of threadsafe_async_cache (C01, C05, C06), as operators on *)
(* what can be observed: invocations of the wrapped function, calls of the *)
(* cached function, event loops going up and down.                         *)
(*                                                                         *)
(* An invocation is [i, key, loop, c, z]: c the call which performs it, z  *)
(* set once its loop has gone down (it counts as ended from then on, and   *)
(* can only be cancelled or abandoned).  val[key] is the first successful  *)
(* invocation of the key, 0 if there is none or its value has been evicted *)
(* from the mapping.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Window == 60000          \* the documented safety timeout, ms
Slack  == 1000

\* an invocation for key begins
InvokeClauses(invs, val, key) ==
     (IF \E x \in invs : x.key = key /\ ~x.z THEN {"C01.single"} ELSE {})
  \cup (IF val[key] # 0 THEN {"C01.recompute"} ELSE {})

Zombies(invs, loop) ==
  {IF x.loop = loop THEN [x EXCEPT !.z = TRUE] ELSE x : x \in invs}

(* A call c for key ends.  how = "val": it returned the value made by      *)
(* invocation v.  how = "exc": it raised the exception made by invocation  *)
(* v.  how = "cancel", or "other": any other exception.  failed: which     *)
(* <<invocation, call>> have failed so far.  old: the values of the key    *)
(* evicted since the call began.                                           *)
ReturnClauses(val, old, failed, c, key, cancelled, how, v) ==
  CASE how = "val" ->
         IF v # 0 /\ v \in {val[key]} \cup old THEN {} ELSE {"C01.value"}
    [] how = "exc" ->
         IF <<v, c>> \in failed THEN {} ELSE {"C06.origin"}
    [] how = "cancel" -> IF cancelled THEN {} ELSE {"C06.own_cancel"}
    [] OTHER -> {"C06.origin"}

(* Virtual time is about to pass with this call unfinished (its loop is    *)
(* running and it has not been cancelled): that is right only if it waits  *)
(* for an unfinished invocation on a running loop, or if the loop it       *)
(* waited for was lost and the safety window is still open.                *)
MayWait(invs, up, val, key) ==
  val[key] = 0 /\ \E x \in invs : x.key = key /\ x.loop \in up
=============================================================================
