------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Design of threadsafe_async_cache for one key: callers on event loops    *)
(* (one thread each), the table of in-flight markers, the cache mapping,   *)
(* events and the proxy coroutines by which callers of other loops wait    *)
(* for them.  A loop is single threaded: a task keeps it (cur) until it    *)
(* awaits; loops interleave at every step.  The environment stops, shuts   *)
(* down, closes loops, cancels callers, evicts the value from the mapping  *)
(* and collects garbage at any moment.                                     *)
(*                                                                         *)
(* TLC checks the contract CacheObs in every state and that every call on  *)
(* a loop which keeps running terminates, where the 60 s timeout may only  *)
(* be relied on when the loop of the computation no longer runs.           *)
(***************************************************************************)
EXTENDS CacheObs

CONSTANTS NLoops, CallLoop, MaxFail, MaxCancel, MayStop, MaxEvict

Loops == 1..NLoops
Calls == 1..Len(CallLoop)
Key == 1

VARIABLES
  lst,      \* loop -> "run" | "stopped" | "sd" (shutting down) | "closed"
  cur,      \* loop -> call whose task is executing (0: none)
  pc,       \* call -> step
  mk,       \* in-flight marker: event id or 0
  evl,      \* <<loop of event 1, ...>>
  set,      \* events which have been set
  wev,      \* call -> event it owns or waits for
  proxy,    \* call -> "none" | "pend" | "done"
  cached,   \* 0 or the invocation whose value is cached
  res,      \* call -> result of its own invocation: "-" ok exc cancel
  inv,      \* call -> its invocation
  ninv, can, nfail, ncan,
  nev, old, \* evictions; call -> values evicted since it began
  invs, val, failed, bad        \* contract state
vars == <<lst, cur, pc, mk, evl, set, wev, proxy, cached, res, inv, ninv,
          can, nfail, ncan, nev, old, invs, val, failed, bad>>
obs == <<nev, old, invs, val, failed, bad>>

L(c) == CallLoop[c]
Running(l) == lst[l] \in {"run", "sd"}

Init ==
  /\ lst = [l \in Loops |-> "run"] /\ cur = [l \in Loops |-> 0]
  /\ pc = [c \in Calls |-> "new"]
  /\ mk = 0 /\ evl = <<>> /\ set = {}
  /\ wev = [c \in Calls |-> 0] /\ proxy = [c \in Calls |-> "none"]
  /\ cached = 0 /\ res = [c \in Calls |-> "-"] /\ inv = [c \in Calls |-> 0]
  /\ ninv = 0 /\ can = [c \in Calls |-> FALSE] /\ nfail = 0 /\ ncan = 0
  /\ invs = {} /\ val = <<0>> /\ failed = {} /\ bad = {}
  /\ nev = 0 /\ old = [c \in Calls |-> {}]

Go(c, step) == pc' = [pc EXCEPT ![c] = step]
\* the call ends; the contract judges how
Done(c, how, v) ==
  /\ Go(c, "done")
  /\ cur' = [cur EXCEPT ![L(c)] = 0]
  /\ bad' = bad \cup ReturnClauses(val, old[c], failed, c, Key, can[c], how, v)

Has(c) == Running(L(c)) /\ cur[L(c)] = c

Call(c) ==
  /\ pc[c] = "new" /\ lst[L(c)] = "run" /\ cur[L(c)] = 0
  /\ cur' = [cur EXCEPT ![L(c)] = c] /\ Go(c, "check")
  /\ UNCHANGED <<lst, mk, evl, set, wev, proxy, cached, res, inv, ninv, can,
                 nfail, ncan, obs>>

Check(c) ==
  /\ pc[c] = "check" /\ Has(c)
  /\ IF cached # 0 THEN Done(c, "val", cached)
     ELSE Go(c, "lock") /\ UNCHANGED <<cur, bad>>
  /\ UNCHANGED <<lst, mk, evl, set, wev, proxy, cached, res, inv, ninv, can,
                 nfail, ncan, nev, old, invs, val, failed>>

Lock(c) ==                      \* one critical section
  /\ pc[c] = "lock" /\ Has(c)
  /\ IF cached # 0 THEN Done(c, "val", cached) /\ UNCHANGED <<mk, evl, wev>>
     ELSE IF mk # 0 /\ Running(evl[mk])
       THEN /\ wev' = [wev EXCEPT ![c] = mk]
            /\ Go(c, "sched") /\ UNCHANGED <<cur, bad, mk, evl>>
       ELSE /\ evl' = Append(evl, L(c))
            /\ mk' = Len(evl) + 1
            /\ wev' = [wev EXCEPT ![c] = Len(evl) + 1]
            /\ Go(c, "begin") /\ UNCHANGED <<cur, bad>>
  /\ UNCHANGED <<lst, set, proxy, cached, res, inv, ninv, can, nfail, ncan,
                 nev, old, invs, val, failed>>

Begin(c) ==
  /\ pc[c] = "begin" /\ Has(c)
  /\ ninv' = ninv + 1
  /\ inv' = [inv EXCEPT ![c] = ninv + 1]
  /\ bad' = bad \cup InvokeClauses(invs, val, Key)
  /\ invs' = invs \cup {[i |-> ninv + 1, key |-> Key, loop |-> L(c), c |-> c,
                         z |-> FALSE]}
  /\ Go(c, "work")
  /\ cur' \in {cur, [cur EXCEPT ![L(c)] = 0]}      \* with or without await
  /\ UNCHANGED <<lst, mk, evl, set, wev, proxy, cached, res, can, nfail,
                 ncan, nev, old, val, failed>>

End(c, how) ==                   \* the wrapped function returns or raises
  /\ pc[c] = "work" /\ Running(L(c)) /\ cur[L(c)] \in {0, c}
  /\ how = "cancel" <=> can[c]
  /\ how = "exc" => nfail < MaxFail
  /\ nfail' = IF how = "exc" THEN nfail + 1 ELSE nfail
  /\ cur' = [cur EXCEPT ![L(c)] = c]
  /\ res' = [res EXCEPT ![c] = how]
  /\ invs' = {x \in invs : x.i # inv[c]}
  /\ val' = IF how = "ok" /\ val[Key] = 0 THEN [val EXCEPT ![Key] = inv[c]]
            ELSE val
  /\ failed' = IF how = "exc" THEN failed \cup {<<inv[c], c>>} ELSE failed
  /\ Go(c, "store")
  /\ UNCHANGED <<lst, mk, evl, set, wev, proxy, cached, inv, ninv, can, ncan,
                 nev, old, bad>>

Store(c) ==
  /\ pc[c] = "store" /\ Has(c)
  /\ cached' = IF res[c] = "ok" THEN inv[c] ELSE cached
  /\ Go(c, "clean")
  /\ UNCHANGED <<lst, cur, mk, evl, set, wev, proxy, res, inv, ninv, can,
                 nfail, ncan, obs>>

Clean(c) ==
  /\ pc[c] = "clean" /\ Has(c)
  /\ set' = set \cup {wev[c]}
  /\ mk' = IF mk = wev[c] THEN 0 ELSE mk
  /\ Done(c, IF res[c] = "ok" THEN "val" ELSE res[c], inv[c])
  /\ UNCHANGED <<lst, evl, wev, proxy, cached, res, inv, ninv, can, nfail,
                 ncan, nev, old, invs, val, failed>>

\* --- waiting ---------------------------------------------------------------
Sched(c) ==
  LET el == evl[wev[c]] IN
  /\ pc[c] = "sched" /\ Has(c)
  /\ IF el # L(c) /\ lst[el] = "closed"
       THEN Go(c, "check") /\ UNCHANGED <<cur, proxy>>
       ELSE /\ proxy' = [proxy EXCEPT ![c] = IF el = L(c) THEN "none"
                                             ELSE "pend"]
            /\ Go(c, "wait") /\ cur' = [cur EXCEPT ![L(c)] = 0]
  /\ UNCHANGED <<lst, mk, evl, set, wev, cached, res, inv, ninv, can, nfail,
                 ncan, obs>>

ProxyRun(c) ==                   \* on the loop of the event
  LET el == evl[wev[c]] IN
  /\ proxy[c] = "pend" /\ Running(el) /\ cur[el] = 0
  /\ wev[c] \in set \/ lst[el] = "sd"
  /\ proxy' = [proxy EXCEPT ![c] = "done"]
  /\ UNCHANGED <<lst, cur, pc, mk, evl, set, wev, cached, res, inv, ninv,
                 can, nfail, ncan, obs>>

Wake(c) ==
  LET el == evl[wev[c]] IN
  /\ pc[c] = "wait" /\ Running(L(c)) /\ cur[L(c)] = 0
  /\ \/ can[c]
     \/ el = L(c) /\ wev[c] \in set
     \/ proxy[c] = "done"
     \/ ~Running(el)                        \* the safety timeout
  /\ proxy' = [proxy EXCEPT ![c] = IF @ = "pend" THEN "done" ELSE @]
  /\ IF can[c] THEN Done(c, "cancel", 0)
     ELSE Go(c, "check") /\ cur' = [cur EXCEPT ![L(c)] = c] /\ UNCHANGED bad
  /\ UNCHANGED <<lst, mk, evl, set, wev, cached, res, inv, ninv, can, nfail,
                 ncan, nev, old, invs, val, failed>>

\* --- environment -----------------------------------------------------------
Cancel(c) ==
  /\ pc[c] \in {"work", "wait"} /\ cur[L(c)] # c /\ lst[L(c)] = "run"
  /\ ~can[c] /\ ncan < MaxCancel
  /\ can' = [can EXCEPT ![c] = TRUE] /\ ncan' = ncan + 1
  /\ UNCHANGED <<lst, cur, pc, mk, evl, set, wev, proxy, cached, res, inv,
                 ninv, nfail, obs>>

Down(l) ==
  /\ l \in MayStop /\ lst[l] = "run" /\ cur[l] = 0
  /\ lst' = [lst EXCEPT ![l] = "stopped"]
  /\ invs' = Zombies(invs, l)
  /\ pc' = [c \in Calls |-> IF L(c) = l /\ pc[c] = "new" THEN "gone"
                            ELSE pc[c]]
  /\ UNCHANGED <<cur, mk, evl, set, wev, proxy, cached, res, inv, ninv, can,
                 nfail, ncan, nev, old, val, failed, bad>>

Shutdown(l) ==                   \* its tasks are cancelled and run
  /\ lst[l] = "stopped"
  /\ lst' = [lst EXCEPT ![l] = "sd"]
  /\ can' = [c \in Calls |-> can[c] \/ (L(c) = l /\ pc[c] \in
                                           {"work", "wait"})]
  /\ UNCHANGED <<cur, pc, mk, evl, set, wev, proxy, cached, res, inv, ninv,
                 nfail, ncan, obs>>

\* the shutdown only waits for the tasks that existed when it began:
\* proxies scheduled later are lost
Close(l) ==
  /\ \/ lst[l] = "stopped"
     \/ lst[l] = "sd" /\ cur[l] = 0
        /\ \A c \in Calls : L(c) = l => pc[c] \in {"done", "gone"}
  /\ lst' = [lst EXCEPT ![l] = "closed"]
  /\ UNCHANGED <<cur, pc, mk, evl, set, wev, proxy, cached, res, inv, ninv,
                 can, nfail, ncan, obs>>

Collect(c) ==                    \* an abandoned computation is collected
  /\ pc[c] = "work" /\ lst[L(c)] \in {"stopped", "closed"}
  /\ set' = set \cup {wev[c]}
  /\ mk' = IF mk = wev[c] THEN 0 ELSE mk
  /\ Go(c, "gone")
  /\ UNCHANGED <<lst, cur, evl, wev, proxy, cached, res, inv, ninv, can,
                 nfail, ncan, obs>>

Evict ==                         \* by the owner of the mapping
  /\ cached # 0 /\ nev < MaxEvict
  /\ nev' = nev + 1
  /\ cached' = 0 /\ val' = <<0>>
  /\ old' = [c \in Calls |-> IF pc[c] \in {"new", "done", "gone"} THEN old[c]
                             ELSE old[c] \cup {cached}]
  /\ UNCHANGED <<lst, cur, pc, mk, evl, set, wev, proxy, res, inv, ninv, can,
                 nfail, ncan, invs, failed, bad>>

Step(c) == \/ Call(c) \/ Check(c) \/ Lock(c) \/ Begin(c)
           \/ \E h \in {"ok", "exc", "cancel"} : End(c, h)
           \/ Store(c) \/ Clean(c) \/ Sched(c) \/ ProxyRun(c) \/ Wake(c)
Env == \/ Evict
       \/ \E c \in Calls : Cancel(c) \/ Collect(c)
       \/ \E l \in Loops : Down(l) \/ Shutdown(l) \/ Close(l)
Next == (\E c \in Calls : Step(c)) \/ Env
Fair == /\ \A c \in Calls : WF_vars(Check(c) \/ Lock(c) \/ Begin(c) \/ Store(c)
              \/ Clean(c) \/ Sched(c))
        /\ \A c \in Calls : SF_vars(Call(c)) /\ SF_vars(Wake(c))
              /\ SF_vars(ProxyRun(c))
              /\ SF_vars(\E h \in {"ok", "exc", "cancel"} : End(c, h))
        \* a shutdown, once begun, ends with the loop closed
        /\ \A l \in Loops : WF_vars(lst[l] = "sd" /\ Close(l))
Spec == Init /\ [][Next]_vars /\ Fair
Safe == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Contract == bad = {}
\* the marker names the one computation in progress on a running loop
MarkerRight == \A x \in invs : ~x.z => mk # 0 /\ wev[x.c] = mk
TypeOK == /\ mk \in 0..Len(evl) /\ set \subseteq 1..Len(evl)
          /\ \A l \in Loops : cur[l] # 0 => L(cur[l]) = l
Terminates == \A c \in Calls :
   <>(pc[c] = "done" \/ lst[L(c)] # "run")
\* configurations
C12  == <<1, 2>>
C112 == <<1, 1, 2>>
C123 == <<1, 2, 3>>
C1122 == <<1, 1, 2, 2>>
C1123 == <<1, 1, 2, 3>>
=============================================================================
