---------------------------- MODULE CacheTrace ----------------------------
(***************************************************************************)
(* Decides whether recorded executions of threadsafe_async_cache are       *)
(* behaviours of CacheObs.                                                 *)
(*                                                                         *)
(* up/down loop        an event loop starts/stops running                  *)
(* call c              a caller's task begins the call                     *)
(* inv i key loop c    an invocation of the wrapped function begins        *)
(* fin i how           ... ends: ok | exc | cancel                         *)
(* cancel c            the harness cancels the task of a caller            *)
(* ret c how v         the call ends                                       *)
(* evict ks            the mapping drops what it has for these keys        *)
(* end how             done | deadlock | steps | clock | stuck             *)
(***************************************************************************)
EXTENDS CacheObs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, up, invs, val, calls, failed, hosted, dist, now, bad, done
vars == <<tid, l, up, invs, val, calls, failed, hosted, dist, now, bad, done>>

T == Traces[tid]
ev == T.ev[l]
Keys == 1..T.nkeys

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ up = {} /\ invs = {} /\ failed = {} /\ hosted = {}
        /\ val = [k \in 1..Traces[tid].nkeys |-> 0]
        /\ dist = {}                       \* keys disturbed by a failure
        /\ calls = [c \in 1..Len(Traces[tid].calls) |->
                      [s |-> "new", can |-> FALSE, dl |-> -1,
                       old |-> {}]]
        /\ now = 0 /\ bad = {} /\ done = FALSE

KeyOf(c)  == T.calls[c][1]
LoopOf(c) == T.calls[c][2]

\* calls which must not stay unfinished while time passes to t
Late(t) ==
  {c \in DOMAIN calls :
     /\ calls[c].s = "pend" /\ ~calls[c].can /\ LoopOf(c) \in up
     /\ ~MayWait(invs, up, val, KeyOf(c))
     /\ calls[c].dl < t}
LateClauses(t) ==
  IF t <= now THEN {}
  ELSE LET late == Late(t) IN
       (IF \E c \in late : calls[c].dl = -1 THEN {"C05.late"} ELSE {})
  \cup (IF \E c \in late : calls[c].dl # -1 THEN {"C05.recover"} ELSE {})
  \cup (IF \E c \in late : KeyOf(c) \in dist /\ calls[c].dl = -1
          THEN {"C06.delayed"} ELSE {})

Up == /\ ev.e = "up"
      /\ up' = up \cup {ev.loop}
      /\ UNCHANGED <<invs, val, calls, failed, hosted, dist>>
      /\ bad' = bad \cup LateClauses(ev.t)

\* whoever waits for a computation of a loop going down may need the
\* safety window
Down == /\ ev.e = "down"
        /\ up' = up \ {ev.loop}
        /\ invs' = Zombies(invs, ev.loop)
        /\ calls' = [c \in DOMAIN calls |->
                       IF calls[c].s = "pend" /\ LoopOf(c) # ev.loop
                          /\ <<ev.loop, KeyOf(c)>> \in hosted
                         THEN [calls[c] EXCEPT !.dl = ev.t + Window + Slack]
                         ELSE calls[c]]
        /\ bad' = bad \cup LateClauses(ev.t)
        /\ UNCHANGED <<val, failed, hosted, dist>>

Call == /\ ev.e = "call"
        /\ calls' = [calls EXCEPT ![ev.c].s = "pend"]
        /\ bad' = bad \cup LateClauses(ev.t)
        /\ UNCHANGED <<up, invs, val, failed, hosted, dist>>

Inv == /\ ev.e = "inv"
       /\ invs' = invs \cup {[i |-> ev.i, key |-> ev.key, loop |-> ev.loop,
                              c |-> ev.c, z |-> FALSE]}
       /\ hosted' = hosted \cup {<<ev.loop, ev.key>>}
       /\ bad' = bad \cup LateClauses(ev.t)
                     \cup InvokeClauses(invs, val, ev.key)
       /\ UNCHANGED <<up, val, calls, failed, dist>>

Fin == /\ ev.e = "fin"
       /\ LET x == CHOOSE y \in invs : y.i = ev.i IN
          /\ invs' = invs \ {x}
          /\ val' = IF ev.how = "ok" /\ val[x.key] = 0
                      THEN [val EXCEPT ![x.key] = ev.i] ELSE val
          /\ failed' = IF ev.how = "exc" THEN failed \cup {<<ev.i, x.c>>}
                       ELSE failed
          /\ dist' = IF ev.how # "ok" THEN dist \cup {x.key} ELSE dist
       /\ bad' = bad \cup LateClauses(ev.t)
       /\ UNCHANGED <<up, calls, hosted>>

Cancel == /\ ev.e = "cancel"
          /\ calls' = [calls EXCEPT ![ev.c].can = TRUE]
          /\ dist' = dist \cup {KeyOf(ev.c)}
          /\ bad' = bad \cup LateClauses(ev.t)
          /\ UNCHANGED <<up, invs, val, failed, hosted>>

Ret == /\ ev.e = "ret"
       /\ bad' = bad \cup LateClauses(ev.t)
            \cup (IF LoopOf(ev.c) \notin up THEN {}   \* abandoned: no outcome
                  ELSE ReturnClauses(val, calls[ev.c].old, failed, ev.c,
                                     KeyOf(ev.c), calls[ev.c].can, ev.how,
                                     ev.v))
       /\ calls' = [calls EXCEPT ![ev.c].s = "done"]
       /\ UNCHANGED <<up, invs, val, failed, hosted, dist>>

Evict == /\ ev.e = "evict"
         /\ LET ks == {ev.ks[i] : i \in 1..Len(ev.ks)} IN
            /\ val' = [k \in Keys |-> IF k \in ks THEN 0 ELSE val[k]]
            /\ calls' = [c \in DOMAIN calls |->
                           IF calls[c].s = "pend" /\ KeyOf(c) \in ks
                             THEN [calls[c] EXCEPT !.old =
                                     @ \cup ({val[KeyOf(c)]} \ {0})]
                             ELSE calls[c]]
         /\ bad' = bad \cup LateClauses(ev.t)
         /\ UNCHANGED <<up, invs, failed, hosted, dist>>

End == /\ ev.e = "end"
       /\ bad' = bad \cup LateClauses(ev.t)
            \cup (IF ev.how = "done" THEN {}
                  ELSE {"C05.hang"} \cup
                       (IF \E c \in DOMAIN calls :
                             /\ calls[c].s = "pend" /\ LoopOf(c) \in up
                             /\ KeyOf(c) \in dist /\ ~calls[c].can
                          THEN {"C06.delayed"} ELSE {}))
       /\ UNCHANGED <<up, invs, val, calls, failed, hosted, dist>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})

Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Up \/ Down \/ Call \/ Inv \/ Fin \/ Cancel \/ Ret \/ Evict
            \/ End)
        /\ now' = ev.t
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<tid, l, up, invs, val, calls, failed, hosted, dist,
                         now, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
