----------------------------- MODULE LockTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded executions of FileLock operations (by threads, *)
(* objects and processes on one lock file) are behaviours of LockObs.      *)
(*                                                                         *)
(* acq th o k tmo poll   an acquire begins         rel th o force          *)
(* ret th ret f          ... returned T/F or X     rrt th ret f            *)
(* die th                the process of th is killed                       *)
(* prb l fds             nothing runs: is_locked of each object, number of *)
(*                       descriptors open on the lock file                 *)
(* end how                                                                 *)
(***************************************************************************)
EXTENDS LockObs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, hold, pend, bad, done
vars == <<tid, l, hold, pend, bad, done>>

T == Traces[tid]
NoOp == [k |-> "-"]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ hold = Free /\ bad = {} /\ done = FALSE
        /\ pend = [th \in 1..Traces[tid].n |-> NoOp]

ev == T.ev[l]
Others(th) == DOMAIN pend \ {th}
\* th's pending operations seen from elsewhere are no longer alone
Disturb(p, th) ==
  [x \in DOMAIN p |-> IF x # th /\ p[x].k # "-" THEN [p[x] EXCEPT !.q = FALSE]
                      ELSE p[x]]
Quiet(th) == \A x \in Others(th) : pend[x].k = "-"

Acq == /\ ev.e = "acq"
       /\ pend' = Disturb([pend EXCEPT ![ev.th] =
                    [k |-> ev.k, o |-> ev.o, tmo |-> ev.tmo, t |-> ev.t,
                     poll |-> ev.poll, q |-> Quiet(ev.th)]], ev.th)
       /\ UNCHANGED <<hold, bad>>

Ret == /\ ev.e = "ret"
       /\ LET p == pend[ev.th]
              can == CanAcquire(hold, T.re, p.o, ev.th) IN
          /\ bad' = bad \cup AcquireClauses(hold, T.re, p.o, ev.th, p.k,
                               p.tmo, p.poll, ev.ret, ev.t - p.t,
                               p.q /\ Quiet(ev.th), ev.f)
          /\ hold' = IF ev.ret = "T" THEN AfterAcquire(hold, p.o, ev.th)
                     ELSE hold
       /\ pend' = Disturb([pend EXCEPT ![ev.th] = NoOp], ev.th)

Rel == /\ ev.e = "rel"
       /\ pend' = Disturb([pend EXCEPT ![ev.th] =
                    [k |-> "rel", o |-> ev.o, tmo |-> 0, t |-> ev.t,
                     poll |-> 0, q |-> TRUE, force |-> ev.force,
                     before |-> hold]], ev.th)
       /\ hold' = AfterRelease(hold, ev.o, ev.th, ev.force)
       /\ UNCHANGED bad

\* a release which failed with an exception because the OS failed may have
\* had its effect or not
Rrt == /\ ev.e = "rrt"
       /\ pend' = Disturb([pend EXCEPT ![ev.th] = NoOp], ev.th)
       /\ bad' = bad \cup (IF ev.ret = "X" /\ ~ev.f THEN {"C12.release_raised"}
                           ELSE {})
                     \cup (IF ev.t > pend[ev.th].t THEN {"C12.release_waited"}
                           ELSE {})
       /\ \/ hold' = hold
          \/ /\ ev.ret = "X" /\ ev.f
             /\ hold = Free
             /\ hold' = pend[ev.th].before

Die == /\ ev.e = "die"
       /\ hold' = IF hold.th = ev.th THEN Free ELSE hold
       /\ pend' = Disturb([pend EXCEPT ![ev.th] = NoOp], ev.th)
       /\ UNCHANGED bad

Prb == /\ ev.e = "prb"
       /\ bad' = bad
            \cup (IF \E o \in 1..Len(ev.l) : ev.l[o] # IsLocked(hold, o)
                    THEN {"C12.is_locked"} ELSE {})
            \cup (IF ev.fds # (IF hold.o = 0 THEN 0 ELSE 1)
                    THEN {"C12.descriptors"} ELSE {})
       /\ UNCHANGED <<hold, pend>>

End == /\ ev.e = "end"
       /\ bad' = bad \cup (IF ev.how = "done" THEN {}
                           ELSE IF ev.how = "stuck_after_crash"
                                THEN {"C13.stuck"} ELSE {"C12.stuck"})
       /\ UNCHANGED <<hold, pend>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})

Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Acq \/ Ret \/ Rel \/ Rrt \/ Die \/ Prb \/ End)
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<tid, l, hold, pend, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
