----------------------------- MODULE CrossLoop -----------------------------
(***************************************************************************)
(* Design of ensure_aw and loop_in_thread (C17): callers on loops of their *)
(* own target one loop, which is idle, borrowed by another caller's        *)
(* awaitable, or run by loop_in_thread.  Every read of "is it running",    *)
(* hand-over and lock operation is a step of its own.                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS
  Callers,
  Lit,      \* is there a loop_in_thread (stopped when nobody is waiting)
  Pending,  \* callers which found the loop running are waited for
  Recheck,  \* ... and check again once they are known
  Locked,   \* whoever runs the loop holds its lock
  TryLock   \* a caller never waits for the lock: it shares the loop instead

RP == {101, 102, 103}        \* jobs which run the loop for the others
LIT == 100
VARIABLES pc, up, lock, posted, evald, pend, rp, lit, bad
vars == <<pc, up, lock, posted, evald, pend, rp, lit, bad>>

Init == /\ pc = [c \in Callers |-> "start"]
        /\ up = 0 /\ lock = 0
        /\ posted = {} /\ evald = {} /\ pend = {}
        /\ rp = [r \in RP |-> "free"]
        /\ lit = IF Lit THEN "start" ELSE "none"
        /\ bad = {}

Go(c, p) == pc' = [pc EXCEPT ![c] = p]
RunBy(r) == /\ up' = r
            /\ bad' = IF up # 0 THEN bad \cup {"two"} ELSE bad
Take(r) == IF Locked THEN lock = 0 /\ lock' = r ELSE UNCHANGED lock
Give == IF Locked THEN lock' = 0 ELSE UNCHANGED lock
Submit == IF \E r \in RP : rp[r] = "free"
            THEN rp' = [rp EXCEPT ![CHOOSE r \in RP : rp[r] = "free"] = "lock"]
            ELSE UNCHANGED rp

Check(c) == /\ pc[c] = "start"
            /\ Go(c, IF up # 0 THEN "post" ELSE "lock")
            /\ UNCHANGED <<up, lock, posted, evald, pend, rp, lit, bad>>
Share(c) == /\ TryLock /\ pc[c] = "lock" /\ lock # 0
            /\ Go(c, "post")
            /\ UNCHANGED <<up, lock, posted, evald, pend, rp, lit, bad>>
Post(c) == /\ pc[c] = "post"
           /\ posted' = posted \cup {c}
           /\ Go(c, IF Pending THEN "add" ELSE "wait")
           /\ UNCHANGED <<up, lock, evald, pend, rp, lit, bad>>
Add(c) == /\ pc[c] = "add"
          /\ pend' = IF c \in evald THEN pend ELSE pend \cup {c}
          /\ Go(c, IF Recheck THEN "recheck" ELSE "wait")
          /\ UNCHANGED <<up, lock, posted, evald, rp, lit, bad>>
Again(c) == /\ pc[c] = "recheck"
            /\ IF up = 0 THEN Submit ELSE UNCHANGED rp
            /\ Go(c, "wait")
            /\ UNCHANGED <<up, lock, posted, evald, pend, lit, bad>>
Done(c) == /\ pc[c] = "wait" /\ c \in evald
           /\ Go(c, "done")
           /\ UNCHANGED <<up, lock, posted, evald, pend, rp, lit, bad>>

\* a pool thread borrows the loop for c
Lock(c) == /\ pc[c] = "lock" /\ Take(c) /\ Go(c, "run")
           /\ UNCHANGED <<up, posted, evald, pend, rp, lit, bad>>
Run(c) == /\ pc[c] = "run"
          /\ RunBy(c) /\ posted' = posted \cup {c} /\ Go(c, "running")
          /\ UNCHANGED <<lock, evald, pend, rp, lit>>
Down(c) == /\ pc[c] = "running" /\ c \in evald
           /\ up' = 0 /\ Go(c, "check")
           /\ UNCHANGED <<lock, posted, evald, pend, rp, lit, bad>>
Others(c) == /\ pc[c] = "check"
             /\ IF pend # {} THEN Submit ELSE UNCHANGED rp
             /\ Give /\ Go(c, "done")
             /\ UNCHANGED <<up, posted, evald, pend, lit, bad>>

\* the loop, while somebody runs it, evaluates what it was given
Eval(c) == /\ up # 0 /\ c \in posted /\ c \notin evald
           /\ evald' = evald \cup {c}
           /\ pend' = pend \ {c}
           /\ UNCHANGED <<pc, up, lock, posted, rp, lit, bad>>

RLock(r) == /\ rp[r] = "lock" /\ Take(r)
            /\ rp' = [rp EXCEPT ![r] = "loop"]
            /\ UNCHANGED <<pc, up, posted, evald, pend, lit, bad>>
RLoop(r) == /\ rp[r] = "loop"
            /\ IF pend = {}
                 THEN /\ Give /\ rp' = [rp EXCEPT ![r] = "free"]
                      /\ UNCHANGED <<up, bad>>
                 ELSE /\ RunBy(r) /\ rp' = [rp EXCEPT ![r] = "running"]
                      /\ UNCHANGED lock
            /\ UNCHANGED <<pc, posted, evald, pend, lit>>
\* it runs until one of those it has seen is done
RDown(r) == /\ rp[r] = "running" /\ posted \subseteq evald
            /\ up' = 0 /\ rp' = [rp EXCEPT ![r] = "loop"]
            /\ UNCHANGED <<pc, lock, posted, evald, pend, lit, bad>>

Quiet == \A c \in Callers : pc[c] \in {"start", "done"}
LLock == /\ lit = "start" /\ Take(LIT) /\ lit' = "run"
         /\ UNCHANGED <<pc, up, posted, evald, pend, rp, bad>>
LRun == /\ lit = "run" /\ RunBy(LIT) /\ lit' = "up"
        /\ UNCHANGED <<pc, lock, posted, evald, pend, rp>>
LStop == /\ lit = "up" /\ Quiet
         /\ up' = 0 /\ lit' = "down"
         /\ UNCHANGED <<pc, lock, posted, evald, pend, rp, bad>>
LGive == /\ lit = "down" /\ Give /\ lit' = "none"
         /\ UNCHANGED <<pc, up, posted, evald, pend, rp, bad>>

Step(c) == Check(c) \/ Share(c) \/ Post(c) \/ Add(c) \/ Again(c) \/ Done(c) \/ Lock(c)
           \/ Run(c) \/ Down(c) \/ Others(c)
Next == \/ \E c \in Callers : Step(c) \/ Eval(c)
        \/ \E r \in RP : RLock(r) \/ RLoop(r) \/ RDown(r)
        \/ LLock \/ LRun \/ LStop \/ LGive
Spec == /\ Init /\ [][Next]_vars
        /\ \A c \in Callers : WF_vars(Step(c)) /\ SF_vars(Eval(c))
                              /\ SF_vars(Lock(c))
        /\ \A r \in RP : SF_vars(RLock(r)) /\ WF_vars(RLoop(r) \/ RDown(r))
        /\ WF_vars(LRun \/ LStop \/ LGive) /\ SF_vars(LLock)

OneRunner == bad = {}
\* A call which found the loop idle isn't held up by the other callers:
\* whatever it is waiting for, the loop has been given its awaitable
Prompt == \A c \in Callers : (TryLock /\ pc[c] = "lock") => ENABLED Step(c)
Completes == \A c \in Callers : <>(pc[c] = "done")
=============================================================================
