------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* Design of buffer_until_timeout (C03, C07, C08): the loop's ready queue, *)
(* the argument queue with its unfinished-task count, the completion flag, *)
(* the processing task, waits and foreign threads.  One action per await-  *)
(* free stretch of loop code; foreign threads interleave line by line:     *)
(* a submission clears the flag first and only then schedules the put.     *)
(*                                                                         *)
(* Elements are numbered 1..; thread 0 is the loop's own.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Prog,        \* thread -> sequence of "put" (ready) | "slow" | "empty" |
               \*           "wait" | "waitf" (cancel=False)
  MaxFail,     \* how often the function may fail
  Shutdown,    \* may the loop be shut down
  EndOnCancel, \* the processing task checks whether it has been cancelled
  ReturnOnSuccess \* the round ends with a success even if the flag was
                  \* cleared meanwhile

Threads == DOMAIN Prog
VARIABLES
  pos,     \* thread -> next statement
  half,    \* thread -> the statement has cleared the flag, put not scheduled
  ready,   \* scheduled loop callbacks: <<"put", x>> or <<"wait", w>>
  q, unf, event, getting, getE, inputs, loading, pc,
  running, \* the function is running
  okd,     \* element -> number of successful deliveries
  fails, sub, subd, ws, must, creq,
  absorbed \* the function has absorbed the cancellation
vars == <<pos, half, ready, q, unf, event, getting, getE, inputs, loading, pc,
          running, okd, fails, sub, subd, ws, must, creq, absorbed>>

\* the statement <<t, i>> names both the submission and its element
Stmts == {<<t, i>> : t \in Threads, i \in 1..4}
Kind(e) == Prog[e[1]][e[2]]
IsWait(e) == Kind(e) \in {"wait", "waitf"}
Puts == {e \in Stmts : e[2] <= Len(Prog[e[1]]) /\ ~IsWait(e)}
Waits == {e \in Stmts : e[2] <= Len(Prog[e[1]]) /\ IsWait(e)}
Elem(e) == IF Kind(e) = "empty" THEN {} ELSE {e}
Elems == UNION {Elem(e) : e \in Puts}

Init == /\ pos = [t \in Threads |-> 1]
        /\ half = [t \in Threads |-> FALSE]
        /\ ready = <<>> /\ q = <<>> /\ unf = 0
        /\ event = TRUE
        /\ getting = "none"   \* none | pending | item (getE) | timeout
        /\ getE = {}
        /\ inputs = {} /\ loading = {} /\ pc = "first"
        /\ running = FALSE
        /\ okd = [e \in Elems |-> 0]
        /\ fails = 0 /\ sub = {} /\ subd = {}
        /\ ws = [w \in Waits |-> "not"]
        /\ must = [w \in Waits |-> {}]
        /\ creq = FALSE /\ absorbed = FALSE

---------------------------------------------------------------------------
(* Submissions *)
Cur(t) == <<t, pos[t]>>
Has(t) == pos[t] <= Len(Prog[t])
\* a foreign thread is inside wait_from_anywhere until it returns
Blocked(t) == \E w \in Waits : w[1] = t /\ t # 0 /\ ws[w] \notin {"not", "done"}

Clear(t) == /\ Has(t) /\ ~IsWait(Cur(t)) /\ ~half[t] /\ ~Blocked(t)
            /\ ~creq
            /\ event' = FALSE
            /\ sub' = sub \cup {Cur(t)}
            /\ IF t = 0          \* nothing of the loop runs in between
                 THEN /\ ready' = Append(ready, <<"put", Cur(t)>>)
                      /\ pos' = [pos EXCEPT ![t] = @ + 1]
                      /\ subd' = subd \cup {Cur(t)}
                      /\ UNCHANGED half
                 ELSE /\ half' = [half EXCEPT ![t] = TRUE]
                      /\ UNCHANGED <<ready, pos, subd>>
            /\ UNCHANGED <<q, unf, getting, getE, inputs, loading, pc, running,
                           okd, fails, ws, must, creq, absorbed>>

Schedule(t) == /\ half[t]
               /\ ready' = Append(ready, <<"put", Cur(t)>>)
               /\ half' = [half EXCEPT ![t] = FALSE]
               /\ subd' = subd \cup {Cur(t)}
               /\ pos' = [pos EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<q, unf, event, getting, getE, inputs, loading, pc,
                              running, okd, fails, sub, ws, must, creq, absorbed>>

CallWait(t) == /\ Has(t) /\ IsWait(Cur(t)) /\ ~Blocked(t) /\ ~creq
               /\ must' = [must EXCEPT ![Cur(t)] =
                     UNION {Elem(e) : e \in {x \in subd : x[1] \in {0, t}}}]
               /\ ready' = Append(ready, <<"wait", Cur(t)>>)
               /\ ws' = [ws EXCEPT ![Cur(t)] = "called"]
               /\ pos' = [pos EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<half, q, unf, event, getting, getE, inputs, loading,
                              pc, running, okd, fails, sub, subd, creq, absorbed>>

\* the loop runs the next scheduled callback
Callback ==
  /\ ready # <<>>
  /\ LET c == Head(ready) IN
     /\ ready' = Tail(ready)
     /\ IF c[1] = "put"
          THEN /\ q' = Append(q, c[2])
               /\ unf' = unf + 1
               /\ UNCHANGED ws
          ELSE /\ ws' = [ws EXCEPT ![c[2]] = "join"]
               /\ UNCHANGED <<q, unf>>
  /\ UNCHANGED <<pos, half, event, getting, getE, inputs, loading, pc, running,
                 okd, fails, sub, subd, must, creq, absorbed>>

---------------------------------------------------------------------------
(* Waits *)
Join(w) == /\ ws[w] = "join" /\ unf = 0
           /\ ws' = [ws EXCEPT ![w] =
                IF Kind(w) = "wait" /\ getting = "pending" THEN "yield"
                ELSE "event"]
           /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE, inputs,
                          loading, pc, running, okd, fails, sub, subd, must, creq, absorbed>>
Yielded(w) == /\ ws[w] = "yield"
              /\ getting' = IF getting = "pending" THEN "timeout" ELSE getting
              /\ ws' = [ws EXCEPT ![w] = "event"]
              /\ UNCHANGED <<pos, half, ready, q, unf, event, getE, inputs,
                             loading, pc, running, okd, fails, sub, subd, must, creq, absorbed>>
Returns(w) == /\ ws[w] = "event" /\ event
              /\ ws' = [ws EXCEPT ![w] = "done"]
              /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE,
                             inputs, loading, pc, running, okd, fails, sub,
                             subd, must, creq, absorbed>>

---------------------------------------------------------------------------
(* The processing task *)
SetOf(s) == {s[i] : i \in 1..Len(s)}
U1 == <<pos, half, ready, running, okd, fails, sub, subd, ws, must, creq, absorbed>>

First == /\ pc = "first" /\ q # <<>>
         /\ ~(creq /\ EndOnCancel)
         /\ loading' = {Head(q)} /\ q' = Tail(q) /\ unf' = unf - 1
         /\ event' = FALSE /\ inputs' = {}
         /\ pc' = "top"
         /\ UNCHANGED <<getting, getE>> /\ UNCHANGED U1

Top == /\ pc = "top"
       /\ IF event
            THEN /\ pc' = "first"      \* the round ends
                 /\ UNCHANGED <<loading, q, unf, getting, getE>>
            ELSE /\ loading' = loading \cup SetOf(q)
                 /\ unf' = unf - Len(q) /\ q' = <<>>
                 /\ getting' = "pending" /\ getE' = {}
                 /\ pc' = "load"
       /\ UNCHANGED <<event, inputs>> /\ UNCHANGED U1

\* the timed read gets an element, or its time is up
Getter == /\ getting = "pending" /\ q # <<>>
          /\ getting' = "item" /\ getE' = {Head(q)} /\ q' = Tail(q)
          /\ UNCHANGED <<unf, event, inputs, loading, pc>> /\ UNCHANGED U1
Timer == /\ getting = "pending" /\ q = <<>>
         /\ getting' = "timeout"
         /\ UNCHANGED <<getE, q, unf, event, inputs, loading, pc>> /\ UNCHANGED U1

\* a slow producer takes any time, so does any order of the others
Load == /\ pc \in {"load", "load1"} /\ loading # {}
        /\ \E e \in loading :
             /\ inputs' = inputs \cup Elem(e)
             /\ loading' = loading \ {e}
        /\ UNCHANGED <<q, unf, event, getting, getE, pc>> /\ UNCHANGED U1
Loaded == /\ pc = "load" /\ loading = {} /\ getting # "pending"
          /\ IF getting = "timeout"
               THEN pc' = "run" /\ UNCHANGED <<loading, getting, getE>>
               ELSE /\ loading' = getE /\ getting' = "none" /\ getE' = {}
                    /\ pc' = "load1"
          /\ UNCHANGED <<q, unf, event, inputs>> /\ UNCHANGED U1
Loaded1 == /\ pc = "load1" /\ loading = {}
           /\ unf' = unf - 1
           /\ pc' = "top"
           /\ UNCHANGED <<q, event, inputs, loading, getting, getE>> /\ UNCHANGED U1

Run == /\ pc = "run"
       /\ IF inputs = {}
            THEN /\ event' = TRUE
                 /\ pc' = IF ReturnOnSuccess THEN "first" ELSE "top"
                 /\ UNCHANGED running
            ELSE /\ pc' = "func" /\ running' = TRUE
                 /\ UNCHANGED event
       /\ UNCHANGED <<pos, half, ready, q, unf, getting, getE, inputs, loading,
                      okd, fails, sub, subd, ws, must, creq, absorbed>>
\* the flag is set a moment after the function has returned
FuncOk == /\ pc = "func" /\ running
          /\ running' = FALSE
          /\ absorbed' = (absorbed \/ creq)
          /\ okd' = [e \in Elems |-> okd[e] + (IF e \in inputs THEN 1 ELSE 0)]
          /\ pc' = "set"
          /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE, inputs,
                         loading, fails, sub, subd, ws, must, creq>>
SetFlag == /\ pc = "set"
           /\ event' = TRUE
           /\ pc' = IF ReturnOnSuccess THEN "first" ELSE "flag"
           /\ inputs' = IF ReturnOnSuccess THEN {} ELSE inputs
           /\ UNCHANGED <<q, unf, getting, getE, loading>> /\ UNCHANGED U1
Flag == /\ pc = "flag" /\ pc' = "top"
        /\ UNCHANGED <<q, unf, event, inputs, loading, getting, getE>>
        /\ UNCHANGED U1
FuncFail == /\ pc = "func" /\ running /\ fails < MaxFail /\ ~creq
            /\ running' = FALSE /\ fails' = fails + 1
            /\ pc' = "top"
            /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE, inputs,
                           loading, okd, sub, subd, ws, must, creq, absorbed>>

---------------------------------------------------------------------------
(* Shutdown: the task is cancelled once; it notices where it waits.  The   *)
(* function may absorb the cancellation and return (FuncOk).               *)
Shut == /\ Shutdown /\ ~creq
        /\ creq' = TRUE
        /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE, inputs,
                       loading, pc, running, okd, fails, sub, subd, ws, must, absorbed>>
Stopped == /\ creq
           /\ \/ pc \in {"load", "load1", "func"} /\ ~absorbed
              \/ pc = "first" /\ (EndOnCancel \/ ~absorbed)
           /\ pc' = "end" /\ running' = FALSE
           /\ UNCHANGED <<pos, half, ready, q, unf, event, getting, getE, inputs,
                          loading, okd, fails, sub, subd, ws, must, creq, absorbed>>

Next == \/ \E t \in Threads : Clear(t) \/ Schedule(t) \/ CallWait(t)
        \/ Callback
        \/ \E w \in Waits : Join(w) \/ Yielded(w) \/ Returns(w)
        \/ First \/ Top \/ Getter \/ Timer \/ Load \/ Loaded \/ Loaded1
        \/ Run \/ FuncOk \/ SetFlag \/ Flag \/ FuncFail
        \/ Shut \/ Stopped
        \/ (\A t \in Threads : ~Has(t)) /\ UNCHANGED vars
        \/ pc = "end" /\ UNCHANGED vars

Fair == /\ \A t \in Threads : WF_vars(Clear(t) \/ Schedule(t) \/ CallWait(t))
        /\ WF_vars(Callback)
        /\ \A w \in Waits : WF_vars(Join(w) \/ Yielded(w) \/ Returns(w))
        /\ WF_vars(First \/ Top \/ Load \/ Loaded \/ Loaded1 \/ Run
                   \/ SetFlag \/ Flag)
        /\ WF_vars(Getter) /\ WF_vars(Timer)
        /\ WF_vars(FuncOk) /\ WF_vars(Stopped)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

P1 == (0 :> <<"put", "wait", "put">>) @@ (1 :> <<"put", "wait">>)
P2 == (0 :> <<"slow", "waitf", "empty", "wait">>) @@ (1 :> <<"put">>)
P3 == (0 :> <<"put", "put">>) @@ (1 :> <<"put", "waitf">>)
      @@ (2 :> <<"slow", "wait">>)
P4 == (0 :> <<"put", "waitf", "wait", "put">>) @@ (1 :> <<"put", "put">>)
      @@ (2 :> <<"put", "wait">>)
---------------------------------------------------------------------------
Held == SetOf(q) \cup loading \cup inputs
        \cup getE
        \cup {c[2] : c \in {x \in SetOf(ready) : x[1] = "put"}}
        \cup {Cur(t) : t \in {x \in Threads : half[x]}}
\* C03
NeverLost == pc = "end" \/ \A e \in sub : Elem(e) = {} \/ e \in Held
                                         \/ okd[e] > 0
OwnOnce == \A e \in Elems : e[1] = 0 => okd[e] <= 1
OnlySubmitted == inputs \subseteq sub
\* C07
Barrier == \A w \in Waits : ws[w] = "done" => \A e \in must[w] : okd[e] > 0
\* C08
Nonempty == running => inputs # {}
Safe == NeverLost /\ OwnOnce /\ OnlySubmitted /\ Barrier /\ Nonempty
        /\ unf >= 0
Delivered == \A e \in Elems : (e \in sub) ~> (okd[e] > 0 \/ creq)
WaitsReturn == \A w \in Waits : (ws[w] = "called") ~> (ws[w] = "done" \/ creq)
ShutdownEnds == creq ~> (pc = "end")
=============================================================================
