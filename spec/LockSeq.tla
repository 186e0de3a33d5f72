------------------------------ MODULE LockSeq ------------------------------
(***************************************************************************)
(* All sequential histories of operations of Threads on Objects of one lock*)
(* file, with the result the contract prescribes for every operation; they *)
(* are printed and replayed on the real class (C12).                       *)
(***************************************************************************)
EXTENDS LockObs, Json, IOUtils

Depth  == atoi(IOEnv.DEPTH)
Ops    == IOEnv.OPS             \* "full" | "core" | "mini" | "deep"
Deep   == Ops = "deep"          \* up first, then down
MaxDepth == IF Deep THEN 99 ELSE 3
Up(h)  == ~Deep \/ 5 * Len(h) < 3 * Depth
Down(h) == ~Deep \/ ~Up(h)
Threads == {1, 2}
Objects == {1, 2}
Tmo == 200                      \* a short timeout
Poll == 50

Modes == IF Ops = "full" THEN {"nb", "t0", "ts", "bl", "df", "wi", "cx", "cn"}
         ELSE IF Ops = "core" \/ Deep THEN {"nb", "bl", "wi"} ELSE {"bl", "nb"}
Rels  == {"rel", "frc"}

VARIABLES re,      \* [object -> reentrant?]
          deft,    \* default timeout of every object: -1, 0 or Tmo
          hold, hist,
          ctx,     \* [thread -> stack of objects entered by with/ctx]
          last     \* the last operation was a force on a nested lock, ...
vars == <<re, deft, hold, hist, ctx, last>>

Init == /\ re \in IF Deep THEN {[o \in Objects |-> TRUE]}
                    ELSE [Objects -> BOOLEAN]
        /\ deft \in IF Ops = "full" THEN {-1, 0, Tmo} ELSE {-1}
        /\ hold = Free /\ hist = <<>>
        /\ ctx = [t \in Threads |-> <<>>]
        /\ last = "-"

TmoOf(m) == CASE m \in {"nb", "bl", "cn"} -> -1
              [] m = "t0" -> 0
              [] m \in {"ts", "cx"} -> Tmo
              [] OTHER -> deft
BlockingOf(m) == m \notin {"nb", "cn"}
KindOf(m) == Kind(BlockingOf(m), TmoOf(m))
IsCtx(m) == m \in {"wi", "cx", "cn"}

Acquire(t, o, m) ==
  LET ok == CanAcquire(hold, re, o, t) IN
  /\ ok \/ KindOf(m) # "bl"                  \* would wait for ever
  /\ ok /\ hold.o = o => hold.d < MaxDepth
  /\ hold' = IF ok THEN AfterAcquire(hold, o, t) ELSE hold
  /\ ctx' = IF ok /\ IsCtx(m) THEN [ctx EXCEPT ![t] = Append(@, o)] ELSE ctx
  /\ hist' = Append(hist, [op |-> m, t |-> t, o |-> o, ret |-> ok,
                           lo |-> IF ok \/ TmoOf(m) < 0 THEN 0 ELSE TmoOf(m),
                           hi |-> IF ok \/ TmoOf(m) < 0 THEN 0
                                  ELSE 2 * TmoOf(m) + Poll,
                           l |-> hold'.o])
  /\ last' = m

\* release: by the acquiring thread, or of an object which is not held
Release(t, o, m) ==
  /\ hold.o = o => hold.th = t
  /\ hold' = AfterRelease(hold, o, t, m = "frc")
  /\ hist' = Append(hist, [op |-> m, t |-> t, o |-> o, ret |-> TRUE,
                           lo |-> 0, hi |-> 0, l |-> hold'.o])
  /\ last' = m
  /\ UNCHANGED ctx

\* leave the innermost with-block of the thread (ret: with an exception?)
Exit(t, exc) ==
  /\ ctx[t] # <<>>
  /\ LET o == ctx[t][Len(ctx[t])] IN
     /\ hold.o = o => hold.th = t
     /\ hold' = AfterRelease(hold, o, t, FALSE)
     /\ ctx' = [ctx EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
     /\ hist' = Append(hist, [op |-> IF exc THEN "xitx" ELSE "xit", t |-> t,
                              o |-> o, ret |-> TRUE, lo |-> 0, hi |-> 0,
                              l |-> hold'.o])
  /\ last' = "xit"

\* the first operation may be assumed to be one of thread 1 on object 1
First(t, o) == hist # <<>> \/ (t = 1 /\ o = 1)

Next == /\ Len(hist) < Depth
        /\ \/ \E t \in Threads, o \in Objects :
                /\ First(t, o)
                /\ Ops = "mini" => o = 1 \/ t = 1
                /\ \/ \E m \in Modes :
                        /\ Up(hist) \/ (m = "nb" /\ ~CanAcquire(hold, re, o, t))
                        /\ Acquire(t, o, m)
                   \/ \E m \in Rels :
                        /\ Down(hist)
                        /\ (Deep /\ m = "frc") => hold.d < 3
                        /\ Release(t, o, m)
           \/ \E t \in Threads :
                /\ Down(hist)
                /\ Exit(t, FALSE) \/ (Ops = "full" /\ Exit(t, TRUE))
        /\ UNCHANGED <<re, deft>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
WellFormed == /\ (hold.o = 0) = (hold.d = 0)
              /\ hold.d <= MaxDepth
              /\ hold.d > 1 => re[hold.o]
\* a second acquire of a non-reentrant lock never succeeds while held, ...
Truthful == [][\A t \in Threads, o \in Objects :
                 (hold.o # 0 /\ hold'.o # 0 /\ hold.o # hold'.o) => FALSE]_vars
Emit == Len(hist) = Depth =>
          PrintT(ToJson([re |-> re, deft |-> deft, hist |-> hist]))
=============================================================================
