---------------------------- MODULE BufferTrace ----------------------------
(***************************************************************************)
(* Decides whether recorded executions of a buffer are behaviours of       *)
(* BufferObs.                                                              *)
(*                                                                         *)
(* sub s / subd s   a submission is made / that call has returned          *)
(* fs xs / fe how   an invocation begins with xs / ends: ok | exc          *)
(* ws w / we w / wc w   a wait is called / returns / was given up          *)
(* shut / term      the loop's tasks are cancelled / have all ended        *)
(* end how          nothing will happen any more                           *)
(*                                                                         *)
(* Static: subs[s] = [th, xs, i], th = 0 the loop's own thread, xs the     *)
(* elements its producer yields before it ends or fails, i the index of    *)
(* its event; waits[w] = [th]; nx: elements are 1..nx; pure: only          *)
(* immediate producers, no wait that flushes; tmo the buffer's timeout.    *)
(*                                                                         *)
(* An argument counts as delivered by a successful invocation with it that *)
(* began after its submission.                                             *)
(***************************************************************************)
EXTENDS BufferObs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, subd, sub, okd, cnt, fsi, run, cur, musts, wret, shut,
          last, idle, lastIdle, fe, judge, now, bad, done
vars == <<tid, l, subd, sub, okd, cnt, fsi, run, cur, musts, wret, shut, last, idle,
          lastIdle, fe, judge, now, bad, done>>

T == Traces[tid]
ev == T.ev[l]
SetOf(q) == {q[i] : i \in 1..Len(q)}
XsOf(S) == UNION {SetOf(T.subs[s].xs) : s \in S}
Own == XsOf({s \in DOMAIN T.subs : T.subs[s].th = 0})
         \ XsOf({s \in DOMAIN T.subs : T.subs[s].th # 0})
\* submissions of elements, with the index of the event
Sub2(S) == UNION {{<<x, T.subs[s].i>> : x \in SetOf(T.subs[s].xs)} : s \in S}
Delivered(P) == {p \in P : okd[p[1]] > p[2]}
\* how often x has been submitted
Times(x) == Cardinality({<<s, k>> \in sub \X (1..T.maxxs) :
                           k <= Len(T.subs[s].xs) /\ T.subs[s].xs[k] = x})

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ sub = {} /\ subd = {}            \* submissions made / returned
        /\ okd = [x \in 1..Traces[tid].nx |-> 0]   \* latest successful call
        /\ cnt = <<>>                       \* how often delivered, if ever
        /\ fsi = 0
        /\ run = FALSE /\ cur = {}
        /\ musts = <<>>                     \* wait -> what it must see
        /\ wret = {} /\ shut = FALSE
        /\ last = -1 /\ idle = {} /\ lastIdle = -1 /\ fe = -1
        /\ judge = Traces[tid].pure
        /\ now = 0 /\ bad = {} /\ done = FALSE

Tick == IF judge /\ ~run /\ ev.t > now
          THEN DebounceLate(ev.t, T.tmo, lastIdle, idle) ELSE {}

\* an exact tie between a submission and a timer or the function: from then
\* on the debouncing of this execution is not judged
Tie == \/ last >= 0 /\ ev.t - last = T.tmo
       \/ fe >= 0 /\ (ev.t = fe \/ ev.t - fe = T.tmo)

Sub == /\ ev.e = "sub"
       /\ sub' = sub \cup {ev.s}
       /\ judge' = (judge /\ ~Tie)
       /\ IF run THEN UNCHANGED <<idle, lastIdle>>
          ELSE /\ idle' = idle \cup SetOf(T.subs[ev.s].xs)
               /\ lastIdle' = ev.t
       /\ last' = ev.t
       /\ bad' = bad \cup Tick
       /\ UNCHANGED <<subd, okd, cnt, fsi, run, cur, musts, wret, shut, fe>>

SubD == /\ ev.e = "subd"
        /\ subd' = subd \cup {ev.s}
        /\ bad' = bad \cup Tick
        /\ UNCHANGED <<sub, okd, cnt, fsi, run, cur, musts, wret, shut, last, idle,
                       lastIdle, fe, judge>>

Fs == /\ ev.e = "fs"
      /\ run' = TRUE /\ cur' = SetOf(ev.xs) /\ fsi' = l
      /\ bad' = bad \cup Tick \cup StartClauses(run, XsOf(sub), SetOf(ev.xs))
            \cup (IF judge /\ ev.t # last
                    THEN DebounceStart(ev.t, T.tmo, last, idle, SetOf(ev.xs))
                  ELSE IF judge THEN {"C08.early"} ELSE {})
      /\ idle' = {}
      /\ UNCHANGED <<sub, subd, okd, cnt, musts, wret, shut, last, lastIdle,
                     fe, judge>>

Fe == /\ ev.e = "fe"
      /\ run' = FALSE
      /\ okd' = IF ev.how = "ok"
                  THEN [x \in DOMAIN okd |-> IF x \in cur THEN fsi ELSE okd[x]]
                  ELSE okd
      /\ cnt' = IF ev.how = "ok"
                  THEN [x \in DOMAIN cnt \cup cur |->
                          (IF x \in DOMAIN cnt THEN cnt[x] ELSE 0)
                          + (IF x \in cur THEN 1 ELSE 0)]
                  ELSE cnt
      /\ bad' = bad \cup
           (IF ev.how = "ok"
              THEN SuccessClauses({x \in cur \cap DOMAIN cnt :
                                     cnt[x] >= Times(x)}, Own, cur)
              ELSE {})
      /\ fe' = ev.t
      /\ judge' = (judge /\ ev.t # last)
      /\ cur' = {}
      /\ UNCHANGED <<fsi, sub, subd, musts, wret, shut, last, idle, lastIdle>>

Ws == /\ ev.e = "ws"
      /\ musts' = (ev.w :> Sub2({s \in subd :
                     T.subs[s].th \in {0, T.waits[ev.w]}})) @@ musts
      /\ bad' = bad \cup Tick
      /\ UNCHANGED <<sub, subd, okd, cnt, fsi, run, cur, wret, shut, last, idle,
                     lastIdle, fe, judge>>

We == /\ ev.e = "we"
      /\ wret' = wret \cup {ev.w}
      /\ bad' = bad \cup Tick \cup 
                WaitClauses(Delivered(musts[ev.w]), musts[ev.w])
      /\ UNCHANGED <<sub, subd, okd, cnt, fsi, run, cur, musts, shut, last, idle,
                     lastIdle, fe, judge>>

\* the caller has given up waiting
Wc == /\ ev.e = "wc"
      /\ wret' = wret \cup {ev.w}
      /\ bad' = bad \cup Tick
      /\ UNCHANGED <<sub, subd, okd, cnt, fsi, run, cur, musts, shut, last, idle,
                     lastIdle, fe, judge>>

Shut == /\ ev.e = "shut"
        /\ shut' = TRUE /\ judge' = FALSE
        /\ bad' = bad \cup Tick \cup
             (IF ev.early THEN {}
              ELSE (IF Sub2(sub) \ Delivered(Sub2(sub)) # {} THEN {"C03.lost"} ELSE {})
              \cup (IF DOMAIN musts \ wret # {} THEN {"C07.wait_hangs"}
                    ELSE {}))
        /\ UNCHANGED <<sub, subd, okd, cnt, fsi, run, cur, musts, wret, last, idle,
                       lastIdle, fe>>

\* done: the shutdown has completed
End == /\ ev.e = "end"
       /\ bad' = bad \cup (IF ev.how = "done" THEN {}
                           ELSE IF shut THEN {"C07.shutdown_hangs"}
                           ELSE {"C03.lost", "C07.wait_hangs"})
       /\ UNCHANGED <<sub, subd, okd, cnt, fsi, run, cur, musts, wret, shut, last, idle,
                      lastIdle, fe, judge>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})

Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Sub \/ SubD \/ Fs \/ Fe \/ Ws \/ We \/ Wc \/ Shut \/ End)
        /\ now' = ev.t
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<tid, l, subd, sub, okd, cnt, fsi, run, cur, musts, wret, shut,
                         last, idle, lastIdle, fe, judge, now, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
