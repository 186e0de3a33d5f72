----------------------------- MODULE CrossTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded executions of ensure_aw, run_aw_threadsafe and *)
(* loop_in_thread satisfy their contract (C17).                            *)
(*                                                                         *)
(* call c / ret c how u       a call is made / returns                     *)
(* eval c lp / evald c how u  its awaitable starts on loop lp / is over    *)
(* busy c / freed c          its awaitable is keeping its loop busy         *)
(* up lp / down lp            somebody starts / stops running loop lp      *)
(* badrun lp why              ... tries to, but it is running or closed    *)
(* lit lp / litd lp / litx lp loop_in_thread is called / returns / raises   *)
(* stop lp / stopd lp ok      its stop function likewise (ok: no error)    *)
(* closed lp                                                               *)
(* end how                    nothing will happen any more                 *)
(*                                                                         *)
(* how: val | exc | canc.  Static: calls[c] = [tgt, must], must: has to    *)
(* complete unless the target is stopped meanwhile.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, now, called, retd, shut, evs, out, up, closed, lits,
          stops, halted, busy, dropped, bad, done
vars == <<tid, l, now, called, retd, shut, evs, out, up, closed, lits, stops,
          halted, busy, dropped, bad, done>>
T == Traces[tid]
ev == T.ev[l]
Empty == [x \in {} |-> 0]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ now = 0
        /\ called = {} /\ retd = {}
        /\ shut = {}          \* calls made when the target was closed
        /\ evs = {}           \* awaitables being or having been evaluated
        /\ out = Empty        \* call -> outcome of its awaitable
        /\ up = {} /\ closed = {}
        /\ lits = {}          \* loop_in_thread calls which have not returned
        /\ stops = {}         \* stop calls which have not returned
        /\ halted = {}        \* loops nobody runs or which were, since
                              \* their stop function was called, let go
        /\ busy = {}          \* awaitables which keep their loop busy
        /\ dropped = {}
        /\ bad = {} /\ done = FALSE

Out(lp) == {c \in called \ retd : T.calls[c].tgt = lp}
Tick == IF ev.t > now /\ busy = {} /\ \E c \in called \ (retd \cup dropped) :
                            c \in DOMAIN out
          THEN {"late"} ELSE {}
Bad(s) == bad' = bad \cup Tick \cup s

Call == /\ ev.e = "call"
        /\ called' = called \cup {ev.c}
        /\ shut' = IF T.calls[ev.c].tgt \in closed THEN shut \cup {ev.c}
                   ELSE shut
        /\ dropped' = IF T.calls[ev.c].tgt \in stops
                        THEN dropped \cup {ev.c} ELSE dropped
        /\ Bad({})
        /\ UNCHANGED <<halted, busy, retd, evs, out, up, closed, lits, stops>>
Ret == /\ ev.e = "ret"
       /\ retd' = retd \cup {ev.c}
       /\ Bad(IF ev.c \in shut
                THEN IF ev.how = "rt" THEN {} ELSE {"closed"}
              ELSE IF ev.c \in DOMAIN out /\ out[ev.c] = <<ev.how, ev.u>>
                THEN {} 
              \* the target was stopped or closed in between
              ELSE IF T.calls[ev.c].tgt \in closed THEN {}
              ELSE {"outcome"})
       /\ UNCHANGED <<halted, busy, called, shut, evs, out, up, closed, lits, stops,
                      dropped>>
Eval == /\ ev.e = "eval"
        /\ evs' = evs \cup {ev.c}
        /\ Bad((IF ev.lp = T.calls[ev.c].tgt THEN {} ELSE {"wrong_loop"})
               \cup (IF ev.c \in evs THEN {"twice"} ELSE {})
               \cup (IF ev.lp \in up THEN {} ELSE {"not_up"}))
        /\ UNCHANGED <<halted, busy, called, retd, shut, out, up, closed, lits, stops,
                       dropped>>
Evald == /\ ev.e = "evald"
         /\ out' = (ev.c :> <<ev.how, ev.u>>) @@ out
         /\ Bad({})
         /\ UNCHANGED <<halted, busy, called, retd, shut, evs, up, closed, lits, stops,
                        dropped>>
Up == /\ ev.e = "up"
      /\ up' = up \cup {ev.loop}
      /\ Bad(IF ev.loop \in up THEN {"two_runners"} ELSE {})
      /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, closed, lits, stops,
                     dropped>>
Down == /\ ev.e = "down"
        /\ up' = up \ {ev.loop}
        /\ halted' = halted \cup {ev.loop}
        /\ Bad({})
        /\ UNCHANGED <<busy, called, retd, shut, evs, out, closed, lits, stops,
                       dropped>>
BadRun == /\ ev.e = "badrun"
          /\ Bad(IF ev.why = "running" THEN {"two_runners"} ELSE {})
          /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed, lits,
                         stops, dropped>>
Closed == /\ ev.e = "closed"
          /\ closed' = closed \cup {ev.loop}
          /\ dropped' = dropped \cup Out(ev.loop)
          /\ Bad({})
          /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, lits, stops>>
Lit == /\ ev.e = "lit"
       /\ lits' = lits \cup {ev.lp}
       /\ Bad({})
       /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed, stops,
                      dropped>>
Busy == /\ ev.e \in {"busy", "freed"}
        /\ busy' = IF ev.e = "busy" THEN busy \cup {ev.c} ELSE busy \ {ev.c}
        /\ Bad({})
        /\ UNCHANGED <<called, retd, shut, evs, out, up, closed, lits, stops,
                       halted, dropped>>
LitD == /\ ev.e = "litd"
        /\ lits' = lits \ {ev.lp}
        /\ Bad(IF ev.lp \in up THEN {} ELSE {"not_running"})
        /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed, stops,
                       dropped>>
LitX == /\ ev.e = "litx"
        /\ lits' = lits \ {ev.lp}
        /\ Bad(IF ev.lp \in closed THEN {} ELSE {"lit_raised"})
        /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed,
                       stops, dropped>>
Stop == /\ ev.e = "stop"
        /\ stops' = stops \cup {ev.lp}
        /\ halted' = IF ev.lp \in up THEN halted \ {ev.lp}
                     ELSE halted \cup {ev.lp}
        /\ dropped' = dropped \cup Out(ev.lp)
        /\ Bad({})
        /\ UNCHANGED <<busy, called, retd, shut, evs, out, up, closed, lits>>
StopD == /\ ev.e = "stopd"
         /\ stops' = stops \ {ev.lp}
         \* it may have stopped and be run again already, but then on
         \* behalf of a call which needs it (and which the stop overtook)
         /\ Bad((IF ev.lp \in up /\ (\/ ev.lp \notin halted
                                   \/ ~\E c \in dropped :
                                          T.calls[c].tgt = ev.lp)
                  THEN {"not_stopped"} ELSE {})
                \cup (IF ev.ok THEN {} ELSE {"stop_raised"}))
         /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed, lits,
                        dropped>>
End == /\ ev.e = "end"
       /\ Bad((IF \E c \in called \ (retd \cup dropped) : T.calls[c].must
                 THEN {"hangs"} ELSE {})
              \cup (IF lits # {} THEN {"hangs"} ELSE {})
              \cup (IF stops # {} THEN {"stop_hangs"} ELSE {})
              \cup (IF called # DOMAIN T.calls /\ dropped = {}
                      THEN {"hangs"} ELSE {}))
       /\ UNCHANGED <<halted, busy, called, retd, shut, evs, out, up, closed, lits, stops,
                      dropped>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})
Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Call \/ Ret \/ Eval \/ Evald \/ Up \/ Down \/ BadRun \/ Closed
            \/ Lit \/ LitD \/ LitX \/ Busy \/ Stop \/ StopD \/ End)
        /\ now' = ev.t
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<halted, busy, tid, l, now, called, retd, shut, evs, out, up,
                         closed, lits, stops, dropped, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
