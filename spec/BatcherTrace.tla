---------------------------- MODULE BatcherTrace ----------------------------
(***************************************************************************)
(* Decides whether recorded executions of a batcher are behaviours of      *)
(* BatcherObs.  Where a call may either join a request or create one, TLC  *)
(* tries what the rest of the execution leaves open.                       *)
(*                                                                         *)
(* arr c         call c is made                                            *)
(* bs b xs       batch b starts with xs = <<[c, k]...>>                    *)
(* y b k u how   it yields: how = val | exc | any (not deliverable as is)  *)
(* rs b u how    it raises                                                 *)
(* be b          it has ended                                              *)
(* ret c how u   call c returns: val | exc | err (untagged) | canc         *)
(* can c         call c is cancelled                                       *)
(* max n         max_batch_size is set to n                                *)
(* end           nothing will happen any more                              *)
(*                                                                         *)
(* Static: key[c], size, conc, bto, ret, canc: some call is cancelled.     *)
(***************************************************************************)
EXTENDS BatcherObs, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, now, at, req, cur, queue, n, prev, started, ms, holds,
          spoiled, running, out, t0, answered, t1, yielded, retd, cancelled,
          lims, bad, done
vars == <<tid, l, now, at, req, cur, queue, n, prev, started, ms, holds,
          spoiled, running, out, t0, answered, t1, yielded, retd, cancelled,
          lims, bad, done>>

T == Traces[tid]
ev == T.ev[l]
Empty == [x \in {} |-> 0]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ now = 0
        /\ at = Empty          \* call -> arrival
        /\ req = Empty         \* call -> request
        /\ cur = Empty         \* key -> its latest request
        /\ queue = <<>>        \* requests in order of arrival
        /\ n = 0               \* how many of them have been started
        /\ prev = 0            \* size of the batch started last
        /\ started = {}
        /\ ms = Empty          \* batch -> its requests without an outcome
        /\ holds = {}          \* batches which may hold a slot
        /\ spoiled = {} /\ running = {}
        /\ out = Empty         \* request -> allowed outcomes
        /\ t0 = Empty          \* request -> instant of its outcome
        /\ answered = {} /\ t1 = Empty   \* when answered or cancelled
        /\ yielded = {} /\ retd = {} /\ cancelled = {}
        /\ lims = <<[t |-> 0, n |-> Traces[tid].size]>>
        /\ bad = {} /\ done = FALSE

Calls == DOMAIN at
Max2(a, b) == IF a > b THEN a ELSE b
Of(o) == {c \in DOMAIN req : req[c] = o}
Pending(o) == o \notin DOMAIN out
\* limits in effect at some moment since t
LimsSince(t) == {lims[i].n : i \in {j \in 1..Len(lims) :
                   j = Len(lims) \/ lims[j + 1].t >= t}}
Hi(t) == CHOOSE x \in LimsSince(t) : \A y \in LimsSince(t) : y <= x
Lo(t) == CHOOSE x \in LimsSince(t) : \A y \in LimsSince(t) : y >= x

Tick == IF ev.t > now /\ ~T.canc /\ n < Len(queue)
           /\ Cardinality(holds) < T.conc
           /\ ev.t > Deadline(queue, n, at, T.bto, Hi(at[queue[n + 1]]))
          THEN {"late"} ELSE {}

\* What becomes of call c tells which it was: its own request is in a batch,
\* or it is cancelled before that.
Batched(c) == \E i \in l..Len(T.ev) : T.ev[i].e = "bs" /\
                \E j \in 1..Len(T.ev[i].xs) : T.ev[i].xs[j].c = c
Gone(c) == \E i \in l..Len(T.ev) : T.ev[i].e = "can" /\ T.ev[i].c = c

Arr == /\ ev.e = "arr"
       /\ at' = (ev.c :> ev.t) @@ at
       /\ LET k == T.key[ev.c]
              has == k \in DOMAIN cur
              o == cur[k]
              dead == Of(o) \subseteq cancelled
              ans == o \in answered
              t9 == IF ~ans THEN 0 ELSE IF Pending(o) THEN t1[o]
                    ELSE Max2(t0[o], t1[o])
              join == has /\ IF o \in cancelled  \* not answered, but over
                     THEN IF Pending(o) THEN TRUE
                          ELSE ev.t <= Max2(t0[o], t1[o]) + T.ret
                     ELSE MayJoin(Pending(o), ans, ev.t, t9, T.ret)
              create == IF has THEN MayCreate(Pending(o), dead, ev.t,
                                   IF Pending(o) THEN 0 ELSE t0[o], T.ret)
                        ELSE TRUE
          IN \/ /\ join /\ (Batched(ev.c) => ~create)
                /\ req' = (ev.c :> o) @@ req
                /\ UNCHANGED <<cur, queue>>
             \/ /\ create /\ (Batched(ev.c) \/ Gone(ev.c) \/ ~join)
                /\ req' = (ev.c :> ev.c) @@ req
                /\ cur' = (k :> ev.c) @@ cur
                /\ queue' = Append(queue, ev.c)
       /\ bad' = bad \cup Tick
       /\ UNCHANGED <<n, prev, started, ms, holds, spoiled, running, out, t0,
                      answered, t1, yielded, retd, cancelled, lims>>

Ids(xs) == [i \in 1..Len(xs) |-> xs[i].c]
Keys(xs) == {xs[i].k : i \in 1..Len(xs)}
SetOf(q) == {q[i] : i \in 1..Len(q)}

Bs == /\ ev.e = "bs"
      /\ LET xs == Ids(ev.xs)
             first == IF xs = <<>> \/ xs[1] \notin Calls THEN ev.t
                      ELSE at[xs[1]]
         IN /\ bad' = bad \cup Tick
                 \cup BatchClauses(xs, Cardinality(running), T.conc,
                                   Hi(first))
                 \cup (IF \E i \in 1..Len(xs) :
                            \/ xs[i] \notin Calls
                            \/ T.key[xs[i]] # ev.xs[i].k
                         THEN {"badkey"} ELSE {})
                 \cup (IF T.canc THEN {}
                       ELSE OrderClauses(xs, queue, n)
                         \cup ShareClauses(queue, n, at, T.bto, prev,
                                 Lo(IF n = 0 THEN 0
                                    ELSE at[queue[Max2(1, n + 1 -
                                            Max2(prev, 1))]]))
                         \cup (IF Cardinality(Keys(ev.xs)) # Len(xs)
                                 THEN {"dup"} ELSE {}))
                 \cup (IF SetOf(xs) \cap started # {}
                          \/ \E c \in SetOf(xs) :
                               c \in DOMAIN req /\ req[c] # c
                         THEN {"recompute"} ELSE {})
            /\ n' = IF n + Len(xs) <= Len(queue) THEN n + Len(xs)
                    ELSE Len(queue)
            /\ prev' = Len(xs)
            /\ started' = started \cup SetOf(xs)
            /\ ms' = (ev.b :> {c \in SetOf(xs) : c \in DOMAIN req}) @@ ms
      /\ holds' = holds \cup {ev.b} /\ running' = running \cup {ev.b}
      /\ UNCHANGED <<at, req, cur, queue, spoiled, out, t0, answered, t1,
                     yielded, retd, cancelled, lims>>

\* the requests rs get the outcome x
Give(rs, x) ==
  /\ out' = [o \in rs |-> {x}] @@ out
  /\ t0' = [o \in rs |-> ev.t] @@ t0

Y == /\ ev.e = "y"
     /\ yielded' = yielded \cup {ev.u}
     /\ LET hit == {o \in ms[ev.b] : T.key[o] = ev.k} IN
        \* further outcomes of a batch gone wrong: or the caller has it
        IF ev.b \in spoiled
          THEN /\ out' = [o \in hit |-> out[o] \cup {Allowed(ev.how, ev.u)}]
                         @@ out
               /\ ms' = [ms EXCEPT ![ev.b] = @ \ hit]
               /\ UNCHANGED <<t0, spoiled, running>>
        ELSE IF hit # {}
          THEN /\ Give(hit, Allowed(ev.how, ev.u))
               /\ ms' = [ms EXCEPT ![ev.b] = @ \ hit]
               /\ UNCHANGED <<spoiled, running>>
        \* a key which isn't awaited: from here anything but silence
        ELSE /\ Give(ms[ev.b], Err)
             /\ spoiled' = spoiled \cup {ev.b}
             /\ running' = running \ {ev.b}
             /\ UNCHANGED ms
     /\ bad' = bad \cup Tick
     /\ UNCHANGED <<at, req, cur, queue, n, prev, started, holds, answered,
                    t1, retd, cancelled, lims>>

Rs == /\ ev.e = "rs"
      /\ IF ev.b \in spoiled THEN UNCHANGED <<out, t0>>
         ELSE Give(ms[ev.b], Allowed(ev.how, ev.u))
      /\ ms' = [ms EXCEPT ![ev.b] = {}]
      /\ bad' = bad \cup Tick
      /\ UNCHANGED <<at, req, cur, queue, n, prev, started, holds, spoiled,
                     running, answered, t1, yielded, retd, cancelled, lims>>

Be == /\ ev.e = "be"
      /\ IF ev.b \in spoiled THEN UNCHANGED <<out, t0>>
         ELSE Give(ms[ev.b], Err)
      /\ ms' = [ms EXCEPT ![ev.b] = {}]
      /\ holds' = holds \ {ev.b} /\ running' = running \ {ev.b}
      /\ bad' = bad \cup Tick
      /\ UNCHANGED <<at, req, cur, queue, n, prev, started, spoiled,
                     answered, t1, yielded, retd, cancelled, lims>>

Answer(o) == answered' = answered \cup {o} /\ t1' = (o :> ev.t) @@ t1

Ret == /\ ev.e = "ret"
       /\ LET o == req[ev.c] IN
          /\ bad' = bad \cup Tick \cup
               (IF ev.c \in cancelled THEN {}
                ELSE IF o \in DOMAIN out
                        /\ OutcomeOk(out[o], ev.how, ev.u, yielded) THEN {}
                ELSE IF ev.u # 0 /\ \E p \in DOMAIN out :
                          /\ p # o /\ T.key[p] = T.key[ev.c]
                          /\ <<ev.how, ev.u>> \in out[p]
                     THEN {"stale"} ELSE {"outcome"})
          /\ IF ev.c \notin cancelled /\ o = ev.c
               THEN Answer(o) ELSE UNCHANGED <<answered, t1>>
       /\ retd' = retd \cup {ev.c}
       /\ UNCHANGED <<at, req, cur, queue, n, prev, started, ms, holds,
                      spoiled, running, out, t0, yielded, cancelled, lims>>

Can == /\ ev.e = "can"
       /\ cancelled' = cancelled \cup {ev.c}
       /\ t1' = (ev.c :> ev.t) @@ t1
       /\ bad' = bad \cup Tick
       /\ UNCHANGED <<at, req, cur, queue, n, prev, started, ms, holds,
                      spoiled, running, out, t0, answered, yielded, retd,
                      lims>>

Max == /\ ev.e = "max"
       /\ lims' = Append(lims, [t |-> ev.t, n |-> ev.n])
       /\ bad' = bad \cup Tick
       /\ UNCHANGED <<at, req, cur, queue, n, prev, started, ms, holds,
                      spoiled, running, out, t0, answered, t1, yielded, retd,
                      cancelled>>

End == /\ ev.e = "end"
       /\ bad' = bad \cup Tick \cup
            (IF Calls \ (retd \cup cancelled) # {} THEN {"hangs"} ELSE {})
       /\ UNCHANGED <<at, req, cur, queue, n, prev, started, ms, holds,
                      spoiled, running, out, t0, answered, t1, yielded, retd,
                      cancelled, lims>>

RECURSIVE Join(_)
Join(s) == IF s = {} THEN ""
           ELSE LET x == CHOOSE y \in s : TRUE IN
                IF s = {x} THEN x ELSE x \o "," \o Join(s \ {x})

Step == /\ ~done /\ l <= Len(T.ev)
        /\ (Arr \/ Bs \/ Y \/ Rs \/ Be \/ Ret \/ Can \/ Max \/ End)
        /\ now' = ev.t
        /\ l' = l + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ l > Len(T.ev)
          /\ done' = TRUE
          /\ PrintT(<<"V", tid, Join(bad)>>)
          /\ UNCHANGED <<tid, l, now, at, req, cur, queue, n, prev, started,
                         ms, holds, spoiled, running, out, t0, answered, t1,
                         yielded, retd, cancelled, lims, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
