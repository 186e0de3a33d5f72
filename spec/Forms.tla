------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The configurations of async_background_batcher (C15): every option      *)
(* omitted or one of several values, in all combinations; the options in   *)
(* effect; and for each of them a probe: calls which make every option     *)
(* visible.  For omitted options (0) the defaults of the function count.   *)
(*                                                                         *)
(* A call is <<at, name, dur>>: made at an instant (ms), its batch takes   *)
(* dur.  TLC prints every configuration with its probe and checks that the *)
(* probe tells any two values of an option apart (Tells).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Concs, Btos, Rets, DSize, DConc, DBto, DRet

VARIABLES cfg, done
Configs == [size : {0} \cup Sizes, conc : {0} \cup Concs,
            bto : {0} \cup Btos, ret : {0} \cup Rets]
Or(x, d) == IF x = 0 THEN d ELSE x
Eff(c) == [size |-> Or(c.size, DSize), conc |-> Or(c.conc, DConc),
           bto |-> Or(c.bto, DBto), ret |-> Or(c.ret, DRet)]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Pct(p, x) == (p * x) \div 100
Burst == 8
\* phases start when everything before them is over
T1 == 1000
T2(e) == T1 + 6 * e.bto + e.ret
T3(e) == T2(e) + 8 * e.bto + e.ret
T4(e) == T3(e) + 10 * e.bto + e.ret
T5(e) == T4(e) + (e.conc + 3) * (e.conc + 3) * 6 * e.bto + 100
\* the reused key: asked for, answered at Ans, asked for again
Ans(e) == T5(e) + (IF e.size = 1 THEN 0 ELSE e.bto) + 5
Probe(e) ==
     << <<T1, "single", 5>> >>
  \o << <<T2(e), "close1", 5>>, <<T2(e) + Pct(90, e.bto), "close2", 5>>,
        <<T2(e) + Pct(200, e.bto) + 3, "apart", 5>> >>
  \o [i \in 1..Min(e.size + 1, Burst) |->
        <<T3(e), "burst" \o ToString(i), 5>>]
  \o [i \in 1..(e.conc + 2) |->
        <<T4(e) + i * Pct(140, e.bto), "long" \o ToString(i),
          (e.conc + 3) * 2 * e.bto>>]
  \o << <<T5(e), "key", 5>>,
        <<Ans(e) + Max(3, Pct(90, e.ret)), "key", 5>>,
        <<Ans(e) + Pct(120, e.ret) + e.bto + 50, "key", 5>> >>

(* What an observer of the probe sees under the options e: how many calls  *)
(* share a batch in each phase, when the lone call is taken up, how many   *)
(* batches run at once, how often the key is computed.                     *)
Sees(p, e) ==
  LET at(n) == CHOOSE i \in 1..Len(p) : p[i][2] = n IN
  [ single |-> IF e.size = 1 THEN 0 ELSE e.bto,
    close  |-> /\ e.size > 1
               /\ p[at("close2")][1] - p[at("close1")][1] < e.bto,
    burst  |-> Min(e.size, Cardinality({i \in 1..Len(p) :
                   \E j \in 1..Burst : p[i][2] = "burst" \o ToString(j)})),
    long   |-> Min(e.conc, Cardinality({i \in 1..Len(p) :
                   \E j \in 1..20 : p[i][2] = "long" \o ToString(j)})),
    again  |-> {i \in 1..Len(p) : /\ p[i][2] = "key" /\ i # at("key")
                  /\ p[i][1] <= p[at("key")][1] + 5 + e.ret
                       + (IF e.size = 1 THEN 0 ELSE e.bto)} ]
Values == [size |-> Sizes \cup {DSize}, conc |-> Concs \cup {DConc},
           bto |-> Btos \cup {DBto}, ret |-> Rets \cup {DRet}]
Tells == \A c \in Configs : LET e == Eff(c) p == Probe(e) IN
           \A o \in {"size", "conc", "bto", "ret"} : \A v \in Values[o] :
             LET g == [e EXCEPT ![o] = v] IN
             \/ g = e
             \/ o = "bto" /\ e.size = 1    \* nothing ever waits
             \/ o = "size" /\ Min(e.size, Burst) = Min(v, Burst)
             \/ Sees(p, g) # Sees(p, e)
ASSUME Tells

Init == cfg \in Configs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cfg
        /\ PrintT(ToJson([cfg |-> cfg, eff |-> Eff(cfg),
                          calls |-> Probe(Eff(cfg))]))
Spec == Init /\ [][Next]_<<cfg, done>>
=============================================================================
