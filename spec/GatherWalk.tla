----------------------------- MODULE GatherWalk -----------------------------
(* Random walks of Gather with many awaitables.                            *)
EXTENDS Gather

VARIABLE n
wvars == <<vars, n>>

Sizes == IF IOEnv.SIZE = "big" THEN {150, 300} ELSE {6, 9, 17, 33, 70}

WInit == /\ n \in Sizes
         /\ plan = <<>> /\ order = <<>> /\ phase = "plan" /\ yields = <<>>
Grow(o) == /\ phase = "plan" /\ Len(plan) < n
           /\ plan' = Append(plan, o)
           /\ UNCHANGED <<order, phase, yields, n>>
Planned == /\ phase = "plan" /\ Len(plan) = n
           /\ phase' = "run"
           /\ UNCHANGED <<plan, order, yields, n>>
WNext == (\E o \in Outcome : Grow(o)) \/ Planned
         \/ (phase # "plan" /\ Next /\ UNCHANGED n)
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
