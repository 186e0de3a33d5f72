------------------------------- MODULE Gather -------------------------------
(***************************************************************************)
(* gather_excs / raise_first_exc (C20): awaitables run concurrently, end in*)
(* some order with some outcome; when all have ended the exceptions raised *)
(* are reported, filtered by class, in the order of the awaitables.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.N)

\* outcomes; "ret" returns an exception object, "E2" is a subclass of "E1"
Outcome == {"ok", "ret", "E1", "E2", "E3", "B", "cancel"}
Filters == {"BaseException", "Exception", "E1", "E2", "E3", "B",
            "CancelledError"}
Super(o) == CASE o = "E1" -> {"E1", "Exception", "BaseException"}
              [] o = "E2" -> {"E2", "E1", "Exception", "BaseException"}
              [] o = "E3" -> {"E3", "Exception", "BaseException"}
              [] o = "B"  -> {"B", "BaseException"}
              [] o = "cancel" -> {"CancelledError", "BaseException"}
              [] OTHER -> {}

VARIABLES plan,     \* outcome of each awaitable
          order,    \* positions in the order in which they finished
          phase,    \* "run" | "report" | "end"
          yields    \* what has been reported: positions
vars == <<plan, order, phase, yields>>

SeqSet(q) == {q[i] : i \in 1..Len(q)}

Init == /\ plan \in UNION {[1..k -> Outcome] : k \in 0..N}
        /\ order = <<>> /\ phase = "run" /\ yields = <<>>

Finish(i) ==
  /\ phase = "run" /\ i \notin SeqSet(order)
  /\ order' = Append(order, i)
  /\ UNCHANGED <<plan, phase, yields>>

AllDone ==
  /\ phase = "run" /\ SeqSet(order) = 1..Len(plan)
  /\ phase' = "report"
  /\ UNCHANGED <<plan, order, yields>>

Reported == IF yields = <<>> THEN 0 ELSE yields[Len(yields)]
\* the exceptions are visited in input order, whatever the filter
Report ==
  /\ phase = "report"
  /\ LET c == {i \in (Reported + 1)..Len(plan) : Super(plan[i]) # {}} IN
     IF c = {} THEN phase' = "end" /\ UNCHANGED yields
     ELSE /\ yields' = Append(yields, CHOOSE i \in c : \A j \in c : i <= j)
          /\ UNCHANGED phase
  /\ UNCHANGED <<plan, order>>

Next == (\E i \in 1..Len(plan) : Finish(i)) \/ AllDone \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Filter(f) == SelectSeq(yields, LAMBDA i : f \in Super(plan[i]))

Case == [plan |-> plan, order |-> order,
         exp |-> [f \in Filters |-> Filter(f)]]
Emit == phase = "end" => PrintT(ToJson(Case))

NotEarly == yields # <<>> => SeqSet(order) = 1..Len(plan)
InOrder == \A i, j \in 1..Len(yields) : i < j => yields[i] < yields[j]
Exactly == phase = "end" =>
             SeqSet(yields) = {i \in 1..Len(plan) : Super(plan[i]) # {}}
Ends == <>(phase = "end")
=============================================================================
