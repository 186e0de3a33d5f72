----------------------------- MODULE FormsCache -----------------------------
(***************************************************************************)
(* threadsafe_async_cache with and without the option `cache` (C15): which *)
(* calls of a history compute, if the given store really is what is used.  *)
(*                                                                         *)
(* Stores: none (option omitted), dict, falsy (a mapping which is never    *)
(* true), fifo1, fifo2 (keep the last one or two keys stored), full (a     *)
(* dictionary with unrelated entries).                                     *)
(* Steps: <<"call", x>>, <<"del", x>>, <<"clear", 0>>, <<"other", x>>: a   *)
(* call of another function given to the same configured decorator.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Args, Depth, Stores

VARIABLES store, kept, kept2, hist
vars == <<store, kept, kept2, hist>>
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Without(x, q) == SelectSeq(q, LAMBDA y : y # x)
Cap(s) == CASE s = "fifo1" -> 1 [] s = "fifo2" -> 2 [] OTHER -> 100
Put(x, q, s) == IF Len(q) = Cap(s) THEN Append(Tail(q), x) ELSE Append(q, x)

Init == /\ store \in Stores /\ kept = <<>> /\ kept2 = <<>> /\ hist = <<>>

Call(x) == /\ hist' = Append(hist, [op |-> "call", x |-> x,
                                    runs |-> ~In(x, kept)])
           /\ kept' = IF In(x, kept) THEN kept ELSE Put(x, kept, store)
           /\ UNCHANGED kept2
\* a function of its own: only where the stores aren't shared by request
Other(x) == /\ store = "none"
            /\ hist' = Append(hist, [op |-> "other", x |-> x,
                                     runs |-> ~In(x, kept2)])
            /\ kept2' = IF In(x, kept2) THEN kept2 ELSE Append(kept2, x)
            /\ UNCHANGED kept
Del(x) == /\ store # "none" /\ In(x, kept)
          /\ hist' = Append(hist, [op |-> "del", x |-> x, runs |-> FALSE])
          /\ kept' = Without(x, kept)
          /\ UNCHANGED kept2
Clear == /\ store # "none" /\ kept # <<>>
         /\ hist' = Append(hist, [op |-> "clear", x |-> 0, runs |-> FALSE])
         /\ kept' = <<>>
         /\ UNCHANGED kept2
Next == /\ Len(hist) < Depth
        /\ (\E x \in Args : Call(x) \/ Other(x) \/ Del(x)) \/ Clear
        /\ UNCHANGED store
        /\ Len(hist') = Depth =>
             PrintT(ToJson([store |-> store, hist |-> hist',
                            kept |-> Len(kept')]))
Spec == Init /\ [][Next]_vars
Bounded == Len(kept) <= Cap(store)
=============================================================================
