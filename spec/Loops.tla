------------------------------- MODULE Loops -------------------------------
(***************************************************************************)
(* The registry of async_background_batcher (C15): a batcher for every     *)
(* event loop.  Loops come and go; the address of a loop which is gone may *)
(* be used for a new one.  Every thread runs loops of its own.             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS
  Threads, Addrs, MaxLoops,
  Weak,     \* entries of loops which are gone are removed
  PerLoop   \* batchers are looked up by loop

VARIABLES
  addr,      \* loop -> its address, 0: gone
  run,       \* thread -> loop it runs or 0
  pc, mine,  \* thread: step of a call, batcher found
  reg,       \* registry: address -> batcher, 0: none
  owner,     \* batcher -> the loop it was created on
  served,    \* <<batcher, loop>> calls given to a batcher
  n
vars == <<addr, run, pc, mine, reg, owner, served, n>>

Init == /\ addr = <<>> /\ run = [t \in Threads |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> 0]
        /\ reg = [a \in Addrs |-> 0] /\ owner = <<>> /\ served = {} /\ n = 0

Alive(l) == addr[l] # 0
Key(l) == IF PerLoop THEN addr[l] ELSE CHOOSE a \in Addrs : TRUE
New(t) == /\ run[t] = 0 /\ Len(addr) < MaxLoops
          /\ \E a \in Addrs : /\ ~\E l \in 1..Len(addr) : addr[l] = a
                              /\ addr' = Append(addr, a)
          /\ run' = [run EXCEPT ![t] = Len(addr) + 1]
          /\ UNCHANGED <<pc, mine, reg, owner, served, n>>
Old(t) == /\ run[t] = 0      \* a loop may be run again
          /\ \E l \in 1..Len(addr) : /\ Alive(l)
                                     /\ \A u \in Threads : run[u] # l
                                     /\ run' = [run EXCEPT ![t] = l]
          /\ UNCHANGED <<addr, pc, mine, reg, owner, served, n>>
Leave(t) == /\ run[t] # 0 /\ pc[t] = "idle"
            /\ run' = [run EXCEPT ![t] = 0]
            /\ UNCHANGED <<addr, pc, mine, reg, owner, served, n>>
Gone(l) == /\ l \in 1..Len(addr) /\ Alive(l) /\ \A t \in Threads : run[t] # l
           /\ addr' = [addr EXCEPT ![l] = 0]
           /\ reg' = IF Weak THEN [reg EXCEPT ![addr[l]] = 0] ELSE reg
           /\ UNCHANGED <<run, pc, mine, owner, served, n>>
Look(t) == /\ pc[t] = "idle" /\ run[t] # 0 /\ n < 4
           /\ mine' = [mine EXCEPT ![t] = reg[Key(run[t])]]
           /\ pc' = [pc EXCEPT ![t] = IF reg[Key(run[t])] = 0 THEN "make"
                                      ELSE "use"]
           /\ n' = n + 1
           /\ UNCHANGED <<addr, run, reg, owner, served>>
Make(t) == /\ pc[t] = "make"
           /\ owner' = Append(owner, run[t])
           /\ reg' = [reg EXCEPT ![Key(run[t])] = Len(owner) + 1]
           /\ mine' = [mine EXCEPT ![t] = Len(owner) + 1]
           /\ pc' = [pc EXCEPT ![t] = "use"]
           /\ UNCHANGED <<addr, run, served, n>>
Use(t) == /\ pc[t] = "use"
          /\ served' = served \cup {<<mine[t], run[t]>>}
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<addr, run, mine, reg, owner, n>>
Next == \/ \E t \in Threads : New(t) \/ Old(t) \/ Leave(t) \/ Look(t)
                              \/ Make(t) \/ Use(t)
        \/ \E l \in 1..MaxLoops : Gone(l)
Spec == Init /\ [][Next]_vars

\* every call is served by a batcher of its own loop
Own == \A s \in served : owner[s[1]] = s[2]
\* and there's only one of them
One == \A s, u \in served : s[2] = u[2] => s[1] = u[1]
=============================================================================
