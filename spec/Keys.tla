-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Which calls of a threadsafe_async_cache function share an entry (C14).  *)
(*                                                                         *)
(* An argument is represented by the class of the values equal to it; the  *)
(* replay picks different members of a class.  A call is a sequence of     *)
(* classes plus a partial function name -> class; the key is exactly that. *)
(* The store is the mapping (bounded by Cap if Cap > 0, oldest out first); *)
(* values are numbered by the invocation which computed them.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Depth  == atoi(IOEnv.DEPTH)
Small  == IOEnv.UNIVERSE = "small"
Full   == IOEnv.UNIVERSE = "full"     \* for random walks and pairs of all
Walk   == Full /\ Depth > 2
Caps   == IF Small THEN {0, 1, 2} ELSE IF Walk THEN {0, 3, 20} ELSE {0}

Cls   == {1, 2}
Names == IF Full THEN {"a", "b", "c"} ELSE {"a", "b"}
ArgSeqs == IF Small THEN {<<>>, <<1>>, <<1, 2>>, <<2, 1>>}
           ELSE UNION {[1..k -> Cls] : k \in 0..(IF Full THEN 3 ELSE 2)}
KwSets == IF Small THEN {{}, {<<"a", 1>>}}
          ELSE {k \in SUBSET (Names \X Cls) :
                  \A p, q \in k : p[1] = q[1] => p = q}
Calls == IF Small
         THEN {<<<<>>, {}>>, <<<<1>>, {}>>, <<<<>>, {<<"a", 1>>}>>,
               <<<<1, 2>>, {}>>, <<<<2, 1>>, {}>>}
         ELSE ArgSeqs \X KwSets

VARIABLES cap, given,   \* bound; was a mapping supplied by the caller?
          store,        \* sequence of <<key, invocation>>, oldest first
          count,        \* invocations so far
          madefor,      \* invocation -> key
          hist
vars == <<cap, given, store, count, madefor, hist>>

Init == /\ given \in BOOLEAN
        /\ cap \in Caps /\ (~given => cap = 0)
        /\ store = <<>> /\ count = 0 /\ madefor = <<>> /\ hist = <<>>

Key(c) == c
Has(k) == \E i \in 1..Len(store) : store[i][1] = k
Pos(k) == CHOOSE i \in 1..Len(store) : store[i][1] = k
Val(k) == store[Pos(k)][2]
Without(k) == SelectSeq(store, LAMBDA e : e[1] # k)
Bound(q) == IF cap > 0 /\ Len(q) > cap THEN Tail(q) ELSE q
Log(o) == hist' = Append(hist, o)
JKey(k) == [args |-> k[1], kw |-> k[2]]

Hit(c) ==
  /\ Has(Key(c))
  /\ Log([op |-> "call", c |-> JKey(c), ret |-> Val(Key(c)), n |-> count])
  /\ UNCHANGED <<cap, given, store, count, madefor>>
Miss(c) ==
  /\ ~Has(Key(c))
  /\ count' = count + 1
  /\ madefor' = Append(madefor, Key(c))
  /\ store' = Bound(Append(store, <<Key(c), count + 1>>))
  /\ Log([op |-> "call", c |-> JKey(c), ret |-> count + 1, n |-> count + 1])
  /\ UNCHANGED <<cap, given>>
\* the wrapped function raises if it is invoked
Fail(c) ==
  /\ IF Has(Key(c))
       THEN /\ UNCHANGED <<count, madefor>>
            /\ Log([op |-> "fail", c |-> JKey(c), ret |-> Val(Key(c)),
                    n |-> count])
       ELSE /\ count' = count + 1
            /\ madefor' = Append(madefor, Key(c))
            /\ Log([op |-> "fail", c |-> JKey(c), ret |-> 0, n |-> count + 1])
  /\ UNCHANGED <<cap, given, store>>
Evict(c) ==
  /\ given /\ Has(Key(c))
  /\ store' = Without(Key(c))
  /\ Log([op |-> "evict", c |-> JKey(c), ret |-> Val(Key(c)), n |-> count])
  /\ UNCHANGED <<cap, given, count, madefor>>
Clear ==
  /\ given /\ store # <<>>
  /\ store' = <<>>
  /\ Log([op |-> "clear", ret |-> 0, n |-> count])
  /\ UNCHANGED <<cap, given, count, madefor>>
\* the function is wrapped again: only a supplied mapping persists
Rewrap ==
  /\ Small \/ Walk
  /\ hist # <<>>
  /\ store' = IF given THEN store ELSE <<>>
  /\ Log([op |-> "rewrap", ret |-> 0, n |-> count])
  /\ UNCHANGED <<cap, given, count, madefor>>

\* few of them at a time, some of which are in the store
Known == IF store = <<>> THEN {}
         ELSE {store[RandomElement(1..Len(store))][1],
               store[RandomElement(1..Len(store))][1]}
Some == {<<RandomElement(ArgSeqs), RandomElement(KwSets)>> :
           i \in 1..(2 + 0 * count)} \cup Known
Rarely == RandomElement(1..(40 + 0 * count)) = 1
\* (long ones collect many keys)
Often == Depth < 200 \/ RandomElement(1..(6 + 0 * count)) = 1
First == <<<<>>, {}>>

Next == /\ Len(hist) < Depth
        /\ IF Walk
             THEN IF Len(hist) = Depth - 1 THEN Hit(First) \/ Miss(First) ELSE
                  \/ \E c \in Some : Hit(c) \/ Miss(c)
                  \/ Often /\ \E c \in Some : Fail(c)
                  \/ Often /\ \E c \in Known : Evict(c)
                  \/ (Rarely /\ Often /\ (Clear \/ Rewrap))
             ELSE \/ \E c \in Calls : Hit(c) \/ Miss(c) \/ (Small /\ Fail(c))
                                    \/ (Small /\ Evict(c))
                  \/ (Small /\ (Clear \/ Rewrap))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
NoAlias == \A i \in 1..Len(store) : madefor[store[i][2]] = store[i][1]
OneEntry == \A i, j \in 1..Len(store) :
              store[i][1] = store[j][1] => i = j
LastOp == hist[Len(hist)]
Emit == Len(hist) = Depth =>
          PrintT(ToJson([cap |-> cap, given |-> given, hist |-> hist]))
=============================================================================
