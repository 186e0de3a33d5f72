----------------------------- MODULE ParseList -----------------------------
(***************************************************************************)
(* Sequences of items given to parse_to_dict (C19): strings, pairs with    *)
(* textual and non-textual components, errors anywhere, repeated keys,     *)
(* parse_keys on/off; and the family of texts that denote no literal and   *)
(* would have an effect (or another value) if they were evaluated.         *)
(***************************************************************************)
EXTENDS Literal, Json, IOUtils

MaxItems == atoi(IOEnv.MAXITEMS)

C(x) == [i \in 1..Len(x) |-> SubSeq(x, i, i)]

\* things which are not literals; tw is the tripwire of the harness
Evil == {"tw", "tw()", "tw.x", "tw[0]", "-tw", "[tw]", "{tw:1}", "{1:tw()}",
         "(tw(),)", "tw if 1 else 2", "1 if tw else 2", "lambda:tw()",
         "(lambda:tw())()", "f'{tw()}'", "[tw() for q in (1,)]",
         "1+1", "2**8", "'a'*3", "'a'%1", "not 1", "1<2", "1 and 2",
         "(q:=1)", "().x", "''.join(())", "int('1')", "int",
         "str.lower", "dict(a=1)", "[1][0]", "*tw", "await tw",
         "yield tw", "import tw", "tw=1", "del tw", "1;tw()", "~1", "--1",
         "-'1'", "[*tw]", "{**tw}", "1j+1j", "none", "true", "null", "nan",
         "inf", "NaN", "1.2.3", "01", "1_", "a b", "a-b", "'", "''''", "(",
         ")", "[1", "{1", "{[]}", "{[]:1}", "1,,", ",", "@", "$", "1e",
         "0q", "abs(-1)", "[].append(1)", "exec('tw()')", "eval('tw()')",
         "getattr(tw, 'x')", "print(tw)", "type(1)", "object()", "tw@1"}
Fine == {"1", "0", "-1", "1.5", "'a'", "''", "None", "True", "False", "()",
         "[]", "{}", "[1, 'a', None]", "(1, (2, [3]))", "{'a': 1, 2: [True]}",
         "{1, 2}", " 1", "1 ", "b'a'", "1+2j", "-1-1j", "'a' 'b'", "1,2",
         "\"q'q\"", "'''a'b'''", "[[[[[[[[1]]]]]]]]", "1_000", "1e3"}
Words == {"", "a", " ", "a b", "tw", "A", "a.b", "/x", "a'"}

VARIABLES items, pk
vars == <<items, pk>>

Txt(x) == <<"text", C(x)>>
Obj(x) == <<"obj", x>>
Comp == {Txt(x) : x \in {"a", "1", "'a'", "", "tw()", "1=2"}}
ObjKeys == {Obj("int5"), Obj("none"), Obj("tuple")}
ObjVals == {Obj("int5"), Obj("none"), Obj("list"), Obj("bytes"), Obj("trip"),
            Obj("false")}
Str(x) == [form |-> "str", text |-> C(x)]
Pair(k, v) == [form |-> "pair", key |-> k, val |-> v]

Pool == {Str(x) : x \in {"a=1", "a=", "=1", "=", "1=a=b", "1.0='=' ", "a",
                         "", "'a'=[1, 2]", "True=tw()", "b = 1"}}
        \cup {Pair(Txt("1"), Txt("'x'")), Pair(Txt("a"), Obj("list")),
              Pair(Obj("int5"), Txt("tw()")), Pair(Obj("none"), Obj("trip")),
              Pair(Txt("a"), Txt("b=c")), Pair(Txt("'a'"), Txt("")),
              Pair(Obj("tuple"), Txt("0"))}
Singles == {Pair(k, v) : k \in Comp \cup ObjKeys, v \in Comp \cup ObjVals}
        \cup {Pair(Txt("k"), Txt(x)) : x \in Evil \cup Fine \cup Words}
        \cup {Pair(Txt(x), Txt("v")) : x \in Evil \cup Fine \cup Words}
        \cup {Str("k=" \o x) : x \in Evil \cup Fine \cup Words}
        \cup {Str(x \o "=v") : x \in Evil \cup Fine \cup Words}
        \cup {Str(x) : x \in Evil \cup Fine \cup Words}

Init == items = <<>> /\ pk \in {TRUE, FALSE}
Next == /\ \/ items = <<>> /\ \E i \in Pool \cup Singles : items' = <<i>>
           \/ /\ Len(items) \in 1..(MaxItems - 1)
              /\ items[1] \in Pool
              /\ \E i \in Pool : items' = Append(items, i)
        /\ UNCHANGED pk
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Denote(s) == LET r == Lit(s) IN IF r.ok THEN r.v ELSE <<"str", s>>
Val(c) == IF c[1] = "text" THEN Denote(c[2]) ELSE c
Key(c) == IF c[1] = "text" THEN (IF pk THEN Denote(c[2]) ELSE <<"str", c[2]>>)
          ELSE c
Eq(s) == {i \in 1..Len(s) : s[i] = "="}

One(it) ==
  IF it.form = "pair"
    THEN [err |-> FALSE, key |-> Key(it.key), val |-> Val(it.val)]
  ELSE IF Eq(it.text) = {} THEN [err |-> TRUE]
  ELSE LET i == CHOOSE i \in Eq(it.text) : \A j \in Eq(it.text) : i <= j IN
       [err |-> FALSE,
        key |-> Key(<<"text", SubSeq(it.text, 1, i - 1)>>),
        val |-> Val(<<"text", SubSeq(it.text, i + 1, Len(it.text))>>)]

Case == [items |-> items, pk |-> pk,
         exp |-> [i \in 1..Len(items) |-> One(items[i])],
         hashable |-> \A i \in 1..Len(items) :
            One(items[i]).err \/ Hashable(One(items[i]).key)]

Emit == PrintT(ToJson(Case))
\* the reference does not take any of these for a literal
EvilIsNoLiteral == \A x \in Evil : ~Lit(C(x)).ok
FineIsLiteral == \A x \in Fine : Lit(C(x)).ok
Reference == items = <<>> => (EvilIsNoLiteral /\ FineIsLiteral)
=============================================================================
