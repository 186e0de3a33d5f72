------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* aiuti.parsing.parse_to_dict (C19).  States are input texts, grown one   *)
(* character at a time over an alphabet; the expected result of every text *)
(* as an item of parse_to_dict is printed (Emit) and replayed on the code. *)
(***************************************************************************)
EXTENDS Literal, Json, IOUtils

Set == atoi(IOEnv.ALPHA)
MaxLen == atoi(IOEnv.MAXLEN)

Alphabet ==
  CASE Set = 1 -> {"0","1","-",".","'","(",")","[","]",",", " "}
    [] Set = 2 -> {"0","1","+","-",".","e","j","_"," "}
    [] Set = 3 -> {"1","{","}",":",",","'","[","]", " "}
    [] Set = 4 -> {"'","\"","\\","n","r","b","u"," ","q"}
    [] Set = 5 -> {"a","=","1","'"," ",":"}
    [] Set = 6 -> {"1", "(", ")", "-", "+", "j", ",", "."}
    [] OTHER -> {"1","x","=","[","]","\t"}
\* separators under which the text is split
Seps == CASE Set = 5 -> {<<"=">>, <<"=","=">>, <<"a","1">>, <<":">>,
                         <<" ">>, <<"=", "a", "=">>}
          [] Set = 7 -> {<<"=">>, <<"=", "[">>, <<"\t">>}
          [] OTHER -> {}

VARIABLE text

Init == text = <<>>
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

---------------------------------------------------------------------------
\* positions at which sep occurs in s
Occ(s, sep) == {i \in 1..(Len(s) - Len(sep) + 1) :
                  SubSeq(s, i, i + Len(sep) - 1) = sep}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

Split(s, sep) ==
  IF Occ(s, sep) = {} THEN [ok |-> FALSE]
  ELSE LET i == First(Occ(s, sep)) IN
       [ok |-> TRUE, key |-> SubSeq(s, 1, i - 1),
        val |-> SubSeq(s, i + Len(sep), Len(s))]

\* the literal a text denotes, or the text itself
Denote(s) == LET r == Lit(s) IN IF r.ok THEN r.v ELSE <<"str", s>>
HashableKey(v) == Hashable(v)

Expect(s, sep) ==
  LET p == Split(s, sep) IN
  IF ~p.ok THEN [sep |-> sep, err |-> TRUE]
  ELSE [sep |-> sep, err |-> FALSE, rawkey |-> p.key, rawval |-> p.val,
        key |-> Denote(p.key), val |-> Denote(p.val),
        hashable |-> HashableKey(Denote(p.key))]

Case == [text |-> text, lit |-> Denote(text), islit |-> Lit(text).ok,
         splits |-> {Expect(text, sep) : sep \in Seps}]

Emit == PrintT(ToJson(Case))

---------------------------------------------------------------------------
\* sanity of the reference itself
SplitOnce ==
  \A sep \in Seps : LET p == Split(text, sep) IN
     p.ok => /\ p.key \o sep \o p.val = text
             /\ Occ(p.key, sep) = {}
\* blanks in front of/after a literal do not matter
Blanks == LET a == Lit(text) b == Lit(<<" ">> \o text)
              c == Lit(text \o <<" ">>)
          IN a.ok => (b.ok /\ b.v = a.v /\ c.ok /\ c.v = a.v)
\* (x) denotes what x denotes unless x is a bare tuple
Parens == LET a == Lit(text) b == Lit(<<"(">> \o text \o <<")">>) IN
          a.ok => (b.ok /\ b.v = a.v)
=============================================================================
