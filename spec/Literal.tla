------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* Python literals (what ast.literal_eval accepts) as a recursive function *)
(* on character sequences.  A text is a sequence of one-character strings. *)
(* Lit(s) = [ok |-> FALSE] or [ok |-> TRUE, v |-> <denotation>]; a          *)
(* denotation is a tagged tuple:                                           *)
(*   <<"int", sign, digits>>           <<"float", sign, digits, exp10>>    *)
(*   <<"imag", sign, digits, exp10>>   <<"complex", real, imag>>           *)
(*   <<"str", chars>> <<"bytes", chars>> <<"name", chars>>                 *)
(*   <<"tuple", vs>> <<"list", vs>> <<"set", vs>> <<"dict", ks, vs>>       *)
(* Digits stay characters: no arithmetic, so no 32 bit limits.             *)
(* Covered: numbers over any digits incl. floats, exponents, underscores,  *)
(* imaginary and signed/complex; strings with ' and ", triple quotes, r/b/u*)
(* prefixes, simple escapes, implicit concatenation; tuples, lists, sets,  *)
(* dicts, parentheses; blanks.  Not covered (never generated): new lines,  *)
(* comments, hex/octal/binary, \x \u \N and octal escapes, f-strings other *)
(* than as non-literals, set().                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Digit  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letter == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
           "q","r","s","t","u","v","w","x","y","z","A","B","C","D","E","F",
           "N","T","R","U","J","_"}
Quote  == {"'", "\""}
NoLit  == [ok |-> FALSE]

At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE "EOF"
IsWs(c)  == c = " " \/ c = "\t"

RECURSIVE SkipWs(_, _)
SkipWs(s, p) == IF IsWs(At(s, p)) THEN SkipWs(s, p + 1) ELSE p

\* end of digit(["_"] digit)* from p on; p if there is none
RECURSIVE DigitPart(_, _)
DigitPart(s, p) ==
  IF At(s, p) \in Digit
    THEN IF At(s, p+1) = "_" /\ At(s, p+2) \in Digit
           THEN DigitPart(s, p + 2)
           ELSE IF At(s, p+1) \in Digit THEN DigitPart(s, p + 1) ELSE p + 1
    ELSE p

Digits(s, a, b) == SelectSeq(SubSeq(s, a, b - 1), LAMBDA c : c # "_")
AllZero(q) == \A i \in 1..Len(q) : q[i] = "0"

Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

\* an unsigned number starting at p
Number(s, p) ==
  LET d1  == DigitPart(s, p)
      dot == At(s, d1) = "."
      d2  == IF dot THEN DigitPart(s, d1 + 1) ELSE d1
      fr  == IF dot THEN Digits(s, d1 + 1, d2) ELSE <<>>
      has == d1 > p \/ (dot /\ d2 > d1 + 1)
      e   == At(s, d2) \in {"e", "E"}
      sg  == At(s, d2 + 1) \in {"+", "-"}
      eb  == IF sg THEN d2 + 2 ELSE d2 + 1
      ee  == IF e THEN DigitPart(s, eb) ELSE d2
      ex  == e /\ ee > eb
      q   == IF ex THEN ee ELSE d2
      im  == At(s, q) \in {"j", "J"}
      q2  == IF im THEN q + 1 ELSE q
      nx  == At(s, q2)
      mant == Digits(s, p, d1) \o fr
      \* the exponent: <<sign, digits, number of fraction digits>>
      exp == <<IF ex /\ sg THEN At(s, d2 + 1) ELSE "+",
               IF ex THEN Digits(s, eb, ee) ELSE <<>>, Len(fr)>>
      isint == ~dot /\ ~ex /\ ~im
  IN IF ~has \/ nx \in Digit \cup Letter THEN NoLit
     ELSE IF isint
       THEN IF At(s, p) = "0" /\ ~AllZero(mant) THEN NoLit
            ELSE Good(<<"int", "+", mant>>, q2)
       ELSE IF im THEN Good(<<"imag", "+", mant, exp>>, q2)
            ELSE Good(<<"float", "+", mant, exp>>, q2)

\* string prefix starting at p: <<length, raw?, bytes?>>; length -1: none
Prefix(s, p) ==
  LET a == At(s, p) b == At(s, p + 1) c == At(s, p + 2)
      lo(x) == IF x = "R" THEN "r" ELSE IF x = "B" THEN "b"
               ELSE IF x = "U" THEN "u" ELSE x
  IN IF a \in Quote THEN <<0, FALSE, FALSE>>
     ELSE IF b \in Quote /\ lo(a) \in {"r", "b", "u"}
       THEN <<1, lo(a) = "r", lo(a) = "b">>
     ELSE IF c \in Quote /\ {lo(a), lo(b)} = {"r", "b"}
       THEN <<2, TRUE, TRUE>>
     ELSE <<-1, FALSE, FALSE>>

Escaped(c) == CASE c = "n" -> <<"\n">> [] c = "t" -> <<"\t">>
                [] c = "r" -> <<"\r">> [] c = "a" -> <<"BEL">>
                [] c = "b" -> <<"BS">> [] c = "f" -> <<"\f">>
                [] c = "v" -> <<"VT">>
                [] c \in {"\\", "'", "\""} -> <<c>>
                [] OTHER -> <<"\\", c>>

\* body of a string from p on; q: quote character; t: triple quoted;
\* \u needs four hex digits in text, which are never generated
RECURSIVE Body(_, _, _, _, _, _, _)
Body(s, p, q, t, raw, by, acc) ==
  LET c == At(s, p) IN
  IF c = "EOF" THEN NoLit
  ELSE IF c = q /\ (~t \/ (At(s, p+1) = q /\ At(s, p+2) = q))
    THEN Good(acc, IF t THEN p + 3 ELSE p + 1)
  ELSE IF c = "\\"
    THEN IF At(s, p + 1) = "EOF" \/ (At(s, p + 1) = "u" /\ ~raw /\ ~by)
           THEN NoLit
         ELSE Body(s, p + 2, q, t, raw, by,
                   acc \o (IF raw THEN <<c, s[p + 1]>>
                           ELSE Escaped(s[p + 1])))
  ELSE Body(s, p + 1, q, t, raw, by, Append(acc, c))

\* one or more adjacent string tokens
RECURSIVE Strings(_, _, _, _)
Strings(s, p, bytes, acc) ==
  LET pre == Prefix(s, p)
      b   == p + pre[1]
      q   == At(s, b)
      t   == At(s, b + 1) = q /\ At(s, b + 2) = q
      r   == Body(s, IF t THEN b + 3 ELSE b + 1, q, t, pre[2], bytes, <<>>)
  IN IF pre[1] < 0 \/ pre[3] # bytes THEN NoLit
     ELSE IF ~r.ok THEN NoLit
     ELSE LET nx == SkipWs(s, r.p) IN
       IF Prefix(s, nx)[1] >= 0 THEN Strings(s, nx, bytes, acc \o r.v)
       ELSE Good(<<IF bytes THEN "bytes" ELSE "str", acc \o r.v>>, r.p)

RECURSIVE Word(_, _)
Word(s, p) == IF At(s, p) \in Letter \cup Digit THEN Word(s, p + 1) ELSE p

IsNum(v)  == v[1] \in {"int", "float", "imag"}
RECURSIVE Hashable(_)
Hashable(v) == IF v[1] \in {"list", "set", "dict"} THEN FALSE
               ELSE IF v[1] = "tuple"
                 THEN \A i \in 1..Len(v[2]) : Hashable(v[2][i])
                 ELSE TRUE

Neg(v, sg) == IF sg = "-" THEN [v EXCEPT ![2] = "-"] ELSE v

(* Values are parsed together with a marker telling how the expression was *)
(* built, because signs only apply to unsigned numbers and +/- only joins a*)
(* signed real with an unsigned imaginary: "num" unsigned, "snum" signed,  *)
(* "val" anything else.                                                    *)
RECURSIVE Atom(_, _), Factor(_, _), Expr(_, _), Items(_, _, _, _),
          Pairs(_, _, _, _)

GoodK(k, v, p) == [ok |-> TRUE, v |-> v, p |-> p, k |-> k]

\* comma separated expressions up to the closing bracket:
\* [ok, v (sequence), p (after the bracket), c (was there a comma?)]
Items(s, p, close, acc) ==
  LET q == SkipWs(s, p) IN
  IF At(s, q) = close
    THEN [ok |-> TRUE, v |-> acc, p |-> q + 1, c |-> Len(acc) > 0, k |-> "val"]
    ELSE LET e == Expr(s, q) IN
      IF ~e.ok THEN NoLit
      ELSE LET r == SkipWs(s, e.p) IN
        IF At(s, r) = "," THEN Items(s, r + 1, close, Append(acc, e.v))
        ELSE IF At(s, r) = close
          THEN [ok |-> TRUE, v |-> Append(acc, e.v), p |-> r + 1,
                c |-> Len(acc) > 0, k |-> e.k]
          ELSE NoLit

Pairs(s, p, ks, vs) ==
  LET q == SkipWs(s, p) IN
  IF At(s, q) = "}" THEN Good(<<"dict", ks, vs>>, q + 1)
  ELSE LET a == Expr(s, q) IN
    IF ~a.ok THEN NoLit
    ELSE LET r == SkipWs(s, a.p) IN
      IF At(s, r) # ":" \/ ~Hashable(a.v) THEN NoLit
      ELSE LET b == Expr(s, SkipWs(s, r + 1)) IN
        IF ~b.ok THEN NoLit
        ELSE LET t == SkipWs(s, b.p) IN
          IF At(s, t) = ","
            THEN Pairs(s, t + 1, Append(ks, a.v), Append(vs, b.v))
          ELSE IF At(s, t) = "}"
            THEN Good(<<"dict", Append(ks, a.v), Append(vs, b.v)>>, t + 1)
          ELSE NoLit

Atom(s, p) ==
  LET c == At(s, p) IN
  IF c \in Digit \/ (c = "." /\ At(s, p + 1) \in Digit)
    THEN LET n == Number(s, p) IN
         IF n.ok THEN GoodK("num", n.v, n.p) ELSE NoLit
  ELSE IF c = "." /\ At(s, p + 1) = "." /\ At(s, p + 2) = "."
    THEN GoodK("val", <<"ellipsis">>, p + 3)
  ELSE IF Prefix(s, p)[1] >= 0
    THEN LET n == Strings(s, p, Prefix(s, p)[3], <<>>) IN
         IF n.ok THEN GoodK("val", n.v, n.p) ELSE NoLit
  ELSE IF c = "("
    THEN LET r == Items(s, p + 1, ")", <<>>) IN
         IF ~r.ok THEN NoLit
         ELSE IF Len(r.v) = 1 /\ ~r.c
           THEN \* just parentheses, unless there was a trailing comma
                GoodK(r.k, r.v[1], r.p)
           ELSE GoodK("val", <<"tuple", r.v>>, r.p)
  ELSE IF c = "["
    THEN LET r == Items(s, p + 1, "]", <<>>) IN
         IF r.ok THEN GoodK("val", <<"list", r.v>>, r.p) ELSE NoLit
  ELSE IF c = "{"
    THEN LET d == Pairs(s, p + 1, <<>>, <<>>)
             r == IF d.ok THEN NoLit ELSE Items(s, p + 1, "}", <<>>)
         IN IF d.ok THEN GoodK("val", d.v, d.p)
            ELSE IF r.ok /\ Len(r.v) > 0
                    /\ \A i \in 1..Len(r.v) : Hashable(r.v[i])
              THEN GoodK("val", <<"set", r.v>>, r.p)
              ELSE NoLit
  ELSE IF c \in Letter
    THEN LET w == SubSeq(s, p, Word(s, p) - 1) IN
         IF w \in {<<"N","o","n","e">>, <<"T","r","u","e">>,
                   <<"F","a","l","s","e">>}
           THEN GoodK("val", <<"name", w>>, Word(s, p))
           ELSE NoLit
  ELSE NoLit

Factor(s, p) ==
  IF At(s, p) \in {"+", "-"}
    THEN LET a == Atom(s, SkipWs(s, p + 1)) IN
         IF a.ok /\ a.k = "num"
           THEN GoodK("snum", Neg(a.v, At(s, p)), a.p)
           ELSE NoLit
    ELSE Atom(s, p)

Expr(s, p) ==
  LET a == Factor(s, p) IN
  IF ~a.ok THEN NoLit
  ELSE LET q == SkipWs(s, a.p) IN
    IF At(s, q) \in {"+", "-"}
      THEN LET b == Atom(s, SkipWs(s, q + 1)) IN
           IF a.k \in {"num", "snum"} /\ a.v[1] \in {"int", "float"}
              /\ b.ok /\ b.k = "num" /\ b.v[1] = "imag"
             THEN LET r == GoodK("val", <<"complex", a.v,
                                          Neg(b.v, At(s, q))>>, b.p)
                  IN IF At(s, SkipWs(s, r.p)) \in {"+", "-"} THEN NoLit
                     ELSE r
             ELSE NoLit
      ELSE a

\* top level: an expression or an unparenthesised tuple
RECURSIVE Top(_, _, _)
Top(s, p, acc) ==
  LET e == Expr(s, p) IN
  IF ~e.ok THEN NoLit
  ELSE LET q == SkipWs(s, e.p) IN
    IF At(s, q) = "EOF"
      THEN [ok |-> TRUE, v |-> IF acc = <<>> THEN e.v
                               ELSE <<"tuple", Append(acc, e.v)>>]
    ELSE IF At(s, q) # "," THEN NoLit
    ELSE LET r == SkipWs(s, q + 1) IN
      IF At(s, r) = "EOF"
        THEN [ok |-> TRUE, v |-> <<"tuple", Append(acc, e.v)>>]
        ELSE Top(s, r, Append(acc, e.v))

Lit(s) == Top(s, SkipWs(s, 1), <<>>)
=============================================================================
