------------------------------ MODULE ExprSyntax ------------------------------
(* From source text to an expression tree: Go's tokens and Go's precedence, plus *)
(* the ternary operator and $'...' strings.                                      *)
(*                                                                              *)
(* Text is a record [cp, ch]: the code points, and each character as a string.   *)
(* A token is [k, s, v]: kind, name, value.  Trees are those of Expr.tla; the    *)
(* tree [op |-> "bad"] stands for a syntax error and [op |-> "unspec"] for text  *)
(* about which the language says nothing.                                       *)
EXTENDS Expr

Tok(k, s, v) == [k |-> k, s |-> s, v |-> v]
Sym(k) == Tok(k, k, <<>>)

IsDec(c) == c >= 48 /\ c <= 57
IsOct(c) == c >= 48 /\ c <= 55
IsHex(c) == IsDec(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsLet(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
\* letters beyond ASCII that the histories use
Letters == {201, 233, 241, 955, 1078, 19990, 30028, 12354}
IsLetter(c) == IsLet(c) \/ c \in Letters
IsId(c) == IsLetter(c) \/ IsDec(c)
HexVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

Minimum(R) == CHOOSE x \in R : \A y \in R : x <= y
\* First position at or after i behind an identifier, or behind blanks.
IdEnd(cp, i) == LET R == {j \in i..Len(cp) : ~IsId(cp[j])} IN IF R = {} THEN Len(cp) + 1 ELSE Minimum(R)
Blanks(cp, i) == LET R == {j \in i..Len(cp) : cp[j] \notin {9, 32}} IN IF R = {} THEN Len(cp) + 1 ELSE Minimum(R)

RECURSIVE Text(_, _, _)
Text(ch, i, j) == IF i >= j THEN "" ELSE ch[i] \o Text(ch, i + 1, j)

Keywords == {"bool", "byte", "float32", "float64", "int", "int8", "int16", "int32", "int64",
             "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}

IdTok(s) ==
  IF s = "true" THEN Tok("bool", s, <<1>>)
  ELSE IF s = "false" THEN Tok("bool", s, <<0>>)
  ELSE IF s = "nil" THEN Tok("nil", s, <<>>)
  ELSE IF s \in Keywords THEN Tok("kw", s, <<>>)
  ELSE Tok("id", s, <<>>)

--------------------------------------------------------------------------------
(* Numbers.                                                                     *)
\* The extent of a numeric literal that starts at i: letters, digits, points and
\* underscores, and the sign of a decimal exponent.
RECURSIVE NumEnd(_, _, _)
NumEnd(cp, i, hex) ==
  IF i > Len(cp) THEN i
  ELSE IF cp[i] \in {69, 101} /\ ~hex /\ i < Len(cp) /\ cp[i + 1] \in {43, 45} THEN NumEnd(cp, i + 2, hex)
  ELSE IF IsDec(cp[i]) \/ IsLet(cp[i]) \/ cp[i] = 46 THEN NumEnd(cp, i + 1, hex)
  ELSE i

AllOf(d, P(_)) == d # <<>> /\ \A i \in 1..Len(d) : P(d[i])
\* Number in a base, as an unsigned vector of 10 bytes; <<>> if it exceeds 64 bits.
RECURSIVE InBase(_, _, _)
InBase(d, b, acc) ==
  IF d = <<>> THEN (IF acc[1] = 0 /\ acc[2] = 0 THEN acc ELSE <<>>)
  ELSE IF acc[1] # 0 \/ acc[2] # 0 THEN <<>>
  ELSE InBase(Tail(d), b, MulD(acc, b, HexVal(d[1])))
IntTok(d, b) ==
  LET v == InBase(d, b, Rep(0, 10)) IN IF v = <<>> THEN Sym("err") ELSE Tok("int", "", SubSeq(v, 2, 10))

\* Decimal digits as an unsigned vector just wide enough.
RECURSIVE BigDec(_, _)
BigDec(d, acc) == IF d = <<>> THEN acc ELSE BigDec(Tail(d), MulD(<<0>> \o acc, 10, d[1] - 48))
RECURSIVE TenTo(_)
TenTo(n) == IF n = 0 THEN <<1>> ELSE MulD(<<0>> \o TenTo(n - 1), 10, 0)
RECURSIVE Strip(_)
Strip(b) == IF Len(b) > 1 /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
\* a / d for a small d: <<quotient, remainder>>
RECURSIVE DivSmall(_, _, _, _)
DivSmall(a, d, r, q) ==
  IF a = <<>> THEN <<q, r>>
  ELSE LET x == 256 * r + a[1] IN DivSmall(Tail(a), d, x % d, Append(q, x \div d))
\* a / 10^n: <<quotient, 1 if anything was cut off>>
RECURSIVE DivTens(_, _, _)
DivTens(a, n, cut) ==
  IF n = 0 THEN <<a, cut>>
  ELSE LET d == DivSmall(Strip(a), 10, 0, <<>>) IN DivTens(d[1], n - 1, IF d[2] = 0 THEN cut ELSE 1)
\* D * 10^e as a float64
Decimal(d, e) ==
  LET m == Strip(BigDec(d, <<0>>)) IN
  IF IsZero(m) THEN FZero(0, 8)
  ELSE IF e >= 0 THEN
    LET p == Strip(TenTo(e))  n == Len(m) + Len(p) IN
    FPut(0, ToBits(Mul(Resize(m, n, FALSE), Resize(p, n, FALSE))), 0, 8)
  ELSE
    \* enough further bits that what is cut off only decides about rounding
    LET ext == 8 * (9 - e)
        q == DivTens(m \o Rep(0, ext \div 8), -e, 0)
    IN FPut(0, Append(ToBits(q[1]), q[2]), -ext - 1, 8)

RECURSIVE SmallInt(_, _)
SmallInt(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 10000 THEN acc ELSE SmallInt(Tail(d), 10 * acc + d[1] - 48)
RECURSIVE FindIn(_, _, _)
FindIn(d, S, i) == IF i > Len(d) THEN 0 ELSE IF d[i] \in S THEN i ELSE FindIn(d, S, i + 1)

FloatTok(d) ==
  LET e == FindIn(d, {69, 101}, 1)
      man == IF e = 0 THEN d ELSE SubSeq(d, 1, e - 1)
      ex == IF e = 0 THEN <<48>> ELSE SubSeq(d, e + 1, Len(d))
      sgn == IF ex # <<>> /\ ex[1] \in {43, 45} THEN ex[1] ELSE 43
      exd == IF ex # <<>> /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
      p == FindIn(man, {46}, 1)
      whole == IF p = 0 THEN man ELSE SubSeq(man, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(man, p + 1, Len(man))
      x == (IF sgn = 45 THEN -SmallInt(exd, 0) ELSE SmallInt(exd, 0)) - Len(frac)
  IN IF ~(AllOf(whole \o frac, IsDec) /\ AllOf(exd, IsDec)) THEN Sym("err")
     ELSE IF x > 400 /\ ~IsZero(BigDec(whole \o frac, <<0>>)) THEN Sym("err")
     ELSE IF x > 40 \/ x < -40 \/ Len(whole) + Len(frac) > 30 THEN Sym("unspec")
     ELSE Tok("flt", "", Decimal(whole \o frac, x))

NumTok(d) ==
  IF \E i \in 1..Len(d) : d[i] \in {95, 111, 79, 112, 80, 105} THEN Sym("unspec")   \* _ o O p P i
  ELSE IF d[1] = 48 /\ Len(d) > 1 /\ d[2] \in {120, 88} THEN
    LET h == SubSeq(d, 3, Len(d)) IN IF AllOf(h, IsHex) THEN IntTok(h, 16) ELSE Sym("err")
  ELSE IF d[1] = 48 /\ Len(d) > 1 /\ d[2] \in {98, 66} THEN
    LET h == SubSeq(d, 3, Len(d)) IN IF h # <<>> /\ \A i \in 1..Len(h) : h[i] \in {48, 49} THEN IntTok(h, 2) ELSE Sym("err")
  ELSE IF FindIn(d, {46, 69, 101}, 1) > 0 THEN FloatTok(d)
  ELSE IF ~AllOf(d, IsDec) THEN Sym("err")
  ELSE IF d[1] = 48 THEN (IF AllOf(d, IsOct) THEN IntTok(d, 8) ELSE Sym("err"))
  ELSE IntTok(d, 10)

--------------------------------------------------------------------------------
(* Strings and runes.                                                           *)
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ValidCp(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

RECURSIVE Number(_, _, _, _)
Number(cp, i, j, b) == IF i > j THEN 0 ELSE b * Number(cp, i, j - 1, b) + HexVal(cp[j])

\* The escape after a backslash; i is the position after it.
\* [ok, i (next), v (bytes in a string), r (as a rune)]
Esc(cp, i, q) ==
  LET No == [ok |-> FALSE, i |-> i, v |-> <<>>, r |-> 0]
      One(c) == [ok |-> TRUE, i |-> i + 1, v |-> <<c>>, r |-> c]
      Digits(n, P(_)) == i + n <= Len(cp) + 1 /\ \A j \in i..(i + n - 1) : P(cp[j])
  IN IF i > Len(cp) THEN No
     ELSE LET c == cp[i] IN
       CASE c = 97 -> One(7) [] c = 98 -> One(8) [] c = 102 -> One(12) [] c = 110 -> One(10)
         [] c = 114 -> One(13) [] c = 116 -> One(9) [] c = 118 -> One(11) [] c = 92 -> One(92)
         [] c = q -> One(q)
         [] IsOct(c) ->
              IF ~Digits(3, IsOct) THEN No
              ELSE LET n == Number(cp, i, i + 2, 8) IN
                IF n > 255 THEN No ELSE [ok |-> TRUE, i |-> i + 3, v |-> <<n>>, r |-> n]
         [] c = 120 ->
              IF ~(i + 2 <= Len(cp) /\ IsHex(cp[i + 1]) /\ IsHex(cp[i + 2])) THEN No
              ELSE LET n == Number(cp, i + 1, i + 2, 16) IN [ok |-> TRUE, i |-> i + 3, v |-> <<n>>, r |-> n]
         [] c \in {117, 85} ->
              LET w == IF c = 117 THEN 4 ELSE 8 IN
              IF ~(i + w <= Len(cp) /\ \A j \in (i + 1)..(i + w) : IsHex(cp[j])) THEN No
              ELSE IF w = 8 /\ (cp[i + 1] # 48 \/ cp[i + 2] # 48) THEN No
              ELSE LET n == Number(cp, i + 1, i + w, 16) IN
                IF ~ValidCp(n) THEN No ELSE [ok |-> TRUE, i |-> i + w + 1, v |-> Utf8(n), r |-> n]
         [] OTHER -> No

\* [ok, i, v, raw]: raw is TRUE if the literal spans lines
RECURSIVE StrBody(_, _, _, _, _)
StrBody(cp, i, q, acc, raw) ==
  IF i > Len(cp) THEN [ok |-> FALSE, i |-> i, v |-> acc, raw |-> raw]
  ELSE IF cp[i] = q THEN [ok |-> TRUE, i |-> i + 1, v |-> acc, raw |-> raw]
  ELSE IF cp[i] = 92 THEN
    LET e == Esc(cp, i + 1, q) IN
    IF e.ok THEN StrBody(cp, e.i, q, acc \o e.v, raw) ELSE [ok |-> FALSE, i |-> i, v |-> acc, raw |-> raw]
  ELSE StrBody(cp, i + 1, q, acc \o Utf8(cp[i]), raw \/ cp[i] \in {10, 13})

--------------------------------------------------------------------------------
(* The lexer: <<token, next position>>.                                          *)
Two == {<<"<", "<">>, <<">", ">">>, <<"&", "^">>, <<"&", "&">>, <<"|", "|">>, <<"=", "=">>, <<"!", "=">>,
        <<"<", "=">>, <<">", "=">>}
Single == {"+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "!", "(", ")", "[", "]", ",", ".", ":", "?"}

Scan(s, i) ==
  LET cp == s.cp  ch == s.ch  c == cp[i]  n == Len(cp) IN
  IF IsLetter(c) THEN LET j == IdEnd(cp, i) IN <<IdTok(Text(ch, i, j)), j>>
  ELSE IF IsDec(c) \/ (c = 46 /\ i < n /\ IsDec(cp[i + 1])) THEN
    LET hex == c = 48 /\ i < n /\ cp[i + 1] \in {120, 88}
        j == NumEnd(cp, i, hex) IN <<NumTok(SubSeq(cp, i, j - 1)), j>>
  ELSE IF c = 34 \/ (c = 36 /\ i < n /\ cp[i + 1] = 39) THEN
    LET q == IF c = 34 THEN 34 ELSE 39
        b == StrBody(cp, IF c = 34 THEN i + 1 ELSE i + 2, q, <<>>, FALSE)
    IN <<IF b.raw THEN Sym("unspec") ELSE IF b.ok THEN Tok("str", "", b.v) ELSE Sym("err"), b.i>>
  ELSE IF c = 39 THEN
    IF i + 2 > n \/ cp[i + 1] = 39 THEN <<Sym("err"), n + 1>>
    ELSE IF cp[i + 1] = 92 THEN
      LET e == Esc(cp, i + 2, 39) IN
      IF e.ok /\ e.i <= n /\ cp[e.i] = 39 THEN <<Tok("rune", "", IntBytes(e.r, 9)), e.i + 1>> ELSE <<Sym("err"), n + 1>>
    ELSE IF cp[i + 1] \in {10, 13} THEN <<Sym("unspec"), n + 1>>
    ELSE IF cp[i + 2] = 39 THEN <<Tok("rune", "", IntBytes(cp[i + 1], 9)), i + 3>> ELSE <<Sym("err"), n + 1>>
  ELSE IF i < n /\ <<ch[i], ch[i + 1]>> \in Two THEN <<Sym(ch[i] \o ch[i + 1]), i + 2>>
  ELSE IF ch[i] \in Single THEN <<Sym(ch[i]), i + 1>>
  ELSE IF c < 32 \/ c > 127 THEN <<Sym("unspec"), n + 1>>
  ELSE <<Sym("err"), n + 1>>

RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  LET j == Blanks(s.cp, i) IN
  IF j > Len(s.cp) THEN Append(acc, Sym("eof"))
  ELSE LET t == Scan(s, j) IN Lex(s, t[2], Append(acc, t[1]))

--------------------------------------------------------------------------------
(* The grammar.  A parse is [t (tree), i (next token)]; a failure has the tree  *)
(* "bad" or "unspec".                                                           *)
NoParse == [t |-> [op |-> "bad"], i |-> 0]
Open == [t |-> [op |-> "unspec"], i |-> 0]
Failed(p) == p.t.op \in {"bad", "unspec"}

Prec(k) ==
  CASE k = "||" -> 1
    [] k = "&&" -> 2
    [] k \in {"==", "!=", "<", "<=", ">", ">="} -> 3
    [] k \in {"+", "-", "|", "^"} -> 4
    [] k \in {"*", "/", "%", "<<", ">>", "&", "&^"} -> 5
    [] OTHER -> 0
Leafs == {"id", "int", "flt", "bool", "str", "rune", "nil"}
Unaries == {"+", "-", "!", "^", "*", "&"}

RECURSIVE PTern(_, _), PBin(_, _, _), PUn(_, _), PPost(_, _, _), PArgs(_, _, _), PRest(_, _, _)

PTern(tk, i) ==
  LET c == PBin(tk, i, 1) IN
  IF Failed(c) \/ tk[c.i].k # "?" THEN c
  ELSE LET a == PTern(tk, c.i + 1) IN
    IF Failed(a) THEN a
    ELSE IF tk[a.i].k # ":" THEN NoParse
    ELSE LET b == PTern(tk, a.i + 1) IN
      IF Failed(b) THEN b ELSE [t |-> [op |-> "?:", a |-> <<c.t, a.t, b.t>>], i |-> b.i]

\* operators of precedence min and above
PBin(tk, i, min) ==
  LET l == PUn(tk, i) IN IF Failed(l) THEN l ELSE PRest(tk, l, min)
PRest(tk, l, min) ==
  LET k == tk[l.i].k  p == Prec(k) IN
  IF p = 0 \/ p < min THEN l
  ELSE LET r == PBin(tk, l.i + 1, p + 1) IN
    IF Failed(r) THEN r ELSE PRest(tk, [t |-> [op |-> k, a |-> <<l.t, r.t>>], i |-> r.i], min)

PUn(tk, i) ==
  LET t == tk[i] IN
  IF t.k \in Unaries THEN
    LET p == PUn(tk, i + 1) IN
    IF Failed(p) THEN p ELSE [t |-> [op |-> "u" \o t.k, a |-> <<p.t>>], i |-> p.i]
  ELSE IF t.k \in Leafs THEN
    PPost(tk, [op |-> t.k, s |-> t.s, v |-> t.v], i + 1)
  ELSE IF t.k = "(" THEN
    LET p == PTern(tk, i + 1) IN
    IF Failed(p) THEN p
    ELSE IF tk[p.i].k = "," THEN Open     \* sequences are an undocumented extension
    ELSE IF tk[p.i].k # ")" THEN NoParse
    ELSE PPost(tk, p.t, p.i + 1)
  ELSE NoParse

PPost(tk, x, i) ==
  LET k == tk[i].k IN
  IF k = "." THEN
    IF tk[i + 1].k = "id" THEN PPost(tk, [op |-> ".", s |-> tk[i + 1].s, a |-> <<x>>], i + 2)
    ELSE IF tk[i + 1].k = "(" THEN Open
    ELSE NoParse
  ELSE IF k = "[" THEN
    LET p == PTern(tk, i + 1) IN
    IF Failed(p) THEN p
    ELSE IF tk[p.i].k = "," THEN Open
    ELSE IF tk[p.i].k # "]" THEN NoParse
    ELSE PPost(tk, [op |-> "[]", a |-> <<x, p.t>>], p.i + 1)
  ELSE IF k = "(" THEN
    IF tk[i + 1].k = ")" THEN PPost(tk, [op |-> "call", a |-> <<x>>], i + 2)
    ELSE LET p == PArgs(tk, i + 1, <<x>>) IN
      IF Failed(p) THEN p ELSE PPost(tk, p.t, p.i)
  ELSE [t |-> x, i |-> i]

PArgs(tk, i, acc) ==
  LET p == PTern(tk, i) IN
  IF Failed(p) THEN p
  ELSE IF tk[p.i].k = "," THEN PArgs(tk, p.i + 1, Append(acc, p.t))
  ELSE IF tk[p.i].k = ")" THEN [t |-> [op |-> "call", a |-> Append(acc, p.t)], i |-> p.i + 1]
  ELSE NoParse

ParseToks(tk) ==
  IF \E i \in 1..Len(tk) : tk[i].k = "unspec" THEN [op |-> "unspec"]
  ELSE IF \E i \in 1..Len(tk) : tk[i].k = "err" THEN [op |-> "bad"]
  ELSE LET p == PTern(tk, 1) IN
    IF Failed(p) THEN p.t
    ELSE IF tk[p.i].k = "eof" THEN p.t
    ELSE IF tk[p.i].k = "," THEN [op |-> "unspec"]
    ELSE [op |-> "bad"]

Parse(s) == ParseToks(Lex(s, 1, <<>>))
=============================================================================
