------------------------------ MODULE TagSyntax -------------------------------
(* From the text of struct tags to the meaning of a struct type.                *)
(*                                                                              *)
(* A raw struct type has fields [nm, ex, t, tags]: the name; whether it is      *)
(* exported; the Go type, again raw; and the tags that concern this library, as *)
(* pairs of the tag's key ("struct", "struct-if", ...) and its text [cp, ch].   *)
(* TypeMeant turns it into a type for the codec machine, or into a type of kind   *)
(* "badtag" (no operation accepts it) or "opentag" (the documentation says      *)
(* nothing about it).                                                           *)
EXTENDS ExprSyntax, FiniteSets

Part(s, i, j) == [cp |-> SubSeq(s.cp, i, j), ch |-> SubSeq(s.ch, i, j)]
AsText(s) == Text(s.ch, 1, Len(s.ch) + 1)
IsBlank(c) == c <= 32

--------------------------------------------------------------------------------
(* Options are separated by commas, but not by those inside brackets or quotes.  *)
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(cp, i, q) ==
  IF i > Len(cp) THEN 0 ELSE IF cp[i] = q THEN i
  ELSE QuoteEnd(cp, IF cp[i] = 92 THEN i + 2 ELSE i + 1, q)
Closer(c) == IF c = 40 THEN 41 ELSE c + 2     \* ( ) [ ] { }

\* the position behind the option that starts at i; 0 if brackets or quotes do not match
RECURSIVE OptEnd(_, _, _)
OptEnd(cp, i, stk) ==
  IF i > Len(cp) THEN (IF stk = <<>> THEN i ELSE 0)
  ELSE LET c == cp[i] IN
    CASE c = 44 /\ stk = <<>> -> i
      [] c \in {40, 91, 123} -> OptEnd(cp, i + 1, Append(stk, Closer(c)))
      [] c \in {41, 93, 125} -> IF stk # <<>> /\ stk[Len(stk)] = c THEN OptEnd(cp, i + 1, Front(stk)) ELSE 0
      [] c \in {34, 39} -> (LET j == QuoteEnd(cp, i + 1, c) IN IF j = 0 THEN 0 ELSE OptEnd(cp, j + 1, stk))
      [] OTHER -> OptEnd(cp, i + 1, stk)

--------------------------------------------------------------------------------
(* Numbers: decimal, octal, hexadecimal, binary.  -1: malformed, -2: not said.   *)
RECURSIVE Value(_, _, _)
Value(d, b, acc) == IF d = <<>> THEN acc ELSE IF acc > 1000000 THEN acc ELSE Value(Tail(d), b, b * acc + HexVal(d[1]))
Digs(d, b, P(_)) == IF AllOf(d, P) THEN Value(d, b, 0) ELSE -1
IsBin(c) == c \in {48, 49}
TagInt(d) ==
  IF \E i \in 1..Len(d) : d[i] = 95 \/ IsBlank(d[i]) THEN -2
  ELSE IF d = <<>> THEN -1
  ELSE IF Len(d) = 1 \/ d[1] # 48 THEN Digs(d, 10, IsDec)
  ELSE CASE d[2] \in {120, 88} -> Digs(SubSeq(d, 3, Len(d)), 16, IsHex)
         [] d[2] \in {98, 66} -> Digs(SubSeq(d, 3, Len(d)), 2, IsBin)
         [] d[2] \in {111, 79} -> -2
         [] OTHER -> Digs(Tail(d), 8, IsOct)

--------------------------------------------------------------------------------
(* Type expressions: [] [n] * and the names of basic types.                      *)
NoType == [k |-> "bad"]
OpenType == [k |-> "open"]
TSlice(t) == [Ty("slice", "slice", 8) EXCEPT !.e = <<t>>]
NamedType(s) ==
  CASE s = "bool" -> TBool
    [] s = "int" -> TInt [] s = "uint" -> TUint
    [] s = "int8" -> Ty("int", s, 1) [] s = "int16" -> Ty("int", s, 2)
    [] s \in {"int32", "rune"} -> Ty("int", "int32", 4) [] s = "int64" -> Ty("int", s, 8)
    [] s \in {"uint8", "byte"} -> TU8
    [] s = "uint16" -> TU16 [] s = "uint32" -> TU32 [] s = "uint64" -> TU64
    [] s = "float32" -> Ty("float", s, 4) [] s = "float64" -> Ty("float", s, 8)
    [] s = "complex64" -> Ty("complex", s, 8) [] s = "complex128" -> Ty("complex", s, 16)
    [] s = "string" -> TSlice(TU8)
    [] s = "uintptr" -> OpenType
    [] OTHER -> NoType
TArray(n, t) == [k |-> "array", g |-> "array", w |-> 0, nm |-> "", n |-> n, e |-> <<t>>]

RECURSIVE PType(_, _)
PType(tk, i) ==
  LET t == tk[i]
      Of(j, C(_)) == LET e == PType(tk, j) IN IF e.k \in {"bad", "open"} THEN e ELSE C(e)
  IN CASE t.k = "*" -> Of(i + 1, TPtr)
       [] t.k = "[" /\ tk[i + 1].k = "]" -> Of(i + 2, TSlice)
       [] t.k = "[" /\ tk[i + 1].k = "int" /\ tk[i + 2].k = "]" ->
            (LET v == tk[i + 1].v  A(e) == TArray(256 * v[8] + v[9], e) IN
             IF Of(i + 3, A).k = "bad" THEN NoType
             ELSE IF ~IsZero(SubSeq(v, 1, 7)) \/ v[8] > 4 THEN OpenType ELSE Of(i + 3, A))
       [] t.k \in {"kw", "id"} -> IF tk[i + 1].k = "eof" THEN NamedType(t.s) ELSE NoType
       [] OTHER -> NoType

TypeOf(s) ==
  LET tk == Lex(s, 1, <<>>) IN
  IF \E i \in 1..Len(tk) : tk[i].k \in {"unspec", "(", "/"} THEN OpenType
  ELSE IF \E i \in 1..Len(tk) : tk[i].k = "err" THEN NoType
  ELSE PType(tk \o <<Sym("eof"), Sym("eof")>>, 1)

BitKinds == {"int", "uint"}
\* The option "type" or "type:bits": <<type, bits>>, with a type of kind bad or open otherwise.
TypeOption(s) ==
  LET col == FindIn(s.cp, {58}, 1)
      t == TypeOf(IF col = 0 THEN s ELSE Part(s, 1, col - 1))
      n == TagInt(SubSeq(s.cp, col + 1, Len(s.cp)))
  IN IF t.k = "bad" THEN <<NoType, 0>>
     ELSE IF col = 0 THEN <<t, 0>>
     ELSE IF n = -1 THEN <<NoType, 0>>
     ELSE IF t.k = "open" \/ n = -2 THEN <<OpenType, 0>>
     ELSE IF t.k \in {"float", "complex"} THEN <<OpenType, 0>>
     ELSE IF t.k \notin BitKinds THEN <<NoType, 0>>
     ELSE IF n < 1 \/ n >= 8 * t.w THEN <<NoType, 0>>
     ELSE IF t.g \in {"int", "uint"} /\ n >= 32 THEN <<OpenType, 0>>
     ELSE <<t, n>>

--------------------------------------------------------------------------------
(* One option: <<what, value>>; what "bad" or "open" if it is none.              *)
ExprKeys == {"if", "size", "bits", "in", "out", "while", "switch", "case"}
BadOption == <<"bad", 0>>
Unsaid == <<"open", 0>>
IsIdent(cp) == cp # <<>> /\ IsLetter(cp[1]) /\ \A i \in 1..Len(cp) : IsId(cp[i])

ExprOption(key, s) ==
  IF \A i \in 1..Len(s.cp) : IsBlank(s.cp[i]) THEN BadOption
  ELSE LET x == Parse(s) IN
    IF x.op = "bad" THEN BadOption ELSE IF x.op = "unspec" THEN Unsaid ELSE <<key, x>>

OneOption(s) ==
  LET a == AsText(s)
      eq == FindIn(s.cp, {61}, 1)
      key == IF eq = 0 THEN "" ELSE Text(s.ch, 1, eq)
      arg == Part(s, eq + 1, Len(s.cp))
  IN CASE s.cp = <<>> -> BadOption
       [] IsBlank(s.cp[1]) \/ (IsBlank(s.cp[Len(s.cp)]) /\ key \notin ExprKeys) -> Unsaid
       [] a \in {"big", "msb", "network"} -> <<"order", "b">>
       [] a \in {"little", "lsb"} -> <<"order", "l">>
       [] a \in {"variantbool", "invertedbool", "root", "parent", "default"} -> <<a, TRUE>>
       [] key \in {"sizeof", "sizefrom"} -> IF IsIdent(arg.cp) THEN <<key, AsText(arg)>> ELSE BadOption
       [] key = "skip" -> (LET n == TagInt(arg.cp) IN IF n = -1 THEN BadOption ELSE IF n = -2 \/ n > 1000 THEN Unsaid ELSE <<key, n>>)
       [] key \in ExprKeys -> ExprOption(key, arg)
       [] s.cp[1] = 45 -> BadOption
       [] OTHER -> (LET t == TypeOption(s) IN
                    IF t[1].k = "bad" THEN BadOption ELSE IF t[1].k = "open" THEN Unsaid ELSE <<"type", t>>)

RECURSIVE Options(_, _, _)
Options(s, i, acc) ==
  LET j == OptEnd(s.cp, i, <<>>) IN
  IF j = 0 THEN Append(acc, BadOption)
  ELSE LET o == Append(acc, OneOption(Part(s, i, j - 1))) IN
    IF j > Len(s.cp) THEN o ELSE Options(s, j + 1, o)

\* All options of a field.
TagOptions(tag) ==
  LET key == tag[1]  s == tag[2]  n == Len(s.cp) IN
  IF \E i \in 1..n : s.cp[i] < 32 /\ s.cp[i] # 9 THEN <<Unsaid>>
  ELSE IF key = "struct" THEN
    IF n = 0 THEN <<>>
    ELSE IF AsText(s) = "-" THEN << <<"ignore", TRUE>> >>
    ELSE Options(s, 1, <<>>)
  ELSE IF n = 0 THEN <<Unsaid>>
  ELSE LET k == CHOOSE k \in ExprKeys : key = "struct-" \o k IN << ExprOption(k, s) >>
RECURSIVE AllOptions(_, _)
AllOptions(tags, i) == IF i > Len(tags) THEN <<>> ELSE TagOptions(tags[i]) \o AllOptions(tags, i + 1)

--------------------------------------------------------------------------------
(* Fields.                                                                      *)
NoExpr == [op |-> "none", s |-> "", v |-> <<>>, a |-> <<>>]
\* native types to which sizes apply
Sizable(t) == t.g \in {"slice", "string"}

\* A field from its raw form f, with its resolved Go type t; st tells what is wrong.
RawField(f, t) ==
  LET os == IF f.ex = "u" THEN <<>> ELSE AllOptions(f.tags, 1)
      Given(k) == \E i \in 1..Len(os) : os[i][1] = k
      Get(k, d) == IF Given(k) THEN os[CHOOSE i \in 1..Len(os) : os[i][1] = k][2] ELSE d
      bt == IF Given("type") THEN Get("type", <<>>)[1] ELSE t
      cls == CASE f.ex = "u" -> "u" [] Given("ignore") -> "x" [] Given("root") -> "r" [] Given("parent") -> "p"
               [] f.ex = "b" -> "b" [] OTHER -> "n"
      own == f.ex # "u" /\ Len(f.tags) > 0 /\ f.tags[1][1] = "struct"
      main == IF own THEN TagOptions(f.tags[1]) ELSE <<>>
      st == CASE \E i \in 1..Len(main) : main[i][1] = "bad" -> "bad"
              \* further tags on a field that is not encoded
              [] cls \in {"x", "r", "p"} /\ Len(os) > 1 -> "open"
              \* given in two places
              [] \E i \in 1..Len(f.tags), j \in 1..Len(main) : f.tags[i][1] \in {"struct-" \o x : x \in ExprKeys} /\ f.tags[i][1] = "struct-" \o main[j][1] -> "open"
              [] Given("bad") -> "bad"
              [] Given("open") -> "open"
              \* given twice
              [] \E i, j \in 1..Len(os) : i < j /\ os[i][1] = os[j][1] -> "open"
              [] Given("size") /\ ~Sizable(t) -> "bad"
              [] Given("sizefrom") /\ ~Sizable(t) -> "bad"
              [] Given("bits") /\ bt.g \in {"float32", "float64", "complex64", "complex128"} -> "open"
              [] Given("bits") /\ bt.k = "cu" -> "open"
              [] Given("bits") /\ bt.k \notin BitKinds -> "bad"
              [] OTHER -> "ok"
      \* the reasons for which it is bad
      why == IF st # "bad" THEN {}
             ELSE (IF \E i \in 1..Len(os) : os[i][1] = "bad" THEN {"other"} ELSE {})
               \cup (IF Given("size") /\ ~Sizable(t) THEN {"size"} ELSE {})
               \cup (IF Given("sizefrom") /\ ~Sizable(t) THEN {"sizefrom"} ELSE {})
               \cup (IF Given("bits") /\ bt.k \notin BitKinds THEN {"bits"} ELSE {})
  IN [nm |-> f.nm, em |-> Embedded(f), cls |-> cls, t |-> t, bt |-> bt, o |-> Get("order", "n"), sk |-> Get("skip", 0),
      bw |-> IF Given("type") THEN Get("type", <<>>)[2] ELSE 0,
      va |-> Given("variantbool"), iv |-> Given("invertedbool"), df |-> Given("default"),
      szof |-> Get("sizeof", ""), szfr |-> Get("sizefrom", ""),
      xif |-> Get("if", NoExpr), xsz |-> Get("size", NoExpr), xbi |-> Get("bits", NoExpr), xin |-> Get("in", NoExpr),
      xou |-> Get("out", NoExpr), xwh |-> Get("while", NoExpr), xsw |-> Get("switch", NoExpr), xca |-> Get("case", NoExpr),
      st |-> st, why |-> why]

\* What is wrong with a list of fields: the options of each, and that sizeof names a
\* later slice or string and sizefrom an earlier field.
FieldsState(fs) ==
  LET L == {i \in 1..Len(fs) : fs[i].cls \in {"n", "b"} /\ fs[i].st = "ok"}
      All == {i \in 1..Len(fs) : fs[i].cls \in {"n", "b"}}
      Names(i, nm) == fs[i].nm = nm
  IN CASE \E i \in 1..Len(fs) : fs[i].st = "bad" -> "bad"
       [] \E i \in L : fs[i].szof # "" /\ (\E j \in All : j > i /\ Names(j, fs[i].szof) /\ ~Sizable(fs[j].t)) -> "bad"
       [] \E i \in L : fs[i].szof # "" /\ ~(\E j \in 1..Len(fs) : Names(j, fs[i].szof)) -> "bad"
       [] \E i \in L : fs[i].szof # "" /\ (\E j \in All : j <= i /\ Names(j, fs[i].szof)) -> "bad"
       [] \E i \in L : fs[i].szfr # "" /\ ~(\E j \in 1..Len(fs) : Names(j, fs[i].szfr)) -> "bad"
       [] \E i \in L : fs[i].szfr # "" /\ (\E j \in All : j >= i /\ Names(j, fs[i].szfr)) -> "bad"
       [] \E i \in 1..Len(fs) : fs[i].st = "open" -> "open"
       [] \E i \in L : fs[i].szof \in {"_"} \/ fs[i].szfr \in {"_"} -> "open"
       \* counters that are not encoded, or counting a thing that is not
       [] \E i \in L, j \in 1..Len(fs) : j \notin All /\ Names(j, fs[i].szof) -> "open"
       [] \E i \in L, j \in 1..Len(fs) : j \notin All /\ Names(j, fs[i].szfr) -> "open"
       [] OTHER -> "ok"

\* Which of the documented errors that is, if only one thing is wrong; "" if that is
\* not said.
FieldsWhy(fs) ==
  LET All == {i \in 1..Len(fs) : fs[i].cls \in {"n", "b"}}
      At(i, nm) == {j \in 1..Len(fs) : fs[j].nm = nm}
      own == UNION { { <<i, w>> : w \in fs[i].why } : i \in 1..Len(fs) }
      of == UNION { LET js == At(i, fs[i].szof) IN
                    IF fs[i].szof = "" THEN {}
                    ELSE IF \E j \in js : j \in All /\ j > i THEN (IF \E j \in js : ~Sizable(fs[j].t) THEN {<<i, "sizeof">>} ELSE {}) ELSE {<<i, "other">>} : i \in All }
      from == UNION { IF fs[i].szfr = "" \/ \E j \in At(i, fs[i].szfr) : j \in All /\ j < i THEN {} ELSE {<<i, "other">>} : i \in All }
      ws == own \cup of \cup from
      w == (CHOOSE x \in ws : TRUE)[2]
  IN IF Cardinality(ws) # 1 \/ \E i \in 1..Len(fs) : fs[i].st = "open" THEN "" ELSE IF w = "other" THEN "" ELSE w

\* A nested type that is bad makes the outer one bad if it is always there, and
\* else open.
Nested(t) == IF t.k \in {"badtag", "opentag"} THEN t.k ELSE "ok"
RECURSIVE TypeMeant(_)
TypeMeant(t) ==
  CASE t.k = "struct" ->
         LET fs == [i \in 1..Len(t.f) |-> RawField(t.f[i], TypeMeant(t.f[i].t))]
             st == FieldsState(fs)
             Some(k) == \E i \in 1..Len(fs) : fs[i].cls # "u" /\ Nested(fs[i].t) = k
             Sure == \E i \in 1..Len(fs) : Nested(fs[i].t) = "badtag" /\ fs[i].cls = "n" /\ t.f[i].t.k = "struct"
                        /\ fs[i].xif.op = "none" /\ fs[i].xca.op = "none" /\ fs[i].xsw.op = "none" /\ ~fs[i].df
         IN IF st = "bad" \/ (st = "ok" /\ Sure) THEN [k |-> "badtag", g |-> "struct", why |-> IF st = "bad" THEN FieldsWhy(fs) ELSE ""]
            ELSE IF st = "open" \/ Some("badtag") \/ Some("opentag") THEN [k |-> "opentag", g |-> "struct"]
            ELSE [t EXCEPT !.f = fs]
    [] t.k \in {"array", "slice", "ptr"} ->
         LET e == TypeMeant(t.e[1]) IN
         IF e.k \in {"badtag", "opentag"} THEN [k |-> "opentag", g |-> t.g] ELSE [t EXCEPT !.e = <<e>>]
    [] OTHER -> t
================================================================================
