-------------------------------- MODULE ExprMC --------------------------------
(* Exhaustive exploration of expressions in a small scope: every source text      *)
(* that a template of the scope SCOPE makes, in one fixed environment.            *)
(*                                                                              *)
(* A template is a sequence of classes, and a class a set of pieces of text; the  *)
(* pieces are put together without blanks.  The invariants are what the language  *)
(* promises by itself.  Each text is printed with its meaning, to be evaluated by *)
(* the library.                                                                  *)
EXTENDS ExprSyntax, Json, IOUtils

VARIABLES tm,   \* template, not yet chosen: <<>>
          sq,   \* pieces chosen so far
          ph    \* grow, end

vars == <<tm, sq, ph>>

Num(s) == IF s = "1" THEN 1 ELSE IF s = "2" THEN 2 ELSE IF s = "3" THEN 3 ELSE IF s = "4" THEN 4 ELSE IF s = "5" THEN 5 ELSE IF s = "6" THEN 6 ELSE 0
Depth == Num(IOEnv.DEPTH)

--------------------------------------------------------------------------------
(* The environment.                                                             *)
I8 == Ty("int", "int8", 1)
I16 == Ty("int", "int16", 2)
I32 == Ty("int", "int32", 4)
I64 == Ty("int", "int64", 8)
F32 == Ty("float", "float32", 4)
N(nm, t) == [nm |-> nm, cls |-> "n", t |-> t]
TSl(t) == [Ty("slice", "slice", 8) EXCEPT !.e = <<t>>]
TArr(n, t) == [Ty("array", "array", 0) EXCEPT !.n = n, !.e = <<t>>]
TMap(k, t) == [Ty("map", "map", 8) EXCEPT !.e = <<k, t>>]
TFn(nm) == [Ty("fn", "func", 8) EXCEPT !.nm = nm]
FNm(nm, t) == [nm |-> nm, cls |-> "n", t |-> t, bt |-> t, o |-> "n", sk |-> 0, bw |-> 0, va |-> FALSE, iv |-> FALSE, szof |-> "", szfr |-> "", df |-> FALSE]
TSt == [Ty("struct", "struct", 0) EXCEPT !.f = <<FNm("A", TU8), FNm("B", TSl(I16))>>]
St(a) == << <<a>>, << <<0, 7>>, <<255, 254>> >> >>

\* Embedded structs: A is covered, B promoted, C promoted through a pointer, D from
\* two depths down, E found twice at one depth.
Em(nm, t) == FNm(nm, t) @@ [em |-> TRUE]
TStr1 == [Ty("struct", "struct", 0) EXCEPT !.f = <<FNm("D", TBool)>>]
TStr2 == [Ty("struct", "struct", 0) EXCEPT !.f = <<FNm("A", TU16), FNm("B", TU16), FNm("E", I8), Em("J", TStr1)>>]
TStr3 == [Ty("struct", "struct", 0) EXCEPT !.f = <<FNm("C", TU8), FNm("E", I16)>>]
TEm == [Ty("struct", "struct", 0) EXCEPT !.f = <<FNm("A", TU8), Em("G", TStr2), Em("H", TPtr(TStr3))>>]
Emb(p) == << <<4>>, << <<1, 1>>, <<2, 2>>, <<3>>, << <<1>> >> >>, p>>
Layer4 == [f |-> <<FNm("Z", TInt), Em("Y2", TEm)>>, vs |-> << IntBytes(77, 8), Emb(<< << <<6>>, <<0, 7>> >> >>)>>]

Pairs ==
  << <<N("a", TU8), <<200>> >>,
     <<N("b", I16), <<255, 253>> >>,
     <<N("c", TU64), <<128, 0, 0, 0, 0, 0, 0, 5>> >>,
     <<N("d", I64), IntBytes(-7, 8)>>,
     <<N("h", I8), <<128>> >>,
     <<N("u", TU32), <<0, 0, 0, 3>> >>,
     <<N("w", TU16), <<255, 255>> >>,
     <<N("j", I32), <<127, 255, 255, 255>> >>,
     <<N("i", TInt), IntBytes(9, 8)>>,
     <<N("k", TUint), IntBytes(2, 8)>>,
     <<N("e", F32), <<63, 192, 0, 0>> >>,
     <<N("g", TF64), <<191, 208, 0, 0, 0, 0, 0, 0>> >>,
     <<N("z", TU8), <<0>> >>,
     <<N("t", TBool), <<1>> >>,
     <<N("o", TBool), <<0>> >>,
     <<N("s", TStr), <<97, 98>> >>,
     <<N("q", TStr), <<>> >>,
     <<N("v", TArr(2, TU16)), << <<1, 0>>, <<0, 9>> >> >>,
     <<N("l", TSl(TSt)), << St(5), St(6) >> >>,
     <<N("r", TSt), St(1)>>,
     <<N("p", TPtr(TSt)), <<St(3)>> >>,
     <<N("n", TPtr(TU8)), <<>> >>,
     <<N("xa", TEm), Emb(<< << <<5>>, <<0, 9>> >> >>)>>,
     <<N("xb", TEm), Emb(<<>>)>>,
     <<N("xc", TPtr(TEm)), <<Emb(<< << <<8>>, <<1, 9>> >> >>)>> >>,
     <<N("m", TMap(TStr, TU8)), << << <<97>>, <<44>> >> >> >>,
     <<N("f", TFn("addu8")), <<>> >>,
     <<N("half", TFn("half")), <<>> >>,
     <<N("sums", TFn("sums")), <<>> >>,
     <<N("joins", TFn("joins")), <<>> >>,
     <<N("cat", TFn("cat")), <<>> >> >>
Layer1 == [f |-> [x \in 1..Len(Pairs) |-> Pairs[x][1]], vs |-> [x \in 1..Len(Pairs) |-> Pairs[x][2]]]
Layer2 == [f |-> <<N("X", TU8), N("Y", TStr), N("a", TBool)>>, vs |-> << <<3>>, <<120>>, <<1>> >>]
\* several values of each type: named by a letter for the type and a digit
Ints == << <<"A", I8>>, <<"B", I16>>, <<"C", I32>>, <<"D", I64>>, <<"E", TInt>>, <<"F", TU8>>, <<"G", TU16>>, <<"H", TU32>>, <<"I", TU64>>, <<"J", TUint>> >>
Digits == <<"0", "1", "2", "3", "4", "5", "6">>
\* 0, 1, 7, -1 or the greatest, the least or the sign bit, the greatest or one less, a pattern
IntSamples(w) == << Rep(0, w), Rep(0, w - 1) \o <<1>>, Rep(0, w - 1) \o <<7>>, Rep(255, w), <<128>> \o Rep(0, w - 1), <<127>> \o Rep(255, w - 1), Rep(0, w \div 2) \o Rep(165, w - (w \div 2)) >>
Floats == << <<"K", F32, << <<0, 0, 0, 0>>, <<128, 0, 0, 0>>, <<63, 128, 0, 0>>, <<192, 64, 0, 1>>, <<127, 128, 0, 0>>, <<127, 192, 0, 0>>, <<0, 0, 0, 1>> >> >>,
             <<"L", TF64, << Rep(0, 8), <<128, 0, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 8, 0, 0, 0, 0, 0, 1>>, <<255, 240, 0, 0, 0, 0, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 1>>, <<127, 239, 255, 255, 255, 255, 255, 255>> >> >> >>
Strings == << <<"M", TStr, << <<>>, <<97>>, <<97, 98>>, <<98>>, <<97, 0>>, <<255>>, <<97>> >> >>,
              <<"N", TBool, << <<0>>, <<1>>, <<0>>, <<1>>, <<0>>, <<1>>, <<1>> >> >> >>
Families == [x \in 1..10 |-> <<Ints[x][1], Ints[x][2], IntSamples(Ints[x][2].w)>>] \o Floats \o Strings \o << <<"O", TUptr, IntSamples(8)>> >>
Letter(x) == Families[x][1]
Layer3 == [f |-> [x \in 1..(7 * Len(Families)) |-> LET y == Families[((x - 1) \div 7) + 1] IN N("y" \o y[1] \o Digits[((x - 1) % 7) + 1], y[2])],
           vs |-> [x \in 1..(7 * Len(Families)) |-> Families[((x - 1) \div 7) + 1][3][((x - 1) % 7) + 1]]]
Environ == [lay |-> <<Layer1, Layer2, Layer3, Layer4>>, stk |-> <<>>, eof |-> 2, std |-> FALSE]

--------------------------------------------------------------------------------
(* Pieces of text.                                                              *)
Arithmetic == {"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>"}
Comparison == {"==", "!=", "<", "<=", ">", ">="}
Binary == Arithmetic \cup Comparison \cup {"&&", "||"}
\* each class of numbers, strings and so on
Vars == {"a", "b", "c", "d", "h", "u", "w", "j", "i", "k", "e", "g", "z", "t", "o", "s", "q", "p", "n", "v", "r", "f", "X", "nope"}
Consts == {"0", "1", "7", "200", "255", "256", "9223372036854775807", "9223372036854775808", "18446744073709551615",
           "1.5", "0.25", "2.0", "'a'", "\"ab\"", "true", "false", "nil"}

IndexText(y) == ToString(CHOOSE f \in 1..15 : Letter(f) = y)
Class(x) ==
  CASE x = "V" -> Vars
    [] x = "B" -> Binary
    [] x = "U" -> {"+", "-", "!", "^", "*", "&"}
    [] x = "K" -> Consts
    [] x \in {"=1", "=2", "=3", "=4", "=5", "=6", "=7", "=8", "=9", "=10", "=11", "=12", "=13", "=14", "=15"} ->
         { "y" \o (CHOOSE y \in { Letter(f) : f \in 1..15 } : x = "=" \o IndexText(y)) \o Digits[n] : n \in 1..7 }
    [] x = "N" -> { "yF" \o Digits[n] : n \in 1..7 } \cup { "yJ" \o Digits[n] : n \in 1..7 } \cup {"8", "63", "64"}
    [] x = "s" -> {"<<", ">>"}
    [] x = "l" -> {"==", "!=", "&&", "||"}
    [] x = "R" -> {"r", "l", "p", "v", "m", "n", "f", "s", "q"}
    [] x = "." -> {"", ".A", ".B", "[0]", "[1]", "[2]", "[-1]", "[\"a\"]", "(1,2)", "(1)", ".C", "[a]"}
    [] x = "*" -> {"", "*", "&", "*&", "-", "!"}
    [] x = "W" -> {"xa", "xb", "xc", "Y2", "l"}
    [] x = "w" -> {"", ".A", ".B", ".C", ".D", ".E", ".G", ".H", ".J"}
    [] x = "P" -> {"A", "B", "C", "D", "E", "G", "H", "J", "Z", "X"}
    [] x = "(" -> {"("}  [] x = ")" -> {")"}  [] x = "?" -> {"?"}  [] x = ":" -> {":"}
    \* operands that tell the ways apart in which operators may group
    [] x = "L" -> {"7", "i", "t"}
    [] x = "M" -> {"2", "u"}
    [] x = "C" -> {"t", "o", "i"}
    \* one operator of each kind
    [] x = "b" -> {"+", "-", "*", "/", "<<", "&", "&^", "|", "==", "<", "&&", "||"}
    [] x = "u" -> {"-", "!", "^"}
    \* tokens
    [] x = "S" -> {"a", "t", "2", "-", "!", "+", "*", "&&", "==", "?", ":", "(", ")"}
    [] x = "A" -> {"r", "l", "p", "v", "m", "f", ".A", ".B", ".", "[", "]", "(", ")", ",", "0", "1", "\"a\"", "*", "&"}
    [] x = "T" -> {"a", "n", "nope", "f", "int", "nil", "true", "1", "1.5", "'", "'a'", "\"", "$", "(", ")", "[", "]", ".", ",", "?", ":",
                   "+", "-", "*", "&", "^", "|", "<", ">", "=", "!", "~", "#", "\\", " ", ";", "{", "`"}
    \* characters of numbers, and of strings
    [] x = "D" -> {"0", "1", "7", "8", "9", ".", "e", "-", "+", "x", "b", "f", "_", "B", "E", "X"}
    [] x = "d" -> {"0", "1", "8", ".", "e", "x", "f"}
    [] x = "Q" -> {"\"", "$'", "'", "$\""}
    [] x = "q" -> {"\"", "'", ""}
    [] x = "c" -> {"\\", "\"", "'", "n", "x", "u", "0", "4", "1", "f", "a", "$", " "}
    [] x = "E" -> {"\\x41", "\\u0041", "\\U0001F600", "\\101", "\\n", "\\\\", "\\\"", "\\'", "\\a", "\\v", "\\q", "\\400", "\\377", "\\xff", "\\xf", "\\u00e9", "\\ud800", "\\U00110000", "z", "\\t", "\\b", "\\f", "\\r"}

RECURSIVE Times(_, _)
Times(c, k) == IF k = 0 THEN <<>> ELSE <<c>> \o Times(c, k - 1)
UpTo(c, lo, hi) == { Times(c, k) : k \in lo..hi }
Templates(s) ==
  CASE s = "syntax" -> UpTo("S", 1, Depth)
    [] s = "groups" -> { <<"L", "B", "M", "B", "M">>, <<"u", "L", "b", "u", "M">>, <<"u", "u", "L">>, <<"L", "b", "(", "M", "b", "M", ")">>,
                         <<"C", "b", "C", "?", "M", ":", "M">>, <<"C", "?", "M", "b", "M", ":", "i", "b", "M">>, <<"C", "?", "C", "?", "M", ":", "i", ":", "M">>,
                         <<"C", "?", "M", ":", "C", "?", "M", ":", "i">>, <<"(", "C", "?", "M", ":", "M", ")", "b", "M">> }
                       \cup (IF Depth > 3 THEN { <<"L", "b", "M", "b", "M", "b", "M">>, <<"C", "b", "C", "?", "M", "b", "M", ":", "M", "b", "M">> } ELSE {})
    [] s = "ops" -> { <<"V", "B", "V">>, <<"U", "V">>, <<"V">> }
    [] s = "ints" -> { <<"=" \o ToString(f), "B", "=" \o ToString(f)>> : f \in (1..10) \cup {15} } \cup { <<"=" \o ToString(f), "s", "N">> : f \in (1..10) \cup {15} }
                     \cup { <<"U", "=" \o ToString(f)>> : f \in (1..10) \cup {15} }
                     \cup (IF Depth > 3 THEN { <<"u", "=" \o ToString(f), "B", "u", "=" \o ToString(f)>> : f \in (1..10) \cup {15} } ELSE {})
    [] s = "floats" -> { <<"=" \o ToString(f), "B", "=" \o ToString(f)>> : f \in 11..14 } \cup { <<"U", "=" \o ToString(f)>> : f \in 11..14 }
                     \cup { <<"=14", "l", "=14", "?", "=" \o ToString(f), ":", "=" \o ToString(f)>> : f \in (IF Depth > 3 THEN 11..14 ELSE {14}) }
    [] s = "paths" -> { <<"*", "R", ".", ".">>, <<"R", ".", "==", "R", ".">>, <<"f(", "R", ".", ",", "R", ".", ")">> } \cup (IF Depth > 3 THEN { <<"*", "R", ".", ".", ".">> } ELSE {})
    [] s = "embeds" -> { <<"*", "W", "w", "w">>, <<"*", "P", "w">>, <<"W", "w", "==", "P">>, <<"P", "b", "W", "w">> } \cup (IF Depth > 3 THEN { <<"*", "W", "w", "w", "w">>, <<"W", "w", "b", "W", "w">> } ELSE {})
    [] s = "consts" -> { <<"K", "B", "K">>, <<"K", "B", "V">>, <<"V", "B", "K">>, <<"U", "K">>, <<"K">>, <<"u", "K", "b", "V">>,
                         <<"t", "?", "K", ":", "V">>, <<"o", "?", "V", ":", "K">>, <<"f(", "K", ",", "K", ")">>, <<"half(", "K", ")">>, <<"sums(", ")">>, <<"sums(", "K", ")">>, <<"sums(", "K", ",", "K", ")">>, <<"joins(", ")">>, <<"joins(", "K", ",", "K", ")">>, <<"cat(", "K", ",", "K", ")">>, <<"v[", "K", "]">>, <<"m[", "K", "]">> }
                       \cup (IF Depth > 3 THEN { <<"(", "K", "b", "K", ")", "b", "V">>, <<"V", "b", "(", "K", "b", "K", ")">>, <<"-", "(", "K", "b", "K", ")">> } ELSE {})
    [] s = "access" -> UpTo("A", 1, Depth)
    [] s = "text" -> UpTo("T", 1, Depth)
    [] s = "numbers" -> UpTo("D", 1, Depth) \cup UpTo("d", Depth + 1, Depth + 2)
    [] s = "strings" -> { <<"Q">> \o t \o <<"q">> : t \in UpTo("c", 0, Depth) } \cup { <<"Q">> \o t \o <<"q">> : t \in UpTo("E", 1, 2) }
Pieces(x) == IF x \in {"t", "o", "i", "f(", "half(", "cat(", "sums(", "joins(", "v[", "m[", "]", ",", "-", "=="} THEN {x} ELSE Class(x)

--------------------------------------------------------------------------------
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ x \in { SubSeq(Ascii, n, n) : n \in 1..95 } |-> 31 + (CHOOSE n \in 1..95 : SubSeq(Ascii, n, n) = x) ]
RECURSIVE Joined(_, _)
Joined(s, n) == IF n > Len(s) THEN "" ELSE s[n] \o Joined(s, n + 1)
TextOf(s, code) ==
  LET str == Joined(s, 1)  ch == [n \in 1..Len(str) |-> SubSeq(str, n, n)] IN
  [cp |-> [n \in 1..Len(ch) |-> code[ch[n]]], ch |-> ch]

Init == tm = <<>> /\ sq = <<>> /\ ph = "grow"

Choose(Ts(_)) == /\ tm = <<>> /\ ph = "grow" /\ \E x \in Ts(IOEnv.SCOPE) : tm' = x
                 /\ UNCHANGED <<sq, ph>>
Grow(P(_)) == /\ tm # <<>> /\ Len(sq) < Len(tm)
              /\ \E x \in P(tm[Len(sq) + 1]) : sq' = Append(sq, x)
              /\ UNCHANGED <<tm, ph>>
Full == tm # <<>> /\ Len(sq) = Len(tm)
Say(t, e) == PrintT(<<"TEXT", ToJson([c |-> t.cp, s |-> e.st, k |-> e.t.k, g |-> e.t.g, v |-> IF e.st = "ok" THEN e.v ELSE <<>>])>>)
Meaning(t) == Eval(Environ, Parse(t))
CodeTable(x) == CodeOf
Tell(C(_), M(_)) ==
  /\ Full /\ ph = "grow"
  /\ LET t == TextOf(sq, C(0))  e == M(t) IN Say(t, e)
  /\ ph' = "end" /\ UNCHANGED <<tm, sq>>
TellEnv(E(_)) == /\ tm = <<>> /\ ph = "grow" /\ PrintT(<<"ENV", ToJson(E(0).lay)>>) /\ ph' = "end" /\ UNCHANGED <<tm, sq>>
TheEnv(x) == Environ

Next == Choose(Templates) \/ Grow(Pieces) \/ Tell(CodeTable, Meaning) \/ TellEnv(TheEnv)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What the language promises.                                                  *)
\* A value has its type's form.
RECURSIVE Formed(_, _)
Formed(t, v) ==
  CASE t.k \in {"bool", "int", "uint", "float", "ui", "uf", "ub"} -> Len(v) = t.w /\ \A n \in 1..Len(v) : v[n] \in 0..255
    [] t.k \in {"array", "slice"} -> (t.k = "array" => Len(v) = t.n) /\ \A n \in 1..Len(v) : Formed(t.e[1], v[n])
    [] t.k = "struct" -> Len(v) = Len(t.f) /\ \A n \in 1..Len(v) : Formed(t.f[n].t, v[n])
    [] t.k = "ptr" -> Len(v) <= 1 /\ (v # <<>> => Formed(t.e[1], v[1]))
    [] OTHER -> TRUE
\* The tokens of a tree with parentheses around every part.
RECURSIVE Written(_), Args(_, _)
Args(a, n) == IF n > Len(a) THEN <<>> ELSE (IF n > 1 THEN <<Sym(",")>> ELSE <<>>) \o Written(a[n]) \o Args(a, n + 1)
Par(ts) == <<Sym("(")>> \o ts \o <<Sym(")")>>
Written(x) ==
  IF x.op \in Leafs THEN <<Tok(x.op, x.s, x.v)>>
  ELSE Par(CASE x.op = "?:" -> Written(x.a[1]) \o <<Sym("?")>> \o Written(x.a[2]) \o <<Sym(":")>> \o Written(x.a[3])
             [] x.op = "." -> Written(x.a[1]) \o <<Sym("."), Tok("id", x.s, <<>>)>>
             [] x.op = "[]" -> Written(x.a[1]) \o <<Sym("[")>> \o Written(x.a[2]) \o <<Sym("]")>>
             [] x.op = "call" -> Written(x.a[1]) \o <<Sym("(")>> \o Args(Tail(x.a), 1) \o <<Sym(")")>>
             [] Len(x.a) = 1 -> <<Sym(CASE x.op = "u+" -> "+" [] x.op = "u-" -> "-" [] x.op = "u!" -> "!" [] x.op = "u^" -> "^" [] x.op = "u*" -> "*" [] x.op = "u&" -> "&")>> \o Written(x.a[1])
             [] OTHER -> Written(x.a[1]) \o <<Sym(x.op)>> \o Written(x.a[2]))
Symmetric == {"+", "*", "&", "|", "^", "==", "!="}

Check(t) ==
  LET x == Parse(t)  e == Eval(Environ, x) IN
  /\ e.st \in {"ok", "err", "unspec"}
  /\ (e.st = "ok" => Formed(e.t, e.v))
  \* grouping is not changed by writing it out
  /\ (x.op \notin {"bad", "unspec"} => ParseToks(Written(x) \o <<Sym("eof")>>) = x)
  \* the order of the operands does not matter
  /\ (x.op \in Symmetric /\ e.st = "ok" /\ e.t.k # "str" => LET y == Eval(Environ, [x EXCEPT !.a = <<x.a[2], x.a[1]>>]) IN
        y = e \/ (e.t.k \in {"float", "uf"} /\ IsNaN(e.v) /\ IsNaN(y.v)))
Sound(C(_)) == ph = "end" /\ Full => Check(TextOf(sq, C(0)))
Meaningful == Sound(CodeTable)
================================================================================
