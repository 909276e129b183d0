------------------------------- MODULE CodecMC --------------------------------
(* Exhaustive exploration of the codec machine in a small scope: every struct of *)
(* up to LEN units from an alphabet of struct-field idioms, each by itself or     *)
(* (WRAP=1) inside a nested struct, pointer, list, condition, switch and so on,   *)
(* with every choice of the units' sample values, in both byte orders (MODE=enc), *)
(* or with every input of up to INP bytes from a set of interesting bytes         *)
(* (MODE=dec).                                                                    *)
(*                                                                              *)
(* A behaviour grows a struct, then                                              *)
(*   enc  packs the value, unpacks the output, and unpacks the output cut short  *)
(*        at any point (CUTS=1) or followed by more, or into any other value of  *)
(*        the struct (OVER=1)                                                    *)
(*   dec  unpacks the input, packs what came out, unpacks that again             *)
(* The invariants are what the properties promise; they hold by the              *)
(* specification alone.  Each call is printed with what the specification says   *)
(* of it, to be replayed into the library by the harness.                        *)
EXTENDS Codec, Json, IOUtils

VARIABLES sch,   \* units with their values: <<[u, v]>>
          ord,   \* byte order
          ph,    \* grow, then the call that runs: enc dec cut/over / dec renc rdec, then end
          m,     \* the machine
          one,   \* the value or bytes that were packed first
          two,   \* what came out
          bits   \* exact number of bits of the encoding

vars == <<sch, ord, ph, m, one, two, bits>>

Number(s) == IF s = "1" THEN 1 ELSE IF s = "2" THEN 2 ELSE IF s = "3" THEN 3 ELSE IF s = "4" THEN 4 ELSE 0
MaxLen == Number(IOEnv.LEN)
MaxInp == Number(IOEnv.INP)
Cuts == IOEnv.CUTS = "1"
Over == IOEnv.OVER = "1"
Off == IOEnv.OFF = "1"    \* expressions are not enabled
Mode == IOEnv.MODE

--------------------------------------------------------------------------------
(* The units.  P is the prefix of the names of the unit at a position.           *)
Prefix == <<"A", "B", "C", "D">>
X(op, s, v, a) == [op |-> op, s |-> s, v |-> v, a |-> a]
Nm(s) == X("id", s, <<>>, <<>>)
Lit(n) == X("int", "", IntBytes(n, 9), <<>>)
Op1(o, a) == X(o, "", <<>>, <<a>>)
Op2(o, a, b) == X(o, "", <<>>, <<a, b>>)
Member(a, s) == X(".", s, <<>>, <<a>>)
Slice(t) == [Ty("slice", "slice", 8) EXCEPT !.e = <<t>>]
Array(n, t) == [Ty("array", "array", 0) EXCEPT !.n = n, !.e = <<t>>]
Struct(f) == [Ty("struct", "struct", 0) EXCEPT !.f = f]
Cu(nm) == [Ty("cu", CASE nm = "CuN" -> "uint16" [] nm = "CuA" -> "array" [] nm = "CuS" -> "slice" [] nm = "CuR" -> "map" [] OTHER -> "struct", 0) EXCEPT !.nm = nm]
\* types with only an encoding or a decoding of their own
Half(nm) == IF nm \in {"CuT", "CuY"}
  THEN [Ty("struct", "struct", 0) EXCEPT !.nm = nm, !.f = <<[ElemField(TU8, TU8) EXCEPT !.nm = "A"], [ElemField(TU16, TU16) EXCEPT !.nm = "B"]>>]
  ELSE [TU16 EXCEPT !.nm = nm]
I8 == Ty("int", "int8", 1)
I16 == Ty("int", "int16", 2)
I32 == Ty("int", "int32", 4)
F32 == Ty("float", "float32", 4)

NF(nm, t) == [ElemField(t, t) EXCEPT !.nm = nm]
BF(nm, t, bt) == [ElemField(bt, t) EXCEPT !.nm = nm]
EF(nm, t) == NF(nm, t) @@ [em |-> TRUE]
U8(nm) == NF(nm, TU8)
U16(nm) == NF(nm, TU16)
Unit(f, v) == [f |-> f, v |-> v]
\* a single field with sample values
One(f, vs) == Unit(<<f>>, { <<v>> : v \in vs })

UnitOf(u, P) ==
  LET N == P \o "n"  S == P \o "s"  Q == P \o "q" IN
  CASE u = "u8" -> One(U8(N), {<<0>>, <<200>>})
    [] u = "u16" -> One(U16(N), {<<1, 2>>, <<128, 0>>})
    [] u = "i32" -> One(NF(N, I32), {<<255, 255, 255, 254>>, <<0, 1, 2, 3>>})
    [] u = "int" -> One(NF(N, TInt), {IntBytes(5, 8), Rep(255, 8)})
    [] u = "u64" -> One(NF(N, TU64), {<<1, 2, 3, 4, 5, 6, 7, 8>>})
    [] u = "f32" -> One(NF(N, F32), {<<63, 128, 0, 1>>, <<128, 0, 0, 0>>, <<127, 224, 0, 1>>})
    [] u = "f64" -> One(NF(N, TF64), {<<192, 9, 33, 251, 84, 68, 45, 24>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 1>>})
    [] u = "narrow" -> One(BF(N, TU32, TU8), {<<0, 0, 0, 7>>})
    [] u = "widen" -> One(BF(N, I8, I32), {<<254>>, <<3>>})
    [] u = "ptr" -> One(NF(N, TPtr(TU16)), {<< <<3, 4>> >>})
    [] u = "ptrn" -> One(NF(N, TPtr(TU16)), {<<>>})   \* nil: takes no space, and can not be told from one that is there
    [] u = "ptrk" -> One([NF(N, TPtr(TU8)) EXCEPT !.sk = 1], {<<>>, << <<3>> >>})
    [] u = "empty" -> One(NF(N, Struct(<<>>)), {<<>>})
    [] u = "arr0" -> One(NF(N, Array(0, TU16)), {<<>>})
    [] u = "pstruct" -> One(NF(N, TPtr(Struct(<<U8("A"), U16("B")>>))), { << << <<1>>, <<2, 3>> >> >> })
    [] u = "nest" -> One(NF(N, Struct(<<U16("A"), NF("B", Struct(<<U8("A")>>))>>)), { << <<1, 2>>, << <<3>> >> >> })
    [] u = "arr" -> One(NF(N, Array(2, TU16)), { << <<1, 2>>, <<3, 4>> >> })
    [] u = "arrs" -> One(NF(N, Array(2, Struct(<<U8("A"), U16("B")>>))), { << << <<9>>, <<1, 2>> >>, << <<8>>, <<3, 4>> >> >> })
    \* bit fields
    [] u = "b1" -> One([U8(N) EXCEPT !.bw = 1], {<<0>>, <<1>>})
    [] u = "b3" -> One([U8(N) EXCEPT !.bw = 3], {<<2>>, <<7>>})
    [] u = "b5" -> One([U8(N) EXCEPT !.bw = 5], {<<19>>})
    [] u = "b8" -> One([U16(N) EXCEPT !.bw = 8], {<<0, 163>>, <<1, 163>>})
    [] u = "b11" -> One([U16(N) EXCEPT !.bw = 11], {<<4, 129>>, <<7, 255>>})
    [] u = "b17l" -> One([NF(N, TU32) EXCEPT !.bw = 17, !.o = "l"], {<<0, 1, 2, 131>>})
    [] u = "b12b" -> One([U16(N) EXCEPT !.bw = 12, !.o = "b"], {<<9, 35>>})
    [] u = "b33" -> One([NF(N, TU64) EXCEPT !.bw = 33], {<<0, 0, 0, 1, 130, 3, 4, 165>>})
    [] u = "bin9" -> One([BF(N, TU64, TU16) EXCEPT !.bw = 9], {<<0, 0, 0, 0, 0, 0, 1, 70>>})
    [] u = "bov" -> One([U8(N) EXCEPT !.bw = 4], {<<255>>})   \* more bits than fit
    \* booleans
    [] u = "bool" -> One(NF(N, TBool), {<<0>>, <<1>>})
    [] u = "vbool" -> One([BF(N, TBool, TU16) EXCEPT !.va = TRUE], {<<0>>, <<1>>})
    [] u = "ibool" -> One([NF(N, TBool) EXCEPT !.iv = TRUE], {<<0>>, <<1>>})
    [] u = "vibool" -> One([BF(N, TBool, I32) EXCEPT !.va = TRUE, !.iv = TRUE], {<<0>>, <<1>>})
    [] u = "bool1" -> One([BF(N, TBool, TU8) EXCEPT !.bw = 1], {<<0>>, <<1>>})
    [] u = "vbool3" -> One([BF(N, TBool, TU8) EXCEPT !.bw = 3, !.va = TRUE], {<<0>>, <<1>>})
    [] u = "bools" -> One(BF(N, Array(2, TBool), Array(2, TU8)), {<< <<1>>, <<0>> >>})
    \* fixed sizes
    [] u = "str3" -> One(BF(N, TStr, Array(3, TU8)), {<<>>, <<65>>, <<65, 66, 67>>, <<65, 66, 67, 68>>})
    [] u = "sl2" -> One(BF(N, Slice(TU16), Array(2, TU16)), {<< <<1, 2>>, <<3, 4>> >>, << <<1, 2>>, <<3, 4>>, <<5, 6>> >>})
    [] u = "sls2" -> One(BF(N, Slice(TBool), Array(3, TU8)), {<< <<1>>, <<0>>, <<1>> >>, << <<1>> >>})
    [] u = "arr3" -> One(NF(N, Array(3, TU8)), {<< <<1>>, <<0>>, <<3>> >>})
    \* skips and ignored fields
    [] u = "skip" -> One([U8(N) EXCEPT !.sk = 1], {<<7>>})
    [] u = "skip2b" -> One([U8(N) EXCEPT !.sk = 2, !.bw = 4], {<<9>>})
    [] u = "blank" -> One([NF("_", TU16) EXCEPT !.cls = "b"], {<<0, 0>>})
    [] u = "blank3" -> One([NF("_", Array(3, TU8)) EXCEPT !.cls = "b"], {<< <<0>>, <<0>>, <<0>> >>})
    [] u = "blankb" -> One([U8("_") EXCEPT !.cls = "b", !.bw = 5], {<<0>>})
    [] u = "dash" -> One([U16(N) EXCEPT !.cls = "x"], {<<0, 0>>})
    \* counters
    [] u = "cnt8" -> Unit(<<[U8(N) EXCEPT !.szof = S], NF(S, Slice(TU8))>>,
         { << <<0>>, <<>> >>, << <<2>>, << <<5>>, <<6>> >> >>, << <<9>>, << <<5>> >> >> })
    [] u = "cnt16" -> Unit(<<U16(N), [NF(S, Slice(TU16)) EXCEPT !.szfr = N]>>,
         { << <<0, 0>>, <<>> >>, << <<0, 1>>, << <<5, 6>> >> >> })
    [] u = "cnts" -> Unit(<<[U8(N) EXCEPT !.szof = S], NF(S, TStr)>>,
         { << <<0>>, <<>> >>, << <<3>>, <<97, 0, 99>> >> })
    [] u = "cntst" -> Unit(<<[U8(N) EXCEPT !.szof = S], NF(S, Slice(Struct(<<U8("A"), U16("B")>>)))>>,
         { << <<0>>, <<>> >>, << <<2>>, << << <<1>>, <<2, 3>> >>, << <<4>>, <<5, 6>> >> >> >> })
    [] u = "cntb" -> Unit(<<[U8(N) EXCEPT !.szof = S, !.bw = 4], [U8(Q) EXCEPT !.bw = 4], NF(S, Slice(TU8))>>,
         { << <<1>>, <<9>>, << <<5>> >> >>, << <<0>>, <<15>>, << >> >> })
    [] u = "cnt1" -> Unit(<<[U8(N) EXCEPT !.szof = S, !.bw = 1], NF(S, Slice(TBool))>>,
         { << <<1>>, << <<1>> >> >>, << <<0>>, << <<1>>, <<0>> >> >> })   \* the second does not fit
    [] u = "cnti8" -> Unit(<<NF(N, I8), U8(Q), [NF(S, TStr) EXCEPT !.szfr = N]>>,
         { << <<2>>, <<1>>, <<98, 97>> >> })
    [] u = "cntw" -> Unit(<<[BF(N, I16, I8) EXCEPT !.szof = S], NF(S, TStr)>>,
         { << <<0, 0>>, Rep(97, 127)>>, << <<0, 0>>, Rep(97, 128)>> })   \* the second does not fit on the wire
    [] u = "cntn" -> Unit(<<[BF(N, I8, I16) EXCEPT !.szof = S], NF(S, TStr)>>,
         { << <<0>>, Rep(97, 127)>>, << <<0>>, Rep(97, 128)>> })   \* the second does not fit in memory
    [] u = "cnt5" -> Unit(<<[U16(N) EXCEPT !.szof = S, !.bw = 5], U8(Q), NF(S, Slice(TU8))>>,
         { << <<0, 0>>, <<1>>, [i \in 1..31 |-> <<i>>]>>, << <<0, 0>>, <<1>>, [i \in 1..32 |-> <<i>>]>> })
    \* one counter of two fields: an error if they differ; two counters of a field
    [] u = "cntab" -> Unit(<<U8(N), [NF(S, Slice(TU8)) EXCEPT !.szfr = N], [NF(Q, TStr) EXCEPT !.szfr = N]>>,
         { << <<7>>, << <<5>>, <<6>> >>, <<97, 98>> >>, << <<1>>, << <<5>> >>, <<97, 98>> >>, << <<1>>, <<>>, <<>> >> })
    [] u = "cntba" -> Unit(<<[U8(N) EXCEPT !.szof = S], NF(S, TStr), [NF(Q, Slice(TU16)) EXCEPT !.szfr = N]>>,
         { << <<7>>, <<97>>, << <<5, 6>> >> >>, << <<1>>, <<97>>, <<>> >> })
    [] u = "cnt2" -> Unit(<<[U8(N) EXCEPT !.szof = S], [NF(Q, I16) EXCEPT !.szof = S], NF(S, Slice(TU8))>>,
         { << <<7>>, <<0, 9>>, << <<5>>, <<6>> >> >> })
    \* conditions
    [] u = "ifb" -> Unit(<<NF(N, TBool), [U16(S) EXCEPT !.xif = Nm(N)]>>,
         { << <<0>>, <<0, 0>> >>, << <<1>>, <<6, 7>> >> })
    [] u = "ifst" -> Unit(<<U8(N), [NF(S, Struct(<<U8("A"), U16("B")>>)) EXCEPT !.xif = Op2("!=", Op2("&", Nm(N), Lit(4)), Lit(0))]>>,
         { << <<3>>, << <<0>>, <<0, 0>> >> >>, << <<4>>, << <<6>>, <<7, 8>> >> >> })
    [] u = "ifsk" -> Unit(<<U8(N), [U8(S) EXCEPT !.xif = Op2(">", Nm(N), Lit(1)), !.sk = 1]>>,
         { << <<1>>, <<0>> >>, << <<2>>, <<9>> >> })
    [] u = "ifbit" -> Unit(<<[U8(N) EXCEPT !.bw = 4], [U8(S) EXCEPT !.xif = Op2("==", Nm(N), Lit(1)), !.bw = 4]>>,
         { << <<1>>, <<9>> >>, << <<2>>, <<0>> >> })
    [] u = "ifn" -> Unit(<<NF(N, Struct(<<U8("A"), NF("B", Struct(<<[U8("C") EXCEPT !.xif = Op2("==", Nm("A"), Lit(1))]>>))>>)),
                           [U8(S) EXCEPT !.xif = Op2("==", Member(Nm(N), "A"), Lit(1))]>>,
         { << << <<1>>, << <<9>> >> >>, <<8>> >>, << << <<0>>, << <<0>> >> >>, <<0>> >> })
    [] u = "ifcnt" -> Unit(<<U8(Q), [U8(N) EXCEPT !.szof = S, !.xif = Op2("==", Nm(Q), Lit(1))], [NF(S, Slice(TU8)) EXCEPT !.xif = Op2("==", Nm(Q), Lit(1))]>>,
         { << <<0>>, <<0>>, <<>> >>, << <<1>>, <<1>>, << <<7>> >> >> })
    \* embedded structs: promoted, through a pointer, covered, from two depths, ambiguous
    [] u = "emb" -> Unit(<<EF(N, Struct(<<U8(Q)>>)), [U16(S) EXCEPT !.xif = Op2("==", Nm(Q), Lit(1))]>>,
         { << << <<1>> >>, <<6, 7>> >>, << << <<2>> >>, <<0, 0>> >> })
    [] u = "embp" -> Unit(<<EF(N, TPtr(Struct(<<U8(Q)>>))), [U8(S) EXCEPT !.xif = Op2("==", Nm(Q), Lit(1))]>>,
         { << << << <<1>> >> >>, <<6>> >>, << << << <<2>> >> >>, <<0>> >>, << <<>>, <<0>> >> })
    [] u = "embs" -> Unit(<<EF(N, Struct(<<U8(Q), U8(S)>>)), U8(Q), [NF(P \o "z", Slice(TU8)) EXCEPT !.xsz = Op2("+", Nm(Q), Nm(S))]>>,
         { << << <<9>>, <<1>> >>, <<1>>, << <<6>>, <<7>> >> >> })
    [] u = "emb2" -> Unit(<<EF(N, Struct(<<U8("A"), EF(Q, Struct(<<[U8(S) EXCEPT !.bw = 4]>>))>>)), [U8(P \o "z") EXCEPT !.xbi = Nm(S)]>>,
         { << << <<7>>, << <<4>> >> >>, <<9>> >> })
    [] u = "emba" -> Unit(<<EF(N, Struct(<<U8("A")>>)), EF(S, Struct(<<U8("A")>>)), [U8(Q) EXCEPT !.xif = Op2("==", Nm("A"), Lit(1))]>>,
         { << << <<1>> >>, << <<1>> >>, <<1>> >> })
    [] u = "embw" -> Unit(<<EF(N, Struct(<<U8(Q)>>)), [NF(S, Struct(<<[U8("A") EXCEPT !.xca = Lit(1)], [U16("B") EXCEPT !.df = TRUE]>>)) EXCEPT !.xsw = Nm(Q)]>>,
         { << << <<1>> >>, << <<6>>, <<0, 0>> >> >>, << << <<2>> >>, << <<0>>, <<6, 7>> >> >> })
    \* size and bits
    [] u = "size" -> Unit(<<U8(N), [NF(S, Slice(TU8)) EXCEPT !.xsz = Op2("+", Nm(N), Lit(1))]>>,
         { << <<0>>, << <<4>> >> >>, << <<1>>, << <<4>>, <<5>> >> >>, << <<1>>, << <<4>> >> >> })
    [] u = "sizes" -> Unit(<<U8(N), [NF(S, TStr) EXCEPT !.xsz = Nm(N)]>>,
         { << <<0>>, <<>> >>, << <<2>>, <<4, 5>> >> })
    [] u = "bits" -> Unit(<<U8(N), [U16(S) EXCEPT !.xbi = Nm(N)]>>,
         { << <<3>>, <<0, 5>> >>, << <<11>>, <<4, 129>> >>, << <<16>>, <<200, 1>> >>, << <<0>>, <<200, 1>> >>, << <<17>>, <<0, 1>> >> })
    \* switches
    [] u = "sw" -> Unit(<<U8(N), [NF(S, Struct(<<[U8("A") EXCEPT !.xca = Lit(1)], [U16("B") EXCEPT !.xca = Lit(2)], [U8("C") EXCEPT !.df = TRUE]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<1>>, << <<5>>, <<0, 0>>, <<0>> >> >>, << <<2>>, << <<0>>, <<6, 7>>, <<0>> >> >>, << <<3>>, << <<0>>, <<0, 0>>, <<8>> >> >> })
    [] u = "swn" -> Unit(<<U8(N), [NF(S, Struct(<<[NF("A", Struct(<<U8("E"), U16("F")>>)) EXCEPT !.xca = Lit(1)], [U16("B") EXCEPT !.xca = Lit(1)]>>)) EXCEPT !.xsw = Nm(N), !.sk = 1]>>,
         { << <<1>>, << << <<5>>, <<6, 7>> >>, <<0, 0>> >> >>, << <<2>>, << << <<0>>, <<0, 0>> >>, <<0, 0>> >> >> })
    [] u = "swb" -> Unit(<<NF(N, TBool), [NF(S, Struct(<<[NF("A", Slice(TU8)) EXCEPT !.xca = X("bool", "", <<1>>, <<>>), !.xsz = Lit(2)], [U16("B") EXCEPT !.df = TRUE, !.bw = 12]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<1>>, << << <<5>>, <<6>> >>, <<0, 0>> >> >>, << <<0>>, << <<>>, <<9, 35>> >> >> })
    [] u = "swif" -> Unit(<<U8(N), [NF(S, Struct(<<[U8("A") EXCEPT !.df = TRUE], [U16("B") EXCEPT !.xca = Lit(2), !.xif = Op2("==", Nm(N), Lit(2))]>>)) EXCEPT !.xsw = Op2("&", Nm(N), Lit(3)), !.xif = Op2("<", Nm(N), Lit(8))]>>,
         { << <<6>>, << <<0>>, <<0, 0>> >> >>, << <<2>>, << <<0>>, <<6, 7>> >> >>, << <<8>>, << <<0>>, <<0, 0>> >> >>, << <<1>>, << <<3>>, <<0, 0>> >> >> })
    [] u = "swp" -> Unit(<<U8(N), [NF(S, Struct(<<[NF("A", TPtr(TU8)) EXCEPT !.xca = Lit(1)], [NF("B", TPtr(Struct(<<U16("E")>>))) EXCEPT !.df = TRUE]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<1>>, << << <<5>> >>, <<>> >> >>, << <<2>>, << <<>>, << << <<6, 7>> >> >> >> >>, << <<0>>, << <<>>, <<>> >> >> })
    \* these are none: two defaults, and a field that is no case
    [] u = "swdd" -> Unit(<<U8(N), [NF(S, Struct(<<[NF("A", TPtr(TU8)) EXCEPT !.df = TRUE], [NF("B", TPtr(TU16)) EXCEPT !.df = TRUE]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<1>>, << <<>>, <<>> >> >> })
    [] u = "swdc" -> Unit(<<U8(N), [NF(S, Struct(<<[U8("A") EXCEPT !.df = TRUE], [U8("B") EXCEPT !.xca = Lit(1)], [U16("C") EXCEPT !.df = TRUE]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<0>>, << <<1>>, <<2>>, <<3, 4>> >> >> })
    [] u = "swnc" -> Unit(<<U8(N), [NF(S, Struct(<<U8("A"), [U8("B") EXCEPT !.xca = Lit(1)]>>)) EXCEPT !.xsw = Nm(N)]>>,
         { << <<1>>, << <<0>>, <<5>> >> >> })
    \* byte orders
    [] u = "ol" -> One([U16(N) EXCEPT !.o = "l"], {<<1, 2>>})
    [] u = "ob" -> One([NF(N, TU32) EXCEPT !.o = "b"], {<<1, 2, 3, 4>>})
    [] u = "olnest" -> One([NF(N, Struct(<<U16("A"), [U16("B") EXCEPT !.o = "b"], NF("C", Struct(<<U16("D")>>))>>)) EXCEPT !.o = "l"], {<< <<1, 2>>, <<3, 4>>, << <<5, 6>> >> >>})
    [] u = "obnest" -> One([NF(N, Struct(<<U16("A"), [U16("B") EXCEPT !.o = "l"], NF("C", Struct(<<U16("D")>>))>>)) EXCEPT !.o = "b"], {<< <<1, 2>>, <<3, 4>>, << <<5, 6>> >> >>})
    [] u = "oarr" -> One([NF(N, Array(2, Struct(<<U16("A")>>))) EXCEPT !.o = "l"], {<< << <<1, 2>> >>, << <<3, 4>> >> >>})
    [] u = "optr" -> One([NF(N, TPtr(TU16)) EXCEPT !.o = "b"], {<< <<3, 4>> >>})
    [] u = "osw" -> Unit(<<U8(N), [NF(S, Struct(<<[U16("A") EXCEPT !.xca = Lit(1)], [U16("B") EXCEPT !.df = TRUE, !.o = "b"]>>)) EXCEPT !.xsw = Nm(N), !.o = "l"]>>,
         { << <<1>>, << <<5, 6>>, <<0, 0>> >> >>, << <<2>>, << <<0, 0>>, <<6, 7>> >> >> })
    [] u = "ocu" -> One([NF(N, Cu("CuN")) EXCEPT !.o = "l"], {<<1, 2>>})
    \* while
    [] u = "wh" -> One([NF(N, Slice(TU8)) EXCEPT !.xwh = Op1("u!", Nm("_eof"))], {<<>>, << <<3>>, <<4>> >>})
    [] u = "whs" -> One([NF(N, Slice(Struct(<<U8("A"), [U8("B") EXCEPT !.xif = Op2("==", Nm("A"), Lit(1))]>>))) EXCEPT !.xwh = Op1("u!", Nm("_eof"))],
         {<< << <<1>>, <<4>> >>, << <<2>>, <<0>> >> >>})
    [] u = "wha" -> One([BF(N, Array(2, TU16), Slice(TU16)) EXCEPT !.xwh = Op1("u!", Nm("_eof"))], {<< <<3, 5>>, <<4, 6>> >>})
    \* in and out
    [] u = "io" -> One([U8(N) EXCEPT !.xin = Op2("+", Nm(N), Lit(3)), !.xou = Op2("-", Nm(N), Lit(3))], {<<5>>, <<1>>})
    [] u = "iox" -> Unit(<<U16(Q), [U16(N) EXCEPT !.xin = Op2("^", Nm(N), Nm(Q)), !.xou = Op2("^", Nm(N), Nm(Q))]>>, {<< <<1, 2>>, <<5, 5>> >>})
    [] u = "io4" -> One([U8(N) EXCEPT !.bw = 4, !.xin = Op2("<<", Nm(N), Lit(4)), !.xou = Op2(">>", Nm(N), Lit(4))], {<<160>>})
    [] u = "ioif" -> Unit(<<[U8(N) EXCEPT !.xin = Op2("+", Nm(N), Lit(1)), !.xou = Op2("-", Nm(N), Lit(1))], [U8(S) EXCEPT !.xif = Op2("==", Nm(N), Lit(1))]>>,
         {<< <<1>>, <<7>> >>, << <<2>>, <<0>> >>})
    \* custom codecs
    [] u = "cuu" -> One(NF(N, Half("CuU")), {<<1, 2>>, <<238, 1>>})
    [] u = "cut" -> One(NF(N, Half("CuT")), { << <<1>>, <<2, 3>> >> })
    [] u = "cuw" -> One(NF(N, Half("CuW")), {<<1, 2>>, <<238, 1>>})
    [] u = "cuy" -> One(NF(N, Half("CuY")), { << <<1>>, <<2, 3>> >>, << <<238>>, <<2, 3>> >> })
    [] u = "cuz" -> One(NF(N, Array(2, Half("CuZ"))), { << <<1, 2>>, <<3, 4>> >> })
    [] u = "cuua" -> One([NF(N, Array(2, Half("CuU"))) EXCEPT !.o = "l"], { << <<1, 2>>, <<3, 4>> >> })
    [] u = "cuws" -> Unit(<<[U8(S) EXCEPT !.szof = N], NF(N, Slice(Half("CuW")))>>, { << <<0>>, << <<1, 2>>, <<3, 4>> >> >> })
    [] u = "cupad" -> One(BF(N, Slice(Cu("CuN")), Array(2, TU16)), { << <<1, 2>> >>, <<>> })
    [] u = "cuupad" -> One(BF(N, Slice(Half("CuU")), Array(2, TU16)), { << <<1, 2>> >> })
    [] u = "cun" -> One(NF(N, Cu("CuN")), {<<1, 2>>, <<238, 1>>})
    [] u = "cus" -> One(NF(N, Cu("CuS")), {<<>>, <<1, 2>>})
    [] u = "cua" -> One([NF(N, Cu("CuA")) EXCEPT !.sk = 1], {<<7, 8>>})
    [] u = "cuns" -> Unit(<<[U8(N) EXCEPT !.szof = S], NF(S, Slice(Cu("CuN")))>>, {<< <<2>>, << <<1, 2>>, <<3, 4>> >> >>})
    [] u = "cunp" -> One(NF(N, TPtr(Cu("CuA"))), {<< <<7, 8>> >>})
    [] u = "cuif" -> Unit(<<NF(N, TBool), [NF(S, Cu("CuN")) EXCEPT !.xif = Nm(N)]>>, {<< <<0>>, <<0, 0>> >>, << <<1>>, <<5, 6>> >>})

Alphabet ==
  CASE IOEnv.ALPHA = "layout" -> {"u8", "u16", "i32", "int", "u64", "f32", "f64", "narrow", "widen", "ptr", "ptrn", "empty", "arr0", "pstruct", "nest", "arr", "arrs"}
    [] IOEnv.ALPHA = "bits" -> {"u8", "b1", "b3", "b5", "b8", "b11", "b17l", "b12b", "b33", "bin9", "bov", "cnt8", "arrs"}
    [] IOEnv.ALPHA = "bools" -> {"bool", "vbool", "ibool", "vibool", "bool1", "vbool3", "bools", "u8", "b3"}
    [] IOEnv.ALPHA = "fixed" -> {"str3", "sl2", "sls2", "arr3", "u8", "b3"}
    [] IOEnv.ALPHA = "skips" -> {"skip", "skip2b", "blank", "blank3", "blankb", "dash", "ptrk", "u8", "b3", "b5", "nest"}
    [] IOEnv.ALPHA = "counts" -> {"cnt8", "cnt16", "cnts", "cntst", "cntb", "cnt1", "cnti8", "cntw", "cntn", "cnt5", "cntab", "cntba", "cnt2", "u8", "b3", "ifcnt"}
    [] IOEnv.ALPHA = "embeds" -> {"emb", "embp", "embs", "emb2", "emba", "embw", "u8", "ifb"}
    [] IOEnv.ALPHA = "conds" -> {"ifb", "ifst", "ifsk", "ifbit", "ifn", "ifcnt", "u8", "b3"}
    [] IOEnv.ALPHA = "sizes" -> {"size", "sizes", "bits", "u8", "b3", "cnt8"}
    [] IOEnv.ALPHA = "switches" -> {"sw", "swn", "swb", "swif", "swp", "swdd", "swdc", "swnc", "u8", "b3"}
    [] IOEnv.ALPHA = "orders" -> {"ol", "ob", "olnest", "obnest", "oarr", "optr", "osw", "ocu", "u16", "b11"}
    [] IOEnv.ALPHA = "whiles" -> {"wh", "whs", "wha", "u8", "b3", "cnt8"}
    [] IOEnv.ALPHA = "inouts" -> {"io", "iox", "io4", "ioif", "u8", "b3"}
    [] IOEnv.ALPHA = "customs" -> {"cun", "cus", "cua", "cuns", "cunp", "cuif", "cuu", "cut", "cuw", "cuy", "cuz", "cuua", "cuws", "cupad", "cuupad", "u8", "ol"}
    [] IOEnv.ALPHA = "mix" -> {"u16", "f32", "b3", "b5", "b11", "vbool", "str3", "skip", "blank", "cnt8", "ifb", "size", "bits", "sw", "ol", "io", "cun", "ptr", "wh"}

\* whose encodings do not tell if they are there
Nils == {"ptrn", "ptrk", "swp", "embp"}
\* that never can be packed
Invalid == {"swdd", "swdc", "swnc"}

(* What a unit may be put into: a struct that is a field (s), behind a pointer     *)
(* (p), an element of an array (a), of a counted slice (c) or a sized slice (z),   *)
(* under another byte order (l, b), conditional (i), skipped to (k), a case of a   *)
(* switch (w).                                                                    *)
Wraps == IF IOEnv.WRAP = "1" THEN {"", "s", "p", "a", "c", "z", "l", "b", "i", "k", "w"} ELSE {""}
Wrapped(u, w, P) ==
  LET un == UnitOf(u, P)  t == Struct(un.f)  C == P \o "c"  W == P \o "w"
      both == { <<v, x>> : v \in un.v, x \in un.v }
  IN
  CASE w = "" -> un
    [] w = "s" -> One(NF(W, t), un.v)
    [] w = "p" -> One(NF(W, TPtr(t)), { <<v>> : v \in un.v })
    [] w = "a" -> One(NF(W, Array(2, t)), both)
    [] w = "c" -> Unit(<<[U8(C) EXCEPT !.szof = W], NF(W, Slice(t))>>, { << <<2>>, v >> : v \in both })
    [] w = "z" -> One([NF(W, Slice(t)) EXCEPT !.xsz = Lit(2)], both)
    [] w = "l" -> One([NF(W, t) EXCEPT !.o = "l"], un.v)
    [] w = "b" -> One([NF(W, t) EXCEPT !.o = "b"], un.v)
    [] w = "i" -> Unit(<<U8(C), [NF(W, t) EXCEPT !.xif = Op2("==", Nm(C), Lit(1))]>>, { << <<1>>, v >> : v \in un.v } \cup { << <<2>>, Zero(t) >> })
    [] w = "k" -> One([NF(W, t) EXCEPT !.sk = 1], un.v)
    [] w = "w" -> Unit(<<U8(C), [NF(W, Struct(<<[U8("Z") EXCEPT !.df = TRUE], [NF(W, t) EXCEPT !.xca = Lit(1)]>>)) EXCEPT !.xsw = Nm(C)]>>,
                       { << <<1>>, << <<0>>, v >> >> : v \in un.v } \cup { << <<2>>, << <<7>>, Zero(t) >> >> })

FieldsOf(s) == Flat([i \in 1..Len(s) |-> Wrapped(s[i].u, s[i].w, Prefix[i]).f], 1, <<>>)
RECURSIVE Values(_, _)
Values(s, i) ==
  IF i > Len(s) THEN {<<>>}
  ELSE { v \o x : v \in Wrapped(s[i].u, s[i].w, Prefix[i]).v, x \in Values(s, i + 1) }
ValueOf(s) == Flat([i \in 1..Len(s) |-> s[i].v], 1, <<>>)
TypeOf(s) == IF Off THEN Without(Struct(FieldsOf(s))) ELSE Struct(FieldsOf(s))

--------------------------------------------------------------------------------
Bytes == {<<>>} \cup UNION { [1..n -> {0, 1, 2, 129, 255}] : n \in 1..MaxInp }
AsSeq(f) == [i \in 1..Len(f) |-> f[i]]

Init == sch = <<>> /\ ord = "b" /\ ph = "grow" /\ m = <<>> /\ one = <<>> /\ two = <<>> /\ bits = 0

\* one more unit; the values are those of encoded structs only
Grow(U(_, _, _), A(_)) ==
  /\ ph = "grow" /\ Len(sch) < MaxLen
  /\ \E u \in A(0), w \in Wraps :
       \E v \in (IF Mode = "enc" THEN U(u, w, Prefix[Len(sch) + 1]).v ELSE {<<>>}) :
         sch' = Append(sch, [u |-> u, w |-> w, v |-> v])
  /\ UNCHANGED <<ord, ph, m, one, two, bits>>

Begin(T(_), V(_)) ==
  /\ ph = "grow" /\ Len(sch) > 0
  /\ ord' \in {"b", "l"}
  /\ IF Mode = "enc"
     THEN /\ ph' = "enc" /\ one' = V(sch)
          /\ m' = Machine("enc", T(sch), V(sch), <<>>, ord', {})
          /\ bits' = SizeBits(T(sch), V(sch))
     ELSE /\ ph' = "dec" /\ bits' = 0
          /\ one' \in Bytes
          /\ m' = Machine("dec", T(sch), Zero(T(sch)), one', ord', {})
  /\ UNCHANGED <<sch, two>>

Live == ph \notin {"grow", "told"}
Running == Live /\ m.st = "run"
Run(S(_)) == Running /\ m' = S(m) /\ UNCHANGED <<sch, ord, ph, one, two, bits>>

\* What the specification says of the call that has ended.
Say(x) == PrintT(<<"CALL", ToJson([p |-> ph, u |-> [i \in 1..Len(sch) |-> sch[i].u \o "." \o sch[i].w], o |-> ord, m |-> m.mode, x |-> x, i |-> m.inp,
                        s |-> m.st, r |-> m.res, b |-> IF m.mode = "enc" /\ m.st = "ok" THEN Output(m) ELSE <<>>,
                        n |-> bits, c |-> m.calls, w |-> m.why])>>)
Stop(St(_), Ds(_, _)) ==
  /\ ph \in {"enc", "dec", "cut", "more", "over", "renc", "rdec"} /\ m.st # "run"
  /\ LET T == St(sch)
         D(s) == Ds(s, 1)
         go(p, mm) == ph' = p /\ m' = mm
         unpack(p, inp) == go(p, Machine("dec", T, Zero(T), inp, ord, {}))
         over == ph' = "end" /\ m' = m
     IN
     CASE ph = "enc" ->
            /\ Say(one)
            /\ IF m.st = "ok" THEN two' = Output(m) /\ unpack("dec", Output(m)) ELSE over /\ two' = two
            /\ one' = IF m.st = "ok" THEN m.res ELSE one
            /\ UNCHANGED bits
       [] ph = "dec" /\ Mode = "enc" ->
            /\ Say(<<>>)
            /\ bits' = bits
            /\ \/ Cuts /\ (\E n \in 0..(Len(two) - 1) : unpack("cut", SubSeq(two, 1, n))) /\ UNCHANGED <<one, two>>
               \/ Cuts /\ unpack("more", two \o <<1, 255>>) /\ UNCHANGED <<one, two>>
               \/ Over /\ m.st = "ok" /\ one' = m.res
                  /\ \E d \in D(sch) : two' = d /\ go("over", Machine("dec", T, d, two, ord, {}))
               \/ ~Cuts /\ (~Over \/ m.st # "ok") /\ over /\ UNCHANGED <<one, two>>
       [] ph = "dec" /\ Mode = "dec" ->
            /\ Say(<<>>)
            /\ IF m.st = "ok" THEN two' = m.res /\ go("renc", Machine("enc", T, m.res, <<>>, ord, {})) /\ bits' = SizeBits(T, m.res)
               ELSE over /\ UNCHANGED <<two, bits>>
            /\ one' = one
       [] ph = "renc" ->
            /\ Say(two)
            /\ IF m.st = "ok" THEN unpack("rdec", Output(m)) ELSE over
            /\ UNCHANGED <<one, two, bits>>
       [] ph = "over" -> Say(two) /\ over /\ UNCHANGED <<one, two, bits>>
       [] ph \in {"cut", "more", "rdec"} -> Say(<<>>) /\ over /\ UNCHANGED <<one, two, bits>>
  /\ UNCHANGED <<sch, ord>>

\* the fields of a unit at each position, for the harness
Table == \A u \in Alphabet : \A w \in Wraps : \A i \in 1..MaxLen :
  PrintT(<<"UNIT", ToJson([unit |-> u \o "." \o w, at |-> i, f |-> Wrapped(u, w, Prefix[i]).f])>>)
Tell(T(_)) == /\ sch = <<>> /\ ph = "grow" /\ T(0) /\ ph' = "told" /\ UNCHANGED <<sch, ord, m, one, two, bits>>

Alpha(x) == Alphabet
Tab(x) == Table
Next == Grow(Wrapped, Alpha) \/ Begin(TypeOf, ValueOf) \/ Run(Step) \/ Stop(TypeOf, Values) \/ Tell(Tab)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Ended == Live /\ m.st # "run"
Eats(u) == u \in {"wh", "whs", "wha"}          \* reads to the end of the input
Greedy == \E i \in 1..Len(sch) : Eats(sch[i].u)
Nilled == \E i \in 1..Len(sch) : sch[i].u \in Nils
\* does only one of the two by itself
Uneven == \E i \in 1..Len(sch) : sch[i].u \in {"cuu", "cut", "cuw", "cuy", "cuua", "cuws", "cuupad"}
Lossy == Uneven \/ \E i \in 1..Len(sch) : sch[i].u \in Nils \cup {"bov", "b8", "sls2", "str3", "cupad"}  \* values that do not fit their field

CursorInside == ~Live \/ m.st = "unspec" \/
  IF m.mode = "dec" THEN m.pos <= 8 * Len(m.inp) ELSE m.st = "err" \/ Written(m) <= 8 * m.tot
\* C03: an encoding has exactly the computed size, and decoding consumes just that
SizeExact == (Live /\ m.st = "ok" /\ m.mode = "enc") => (Len(Output(m)) = BytesOf(bits) /\ Written(m) = bits)
Consumed == (Live /\ Mode = "enc" /\ ph \in {"dec", "more"} /\ m.st = "ok" /\ ~Greedy /\ ~Nilled /\ ~Uneven) => m.pos = bits
FramesNest == (Live /\ m.st = "run") => m.stk[1].k = "r" /\ \A i \in 2..Len(m.stk) : m.stk[i].k # "r"
\* C01: what was packed is what is unpacked
\* (what reads to the end of the input must come last, and end on a byte boundary)
RoundTrip == (~Off /\ ph = "dec" /\ Mode = "enc" /\ Ended /\ ~Lossy) =>
  m.st = "unspec" \/ (\E i \in 1..Len(sch) : Eats(sch[i].u) /\ (i < Len(sch) \/ bits % 8 # 0 \/ sch[i].w \in {"a", "c", "z"})) \/ (m.st = "ok" /\ m.res = one)
\* C08: what is cut short is an error, what follows is ignored
CutFails == (ph = "cut" /\ Ended /\ ~Greedy /\ ~Nilled /\ ~Uneven) => m.st \in {"err", "unspec"}
MoreIgnored == (ph = "more" /\ Ended /\ ~Greedy /\ ~Lossy) => (m.st = "unspec" \/ (m.st = "ok" /\ m.res = one))
\* C22: what the destination held does not matter, but where nothing is read
Kept == {"dash", "blank", "blank3", "blankb"}
DestFree == (ph = "over" /\ Ended /\ ~\E i \in 1..Len(sch) : sch[i].u \in Kept \/ sch[i].w = "i" \/ \E j \in 1..Len(UnitOf(sch[i].u, "A").f) : LET f == UnitOf(sch[i].u, "A").f[j] IN Has(f.xif)) =>
  m.st = "unspec" \/ (m.st = "ok" /\ m.res = one)
\* C02: what is unpacked can be packed, and means the same
\* C15: a switch with two defaults, or a field that is no case, is an error
InvalidFails == (Ended /\ \E i \in 1..Len(sch) : sch[i].u \in Invalid /\ sch[i].w = "" /\ Mode = "enc") => m.st \in {"err", "unspec"}
\* an expression that decides about a field is an error while expressions are not enabled
OffFails == (Off /\ Ended /\ ph \in {"enc", "dec"} /\ \E i \in 1..Len(TypeOf(sch).f) : LET f == TypeOf(sch).f[i] IN Has(f.xif) \/ Has(f.xsz) \/ Has(f.xsw) \/ Has(f.xbi) \/ Has(IF m.mode = "enc" THEN f.xou ELSE f.xin)) => m.st \in {"err", "unspec"}
Repacks == (~Off /\ ph = "rdec" /\ Ended) => (m.st = "unspec" \/ Greedy \/ Uneven \/ (m.st = "ok" /\ m.res = two))
================================================================================
