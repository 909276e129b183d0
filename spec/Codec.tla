--------------------------------- MODULE Codec --------------------------------
(* Pack and Unpack as a small-step machine, and sizes as a recursive function.  *)
(*                                                                              *)
(* A field of a struct type is a record                                         *)
(*   nm name; cls n normal, u unexported, b blank, x tagged "-", r root,         *)
(*   p parent; t Go type; bt declared type; o order n/b/l; sk skip bytes;        *)
(*   bw bit width (0 full); va, iv variantbool, invertedbool; szof, szfr         *)
(*   names for sizeof, sizefrom; df default case; xif xsz xbi xin xou xwh xsw    *)
(*   xca expressions (op "none" if absent).                                      *)
(*                                                                              *)
(* A machine state is a record                                                   *)
(*   mode "dec"/"enc"; st "run", "ok", "err", "unspec"; dev set of names of      *)
(*   known deviations to follow; inp input bytes, pos bit cursor; out bytes      *)
(*   written, acc bits of the unfinished last byte, tot size of the whole in     *)
(*   bytes; stk frames, top last; res result; calls number of custom codec calls *)
(* and a frame is a record                                                       *)
(*   k  r result, s struct, l list, p pointer, u union (switch)                  *)
(*   t, bt Go and declared type (of the element for lists); vs values so far;    *)
(*   i next index; n element count, -1 for while; src source elements;           *)
(*   ord byte order in effect; wh while expression.                              *)
EXTENDS Expr

NoX == [op |-> "none", s |-> "", v |-> <<>>, a |-> <<>>]
Has(x) == x.op # "none"
ElemField(bt, nt) ==
  [nm |-> "*", cls |-> "n", t |-> nt, bt |-> bt, o |-> "n", sk |-> 0, bw |-> 0,
   va |-> FALSE, iv |-> FALSE, szof |-> "", szfr |-> "", df |-> FALSE,
   xif |-> NoX, xsz |-> NoX, xbi |-> NoX, xin |-> NoX, xou |-> NoX, xwh |-> NoX,
   xsw |-> NoX, xca |-> NoX]

\* T while expressions are not enabled: every use of an expression is an error.
OffX(x) == IF Has(x) THEN [NoX EXCEPT !.op = "off"] ELSE x
RECURSIVE Without(_)
Without(t) ==
  IF t.k \in {"badtag", "opentag"} THEN t
  ELSE [t EXCEPT !.e = [i \in 1..Len(t.e) |-> Without(t.e[i])],
         !.f = [i \in 1..Len(t.f) |-> LET f == t.f[i] IN
                  [f EXCEPT !.t = Without(f.t), !.bt = Without(f.bt), !.xif = OffX(f.xif), !.xsz = OffX(f.xsz), !.xbi = OffX(f.xbi), !.xin = OffX(f.xin),
                            !.xou = OffX(f.xou), !.xwh = OffX(f.xwh), !.xsw = OffX(f.xsw), !.xca = OffX(f.xca)]]]

\* encoded width: plain int and uint are 32 bits on the wire
BinW(t) == IF t.g \in {"int", "uint"} THEN 4 ELSE t.w
\* Which types bring their own encoding and size, and which their own decoding:
\* some do only one of the two, and follow their layout for the other.
CuEncodes(t) == t.k = "cu" \/ t.nm \in {"CuW", "CuY"}
CuDecodes(t) == t.k = "cu" \/ t.nm \in {"CuU", "CuT"}
Custom(mode, t) == IF mode = "dec" THEN CuDecodes(t) ELSE CuEncodes(t)

TByte == TU8
ElemT(t) == IF t.k = "str" THEN TByte ELSE t.e[1]

--------------------------------------------------------------------------------
(* Custom codecs the harness registers.  They record the byte order they were   *)
(* given and how many bytes were left, in their output and in their value.      *)
OrdMark(o) == IF o = "b" THEN 1 ELSE 2
CuGeneric == {"CuP", "CuV", "CuB", "CuR"}
CuSize(nm, v) ==
  CASE nm \in CuGeneric -> 3 + Len(v[1])
    [] nm \in {"CuN", "CuA"} -> 3
    [] nm = "CuS" -> 1 + Len(v)
    [] nm = "CuW" -> 3
    [] nm = "CuY" -> 4
CuEnc(nm, v, o, left) ==
  CASE nm \in CuGeneric ->
         IF v[1] # <<>> /\ v[1][1] = 238 THEN [ok |-> FALSE, b |-> <<>>]
         ELSE [ok |-> TRUE, b |-> <<Len(v[1]), OrdMark(o), left % 256>> \o v[1]]
    [] nm \in {"CuN", "CuW"} -> IF v[1] = 238 THEN [ok |-> FALSE, b |-> <<>>]
                     ELSE [ok |-> TRUE, b |-> <<OrdMark(o)>> \o v]
    [] nm = "CuA" -> [ok |-> TRUE, b |-> <<v[2], v[1], OrdMark(o)>>]
    [] nm = "CuS" -> [ok |-> TRUE, b |-> <<Len(v)>> \o v]
    [] nm = "CuY" -> IF v[1] = <<238>> THEN [ok |-> FALSE, b |-> <<>>]
                     ELSE [ok |-> TRUE, b |-> <<OrdMark(o)>> \o v[2] \o v[1]]
CuBad == [ok |-> FALSE, n |-> 0, v |-> <<>>]
CuDec(nm, rest, o) ==
  CASE nm \in CuGeneric ->
         IF Len(rest) < 3 THEN CuBad
         ELSE IF rest[1] > 128 \/ Len(rest) < 3 + rest[1] THEN CuBad
         ELSE LET d == SubSeq(rest, 4, 3 + rest[1]) IN
           IF d # <<>> /\ d[1] = 238 THEN CuBad
           ELSE [ok |-> TRUE, n |-> 3 + rest[1], v |-> <<d, OrdMark(o), Len(rest) % 256>>]
    [] nm = "CuN" -> IF Len(rest) < 3 THEN CuBad ELSE IF rest[2] = 238 THEN CuBad
                     ELSE [ok |-> TRUE, n |-> 3, v |-> <<rest[2], rest[3]>>]
    [] nm = "CuA" -> IF Len(rest) < 3 THEN CuBad
                     ELSE [ok |-> TRUE, n |-> 3, v |-> <<rest[2], rest[1]>>]
    [] nm = "CuS" -> IF Len(rest) < 1 THEN CuBad ELSE IF Len(rest) < 1 + rest[1] THEN CuBad
                     ELSE [ok |-> TRUE, n |-> 1 + rest[1], v |-> SubSeq(rest, 2, 1 + rest[1])]
    [] nm = "CuU" -> IF Len(rest) < 2 THEN CuBad ELSE IF rest[1] = 238 THEN CuBad
                     ELSE [ok |-> TRUE, n |-> 2, v |-> <<rest[2], 255 - rest[1]>>]
    [] nm = "CuT" -> IF Len(rest) < 2 THEN CuBad ELSE IF rest[1] = 238 THEN CuBad
                     ELSE [ok |-> TRUE, n |-> 2, v |-> << <<rest[2]>>, <<OrdMark(o), rest[1]>> >>]

--------------------------------------------------------------------------------
(* Scalars on the wire.  A scalar is given as big-endian bytes of its wire width.*)
\* bits on the wire, for bit width bw > 0
WireBits(bs, bw, o) ==
  IF o = "b" THEN LET b == ToBits(bs) IN SubSeq(b, Len(b) - bw + 1, Len(b))
  ELSE LET le == Rev(bs)  q == bw \div 8  r == bw % 8
           head == ToBits(SubSeq(le, 1, q))
       IN IF r = 0 THEN head
          ELSE head \o SubSeq(BitsOfByte[le[q + 1]], 9 - r, 8)
\* and back to w bytes, zero-extended
UnwireBits(bits, w, o) ==
  IF o = "b" THEN BitsToWidth(bits, w)
  ELSE LET n == Len(bits)  q == n \div 8  r == n % 8
           head == ToBytes(SubSeq(bits, 1, 8 * q))
           last == IF r = 0 THEN <<>> ELSE BitsToWidth(SubSeq(bits, 8 * q + 1, n), 1)
       IN LET le == head \o last IN Rev(le \o Rep(0, w - Len(le)))
\* sign extension of the low bw bits in w bytes
SignExt(bs, bw, dev) ==
  LET b == ToBits(bs)  n == Len(b)
      \* deviation "signext": containers of up to 32 bits look at the wrong bit
      s == IF "signext" \in dev /\ n <= 32 THEN b[n] ELSE b[n - bw + 1]
  IN IF s = 1 THEN ToBytes(Rep(1, n - bw) \o SubSeq(b, n - bw + 1, n)) ELSE bs

\* byte order applies to each half of a complex number
Ordered(bs, bt, o) ==
  IF o = "b" THEN bs
  ELSE IF bt.k = "complex"
  THEN LET h == Len(bs) \div 2 IN Rev(SubSeq(bs, 1, h)) \o Rev(SubSeq(bs, h + 1, 2 * h))
  ELSE Rev(bs)

\* Go value to wire bytes (full width) and back, for a field-like record f
ToWire(f, bt, nt, v) ==
  LET w == BinW(bt) IN
  CASE nt.k = "bool" ->
         LET b == (v = <<1>>) # f.iv IN
         IF ~b THEN Rep(0, w) ELSE IF f.va THEN Rep(255, w) ELSE Rep(0, w - 1) \o <<1>>
    [] nt.k \in {"int", "uint"} -> Resize(v, w, nt.k = "int")
    [] nt.k = "float" -> FConv(v, w)
    [] nt.k = "complex" ->
         LET h == Len(v) \div 2 IN
         FConv(SubSeq(v, 1, h), w \div 2) \o FConv(SubSeq(v, h + 1, 2 * h), w \div 2)
FromWire(f, bt, nt, bs) ==
  CASE nt.k = "bool" -> IF (~IsZero(bs)) # f.iv THEN <<1>> ELSE <<0>>
    [] nt.k \in {"int", "uint"} -> Resize(bs, nt.w, bt.k = "int")
    [] nt.k = "float" -> FConv(bs, nt.w)
    [] nt.k = "complex" ->
         LET h == Len(bs) \div 2 IN
         FConv(SubSeq(bs, 1, h), nt.w \div 2) \o FConv(SubSeq(bs, h + 1, 2 * h), nt.w \div 2)

\* n bits of the input from bit position p (0-based)
InBits(inp, p, n) ==
  LET b0 == p \div 8  b1 == (p + n + 7) \div 8
      b == ToBits(SubSeq(inp, b0 + 1, b1))
  IN SubSeq(b, p - 8 * b0 + 1, p - 8 * b0 + n)
InBytes(inp, p, n) ==
  IF p % 8 = 0 THEN SubSeq(inp, p \div 8 + 1, p \div 8 + n) ELSE ToBytes(InBits(inp, p, 8 * n))

--------------------------------------------------------------------------------
(* Names and counters inside a struct.                                          *)
EnvOf(ss, eof) ==
  LET top == Last(ss) IN
  [lay |-> << [f |-> top.t.f, vs |-> top.vs] >>, stk |-> ss, eof |-> eof, std |-> TRUE]

\* index of the field whose length field i takes, 0 if none: the last one it counts
RECURSIVE FromIdx(_, _, _)
FromIdx(fs, nm, j) == IF j < 1 THEN 0 ELSE IF fs[j].szfr = nm THEN j ELSE FromIdx(fs, nm, j - 1)
Counted(fs, i) ==
  LET from == FromIdx(fs, fs[i].nm, Len(fs))
      of == IF fs[i].szof = "" THEN 0 ELSE FieldIdx(fs, fs[i].szof, 1)
  IN IF from > of THEN from ELSE of
\* index of the field that counts field i, 0 if none: the last one that counts it,
\* unless it says which
RECURSIVE OfIdx(_, _, _)
OfIdx(fs, nm, j) == IF j < 1 THEN 0 ELSE IF fs[j].szof = nm THEN j ELSE OfIdx(fs, nm, j - 1)
Counter(fs, i) ==
  IF fs[i].szfr # "" THEN FieldIdx(fs, fs[i].szfr, 1) ELSE OfIdx(fs, fs[i].nm, Len(fs))
\* the other ones that count it
Rivals(fs, i) == { j \in 1..Len(fs) : fs[j].szof = fs[i].nm /\ j # Counter(fs, i) }

FitsCount(c, k, bits) ==
  IF k = "uint" THEN bits >= 25 \/ c < Pow2[bits] ELSE bits >= 26 \/ c < Pow2[bits - 1]
\* a counter's new value, <<>> if the length does not fit
CountValue(f, c) ==
  IF f.t.k \notin {"int", "uint"} THEN <<>>
  ELSE IF FitsCount(c, f.t.k, 8 * f.t.w) /\ FitsCount(c, f.bt.k, IF f.bw # 0 THEN f.bw ELSE 8 * BinW(f.bt))
  THEN IntBytes(c, f.t.w) ELSE <<>>

\* A count read from a counter or expression: number, -1 negative or enormous.
AsCount(r) ==
  IF r.t.k = "int" \/ r.t.k = "ui" THEN (IF Neg0(r.v) THEN -1 ELSE UVal(r.v))
  ELSE IF r.t.k = "uint" THEN UVal(r.v) ELSE -1
IsCount(r) == r.t.k \in {"int", "uint", "ui"}

\* Level that a root or parent field of struct level L = Len(ss) refers to, 0 if none.
RECURSIVE NearestUp(_, _, _)
NearestUp(ss, nm, i) == IF i < 1 THEN 0 ELSE IF ss[i].t.nm = nm THEN i ELSE NearestUp(ss, nm, i - 1)
RefLevel(ss, f) ==
  IF f.cls = "r" THEN (IF ss[1].t.nm = f.t.nm THEN 1 ELSE 0)
  ELSE NearestUp(ss, f.t.nm, Len(ss) - 1)

\* References that point inside (or below) level d, made opaque: elements of a
\* while slice are decoded in place and then appended as copies.
RECURSIVE Scrub(_, _, _)
Scrub(t, v, d) ==
  CASE t.k = "ref" -> IF v[1] > d THEN <<99>> ELSE v
    [] t.k = "ptr" -> IF v = <<>> THEN v ELSE <<Scrub(t.e[1], v[1], d)>>
    [] t.k \in {"slice", "array"} ->
         IF IsScalar(t.e[1]) THEN v ELSE [i \in 1..Len(v) |-> Scrub(t.e[1], v[i], d)]
    [] t.k = "struct" -> [i \in 1..Len(v) |-> Scrub(t.f[i].t, v[i], d)]
    [] OTHER -> v

--------------------------------------------------------------------------------
(* Which case of a switch: [st, j], j = 0 for none.                              *)
CaseEq(c, on) ==
  IF IsCount(c) /\ IsCount(on)
  THEN LET W(x) == IF x.t.k = "uint" THEN <<0>> \o Resize(x.v, 8, FALSE) ELSE Resize(x.v, 9, TRUE)
       IN W(c) = W(on)
  ELSE IF IsBool(c) /\ IsBool(on) THEN c.v = on.v
  ELSE SameType(c.t, on.t) /\ Same(c.t, c.v, on.v)
RECURSIVE PickCase(_, _, _, _, _)
PickCase(env, fs, on, i, def) ==
  IF i > Len(fs) THEN [st |-> "ok", j |-> def]
  ELSE LET f == fs[i] IN
    IF f.cls \in {"u", "x"} THEN PickCase(env, fs, on, i + 1, def)
    ELSE IF f.df THEN
      IF def # 0 THEN [st |-> "err", j |-> 0] ELSE PickCase(env, fs, on, i + 1, i)
    ELSE IF ~Has(f.xca) THEN [st |-> "err", j |-> 0]
    ELSE LET c == Eval(env, f.xca) IN
      IF c.st # "ok" THEN [st |-> c.st, j |-> 0]
      ELSE IF CaseEq(c, on) THEN [st |-> "ok", j |-> i]
      ELSE PickCase(env, fs, on, i + 1, def)
Select(env, f) ==
  LET on == Eval(env, f.xsw) IN
  IF on.st # "ok" THEN [st |-> on.st, j |-> 0]
  ELSE IF f.t.k # "struct" THEN [st |-> "err", j |-> 0]
  ELSE PickCase(env, f.t.f, on, 1, 0)

--------------------------------------------------------------------------------
(* Sizes in bits; -1 error, -2 unspecified.                                      *)
SErr(st) == IF st = "unspec" THEN -2 ELSE -1
RECURSIVE Trivial(_)
Trivial(t) ==
  IF IsScalar(t) THEN TRUE
  ELSE IF t.k = "array" THEN Trivial(t.e[1])
  ELSE IF t.k = "struct" THEN
    \A i \in 1..Len(t.f) : t.f[i].cls \in {"u", "x"} \/
      (t.f[i].cls \in {"n", "b"} /\ Trivial(t.f[i].bt) /\ ~Has(t.f[i].xif) /\ ~Has(t.f[i].xbi) /\ ~Has(t.f[i].xsw))
  ELSE FALSE

\* A measurement: n bits (or an error), v the value afterwards.
Meas(n, v) == [n |-> n, v |-> v]
\* struct value with its counters up to date
Settled(t, v) ==
  [i \in 1..Len(v) |->
     LET f == t.f[i] IN
     IF f.cls = "n" /\ Counted(t.f, i) # 0 THEN
       LET c == CountValue(f, Len(v[Counted(t.f, i)])) IN IF c = <<>> THEN v[i] ELSE c
     ELSE v[i]]
\* a counter that cannot hold its length makes the size undefined as well
Countable(t, v) ==
  \A i \in 1..Len(v) : t.f[i].cls = "n" /\ Counted(t.f, i) # 0 =>
     CountValue(t.f[i], Len(v[Counted(t.f, i)])) # <<>>

RECURSIVE MeasF(_, _, _), MeasV(_, _, _, _), MeasList(_, _, _, _, _, _, _, _), MeasS(_, _, _)
\* a struct: first its counters, then field by field, as later fields may use
\* the references of earlier ones
MeasS(t, v, ss) ==
  LET RECURSIVE Fs(_, _, _)
      Fs(i, vs, acc) ==
        IF i > Len(vs) THEN Meas(acc, vs)
        ELSE LET f == t.f[i]  s2 == Append(ss, [t |-> t, vs |-> vs]) IN
          IF f.cls \in {"r", "p"} THEN
            LET lv == RefLevel(s2, f) IN Fs(i + 1, IF lv = 0 THEN vs ELSE [vs EXCEPT ![i] = <<lv>>], acc)
          ELSE LET q == MeasF(f, vs[i], s2) IN
            IF q.n < 0 THEN Meas(q.n, vs)
            ELSE Fs(i + 1, IF q.v = vs[i] THEN vs ELSE [vs EXCEPT ![i] = q.v], acc + q.n)
  IN Fs(1, TLCEval(Settled(t, v)), 0)
MeasF(f, v, ss) ==
  IF f.cls \in {"u", "x"} THEN Meas(0, v)
  ELSE IF f.cls = "b" /\ ~Trivial(f.t) THEN Meas(8 * f.sk, v)
  ELSE LET c == IF Has(f.xif) THEN Eval(EnvOf(ss, 3), f.xif) ELSE BoolV(TRUE) IN
    IF c.st # "ok" THEN Meas(SErr(c.st), v)
    ELSE IF ~IsBool(c) THEN Meas(-1, v)
    ELSE IF c.v = <<0>> THEN Meas(0, v)
    ELSE IF Has(f.xsw) THEN
      LET s == Select(EnvOf(ss, 3), f) IN
      IF s.st # "ok" THEN Meas(SErr(s.st), v)
      ELSE IF s.j = 0 THEN Meas(8 * f.sk, v)
      ELSE LET q == MeasF(f.t.f[s.j], v[s.j], ss) IN
        IF q.n < 0 THEN q ELSE Meas(8 * f.sk + q.n, [v EXCEPT ![s.j] = q.v])
    ELSE IF CuEncodes(f.t) THEN Meas(8 * (f.sk + CuSize(f.t.nm, v)), v)
    ELSE LET b == IF Has(f.xbi) THEN Eval(EnvOf(ss, 3), f.xbi) ELSE Ok(TInt, IntBytes(f.bw, 8)) IN
      IF b.st # "ok" THEN Meas(SErr(b.st), v)
      ELSE IF ~IsCount(b) THEN Meas(-1, v)
      ELSE IF AsCount(b) < 0 THEN Meas(-2, v)
      ELSE IF AsCount(b) # 0 THEN Meas(8 * f.sk + AsCount(b), v)
      ELSE LET q == MeasV(f.bt, f.t, v, ss) IN IF q.n < 0 THEN q ELSE Meas(8 * f.sk + q.n, q.v)
\* n elements, of which vs are there and the rest is padding
MeasList(bt, nt, vs, n, i, ss, acc, out) ==
  IF i > n THEN Meas(acc, out)
  ELSE LET q == MeasV(bt, nt, IF i <= Len(vs) THEN vs[i] ELSE Zero(nt), ss) IN
    IF q.n < 0 THEN Meas(q.n, vs)
    ELSE MeasList(bt, nt, vs, n, i + 1, ss, acc + q.n, IF i <= Len(vs) THEN Append(out, q.v) ELSE out)
MeasV(bt, nt, v, ss) ==
  CASE CuEncodes(nt) -> Meas(8 * CuSize(nt.nm, v), v)
    [] IsScalar(bt) -> Meas(8 * BinW(bt), v)
    [] bt.k \in {"str", "slice", "array"} ->
         LET n == IF bt.k = "array" THEN bt.n ELSE Len(v)
             be == ElemT(bt)
         IN IF IsScalar(be) /\ ~CuEncodes(ElemT(nt)) THEN Meas(n * 8 * BinW(be), v)
            ELSE LET q == MeasList(be, ElemT(nt), v, n, 1, ss, 0, <<>>) IN
              IF q.n < 0 THEN q ELSE Meas(q.n, q.v \o SubSeq(v, n + 1, Len(v)))
    [] bt.k = "ptr" ->
         IF v = <<>> THEN Meas(0, v)
         ELSE LET q == MeasV(bt.e[1], nt.e[1], v[1], ss) IN Meas(q.n, <<q.v>>)
    [] bt.k = "struct" -> IF Countable(nt, v) THEN MeasS(nt, v, ss) ELSE Meas(-1, v)
    [] bt.k = "deep" -> Meas(-2, v)
    [] OTHER -> Meas(0, v)

Measure(t, v) == MeasV(t, t, v, <<>>)
SizeBits(t, v) == Measure(t, v).n
BytesOf(bits) == (bits + 7) \div 8

--------------------------------------------------------------------------------
(* The machine.                                                                  *)
Fail(m, st) == [m EXCEPT !.st = IF st = "unspec" THEN "unspec" ELSE "err"]
Top(m) == Last(m.stk)
SetTop(m, fr) == [m EXCEPT !.stk = Append(Front(m.stk), fr)]
Push(m, fr) == [m EXCEPT !.stk = Append(m.stk, fr)]
Pop(m) == [m EXCEPT !.stk = Front(m.stk)]
Frame(k, bt, t, vs, ord) ==
  [k |-> k, t |-> t, bt |-> bt, vs |-> vs, i |-> 1, n |-> 0, src |-> <<>>, ord |-> ord, wh |-> NoX]

\* struct frames, outermost first
Structs(m) == SelectSeq(m.stk, LAMBDA fr : fr.k = "s")
Eof(m) == IF m.mode = "dec" THEN (IF m.pos = 8 * Len(m.inp) THEN 1 ELSE 0) ELSE 3
Ev(m, x) == Eval(EnvOf(Structs(m), Eof(m)), x)
Left(m) == 8 * Len(m.inp) - m.pos

\* Output.
EmitBits(m, bits) ==
  LET all == m.acc \o bits  q == Len(all) \div 8 IN
  [m EXCEPT !.out = @ \o ToBytes(SubSeq(all, 1, 8 * q)), !.acc = SubSeq(all, 8 * q + 1, Len(all))]
EmitBytes(m, bs) ==
  IF m.acc = <<>> THEN [m EXCEPT !.out = @ \o bs] ELSE EmitBits(m, ToBits(bs))
Written(m) == 8 * Len(m.out) + Len(m.acc)

\* Padding of n bits.
Pad(m, n) ==
  IF n = 0 THEN m
  ELSE IF m.mode = "enc" THEN EmitBits(m, Rep(0, n))
  ELSE IF Left(m) < n THEN Fail(m, "err") ELSE [m EXCEPT !.pos = @ + n]

\* Is the result of an in expression storable in a field of type t?
Storable(r, t) == IF IsPrim(t) THEN IsPrim(r.t) /\ r.t.g = t.g /\ t.nm = "" /\ r.t.nm = "" ELSE FALSE

RECURSIVE Deliver(_, _)
Deliver(m, v) ==
  LET fr == Top(m) IN
  CASE fr.k = "r" -> [m EXCEPT !.st = "ok", !.res = v]
    [] fr.k = "s" ->
         LET f == fr.t.f[fr.i]
             keep == m.mode = "enc" /\ Has(f.xou)
             fr1 == [fr EXCEPT !.vs = IF keep THEN @ ELSE [@ EXCEPT ![fr.i] = v]]
         IN IF m.mode = "dec" /\ Has(f.xin) /\ f.cls = "n" /\ ~CuDecodes(f.t) /\ ~Has(f.xsw) THEN
              LET r == Ev(SetTop(m, fr1), f.xin) IN
              IF r.st # "ok" THEN Fail(m, r.st)
              ELSE IF IsUntyped(r.t) THEN Fail(m, "unspec")
              ELSE IF IsPrim(r.t) /\ IsPrim(f.t) /\ r.t.g = f.t.g /\ (f.t.nm # "" \/ r.t.nm # "") THEN Fail(m, "unspec")
              ELSE IF ~IsPrim(r.t) \/ ~IsPrim(f.t) THEN Fail(m, "unspec")
              ELSE IF ~Storable(r, f.t) THEN Fail(m, "err")
              ELSE SetTop(m, [fr1 EXCEPT !.vs = [@ EXCEPT ![fr.i] = r.v], !.i = @ + 1])
            ELSE SetTop(m, [fr1 EXCEPT !.i = @ + 1])
    [] fr.k = "l" ->
         LET drop == m.mode = "enc" /\ fr.i > Len(fr.src)
             v1 == IF fr.n = -1 /\ fr.src = <<>> /\ m.mode = "dec" THEN Scrub(fr.t, v, Len(Structs(m))) ELSE v
         IN SetTop(m, [fr EXCEPT !.vs = IF drop THEN @ ELSE Append(@, v1), !.i = @ + 1])
    [] fr.k = "p" -> Deliver(Pop(m), <<v>>)
    [] fr.k = "u" -> Deliver(Pop(m), [fr.vs EXCEPT ![fr.i] = v])

\* The current field of the struct (or case of the union) on top is absent.
Absent(m, v) ==
  LET fr == Top(m) IN
  IF fr.k = "u" THEN Deliver(Pop(m), fr.vs) ELSE SetTop(m, [fr EXCEPT !.i = @ + 1])

\* One custom codec call.
CallCustom(m, t, v, ord) ==
  IF m.mode = "dec" THEN
    IF m.pos % 8 # 0 THEN Fail(m, "unspec")
    ELSE LET d == CuDec(t.nm, SubSeq(m.inp, m.pos \div 8 + 1, Len(m.inp)), ord) IN
      IF ~d.ok THEN Fail([m EXCEPT !.calls = @ + 1, !.why = t.nm], "err")
      ELSE Deliver([m EXCEPT !.pos = @ + 8 * d.n, !.calls = @ + 1], d.v)
  ELSE
    IF m.acc # <<>> THEN Fail(m, "unspec")
    ELSE LET e == CuEnc(t.nm, v, ord, m.tot - Len(m.out)) IN
      IF ~e.ok THEN Fail([m EXCEPT !.calls = @ + 1, !.why = t.nm], "err")
      ELSE Deliver(EmitBytes([m EXCEPT !.calls = @ + 1], e.b), v)

\* One scalar.
DecScalar(m, f, bt, nt, bw, ord) ==
  LET w == BinW(bt) IN
  IF bw > 8 * w THEN Fail(m, "err")
  ELSE IF bw = 0 THEN
    IF Left(m) < 8 * w THEN Fail(m, "err")
    ELSE Deliver([m EXCEPT !.pos = @ + 8 * w],
                 FromWire(f, bt, nt, Ordered(InBytes(m.inp, m.pos, w), bt, ord)))
  ELSE
    IF Left(m) < bw THEN Fail(m, "err")
    ELSE LET z == UnwireBits(InBits(m.inp, m.pos, bw), w, ord)
             x == IF bt.k = "int" THEN SignExt(z, bw, m.dev) ELSE z
         IN Deliver([m EXCEPT !.pos = @ + bw], FromWire(f, bt, nt, x))
EncScalar(m, f, bt, nt, x, keep, bw, ord) ==
  LET w == BinW(bt)  bs == ToWire(f, bt, nt, x) IN
  IF bw > 8 * w THEN Fail(m, "err")
  ELSE IF bw = 0 THEN Deliver(EmitBytes(m, Ordered(bs, bt, ord)), keep)
  ELSE Deliver(EmitBits(m, WireBits(bs, bw, ord)), keep)

\* n scalars at once.
DecScalars(m, f, bt, nt, n, ord) ==
  LET w == BinW(bt) IN
  IF n > Left(m) \div (8 * w) THEN Fail(m, "err")
  ELSE LET all == InBytes(m.inp, m.pos, n * w) IN
    Deliver([m EXCEPT !.pos = @ + 8 * w * n],
      [i \in 1..n |-> FromWire(f, bt, nt, Ordered(SubSeq(all, (i - 1) * w + 1, i * w), bt, ord))])
RECURSIVE Flat(_, _, _)
Flat(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Flat(ss, i + 1, acc \o ss[i])

\* the same if every part has w elements
FlatW(ss, w) == LET all == TLCEval(ss) IN [i \in 1..(Len(all) * w) |-> all[((i - 1) \div w) + 1][((i - 1) % w) + 1]]

\* position of the first NUL, 0 if there is none
NulAt(bs) == IF \E i \in 1..Len(bs) : bs[i] = 0 THEN CHOOSE i \in 1..Len(bs) : bs[i] = 0 /\ \A j \in 1..(i - 1) : bs[j] # 0 ELSE 0

\* May an out expression's result of type xt be encoded as field f?
OutFits(f, xt) ==
  CASE f.bt.k = "int" -> xt.k \in {"int", "bool"}
    [] f.bt.k = "uint" -> xt.k \in {"uint", "bool"}
    [] f.bt.k = "bool" -> xt.k \in {"uint", "bool"}
    [] f.bt.k = "float" -> xt.k = "float"
    [] f.bt.k \in {"str", "array", "slice"} -> xt.k = "str" /\ f.t.k = "str"
    [] OTHER -> FALSE

\* A value of types bt/nt.  x is the value to encode (dec: the old value), keep
\* what stays in the value after encoding, opt the field it belongs to.
BeginV(m, f, bt, nt, x, keep, bw, cnt, ord) ==
  CASE IsScalar(bt) ->
         IF m.mode = "dec" THEN DecScalar(m, f, bt, nt, bw, ord)
         ELSE EncScalar(m, f, bt, nt, x, keep, bw, ord)
    [] bt.k = "struct" -> Push(m, Frame("s", bt, nt, x, ord))
    [] bt.k = "deep" -> Fail(m, "unspec")   \* a recursive type is only unrolled so far
    [] bt.k = "ptr" ->
         IF m.mode = "dec" THEN
           Push(Push(m, Frame("p", bt, nt, <<>>, ord)),
                [Frame("l", bt.e[1], nt.e[1], <<>>, ord) EXCEPT !.k = "e", !.src = <<Zero(nt.e[1])>>])
         ELSE IF x = <<>> THEN Deliver(m, keep)
         ELSE Push(Push(m, Frame("p", bt, nt, <<>>, ord)),
                [Frame("l", bt.e[1], nt.e[1], <<>>, ord) EXCEPT !.k = "e", !.src = <<x[1]>>])
    [] bt.k \in {"str", "slice", "array"} ->
         IF nt.k = "str" THEN
           IF m.mode = "dec" THEN
             LET n == IF bt.k = "array" THEN bt.n ELSE cnt IN
             IF n < 0 \/ n > Left(m) \div 8 THEN Fail(m, "err")
             ELSE LET bs == InBytes(m.inp, m.pos, n)
                      z == IF bt.k = "array" THEN NulAt(bs) ELSE 0
                  IN Deliver([m EXCEPT !.pos = @ + 8 * n],
                             IF z = 0 THEN bs ELSE SubSeq(bs, 1, z - 1))
           ELSE LET n == IF bt.k = "array" THEN bt.n ELSE Len(x) IN
             IF Len(x) > n THEN Fail(m, "err")
             ELSE Deliver(EmitBytes(m, x \o Rep(0, n - Len(x))), keep)
         ELSE
           LET be == ElemT(bt)  ne == ElemT(nt)
               n == IF m.mode = "enc" THEN (IF bt.k = "array" THEN bt.n ELSE Len(x))
                    ELSE IF bt.k = "array" THEN bt.n
                    ELSE IF Has(f.xwh) THEN -1 ELSE cnt
               chunk == IsScalar(be) /\ ~Custom(m.mode, ne) /\ ~(m.mode = "dec" /\ Has(f.xwh) /\ bt.k = "slice")
           IN
           IF m.mode = "dec" /\ bt.k = "slice" /\ ~Has(f.xwh) /\ cnt < 0 THEN Fail(m, "err")
           ELSE IF m.mode = "enc" /\ Len(x) > n THEN Fail(m, "err")
           ELSE IF chunk THEN
             IF m.mode = "dec" THEN DecScalars(m, ElemField(be, ne), be, ne, n, ord)
             ELSE Deliver(EmitBytes(m, FlatW([i \in 1..n |->
                     Ordered(ToWire(ElemField(be, ne), be, ne, IF i <= Len(x) THEN x[i] ELSE Zero(ne)), be, ord)],
                     BinW(be))), keep)
           ELSE Push(m, [Frame("l", be, ne, <<>>, ord) EXCEPT
                   !.n = n, !.wh = IF m.mode = "dec" THEN f.xwh ELSE NoX,
                   !.src = IF m.mode = "enc" \/ nt.k = "array" THEN x ELSE <<>>])
    [] OTHER -> Deliver(m, keep)

\* A field of the struct on top, or a case of the union on top.
BeginF(m, f, v, ord0, inUnion) ==
  LET c == IF Has(f.xif) /\ f.cls # "b" THEN Ev(m, f.xif) ELSE BoolV(TRUE) IN
  IF f.cls = "b" THEN
    LET n == MeasF(f, v, Structs(m)).n IN
    IF n < 0 THEN Fail(m, IF n = -2 THEN "unspec" ELSE "err")
    ELSE LET p == Pad(m, n) IN IF p.st # "run" THEN p ELSE Deliver(p, v)
  ELSE IF c.st # "ok" THEN Fail(m, c.st)
  ELSE IF ~IsBool(c) THEN Fail(m, "err")
  ELSE IF c.v = <<0>> THEN Absent(m, v)
  ELSE IF Has(f.xsw) THEN
    LET ord == IF f.o = "n" THEN ord0 ELSE f.o
        p == Pad(m, 8 * f.sk)
        s == Select(EnvOf(Structs(p), Eof(p)), f)
        vs == IF m.mode = "enc" THEN v
              ELSE [i \in 1..Len(v) |-> IF f.t.f[i].cls \in {"u", "x"} THEN v[i] ELSE Zero(f.t.f[i].t)]
    IN IF p.st # "run" THEN p
       ELSE IF s.st # "ok" THEN Fail(m, s.st)
       ELSE IF s.j = 0 THEN Deliver(p, vs)
       ELSE Push(p, [Frame("u", f.t, f.t, vs, ord) EXCEPT !.i = s.j])
  ELSE
    LET ord == IF f.o = "n" THEN ord0 ELSE f.o
        p == Pad(m, 8 * f.sk)
        b == IF Has(f.xbi) THEN Ev(p, f.xbi) ELSE Ok(TInt, IntBytes(f.bw, 8))
        z == IF Has(f.xsz) THEN Ev(p, f.xsz) ELSE Ok(TInt, IntBytes(0, 8))
    IN
    IF p.st # "run" THEN p
    ELSE IF Custom(m.mode, f.t) THEN CallCustom(p, f.t, v, ord)
    ELSE IF b.st # "ok" THEN Fail(m, b.st)
    ELSE IF ~IsCount(b) THEN Fail(m, "err")
    ELSE IF AsCount(b) < 0 THEN Fail(m, "unspec")
    ELSE IF z.st # "ok" THEN Fail(m, z.st)
    ELSE IF z.t.k = "float" \/ z.t.k = "uf" THEN Fail(m, "unspec")
    ELSE IF ~IsCount(z) THEN Fail(m, "err")
    ELSE IF m.mode = "dec" THEN
      LET fr == Top(m)
          ci == IF inUnion \/ Has(f.xsz) THEN 0 ELSE Counter(fr.t.f, fr.i)
          CountOf(j) == AsCount(Ok(fr.t.f[j].t, fr.vs[j]))
          cnt == IF ci # 0 THEN CountOf(ci) ELSE AsCount(z)
      IN IF ci # 0 /\ \E j \in Rivals(fr.t.f, fr.i) : CountOf(j) # cnt THEN Fail(m, "unspec")
         ELSE BeginV(p, f, f.bt, f.t, v, v, AsCount(b), cnt, ord)
    ELSE
      LET fr == Top(m)
          ti == IF inUnion THEN 0 ELSE Counted(fr.t.f, fr.i)
          ci == IF inUnion \/ f.t.k \notin {"slice", "str"} THEN 0 ELSE Counter(fr.t.f, fr.i)
          cv == IF ti = 0 THEN v ELSE CountValue(f, Len(fr.vs[ti]))
          o == IF Has(f.xou) THEN Ev(p, f.xou) ELSE Ok(f.t, cv)
          \* the transformed value is encoded with its own type
          xt == IF Has(f.xou) THEN o.t ELSE f.t
      IN
      IF cv = <<>> /\ ti # 0 THEN Fail(m, "err")
      ELSE IF o.st # "ok" THEN Fail(m, o.st)
      ELSE IF Has(f.xou) /\ ~(xt.k \in {"bool", "int", "uint", "float", "str"}) THEN Fail(m, "unspec")
      ELSE IF Has(f.xou) /\ ~OutFits(f, xt) THEN Fail(m, "err")
      ELSE IF Has(f.xsz) /\ Len(o.v) # AsCount(z) THEN Fail(m, "err")
      \* the counter may hold the length of another field
      ELSE IF ci # 0 /\ Len(o.v) # AsCount(Ok(fr.t.f[ci].t, fr.vs[ci])) THEN Fail(m, "err")
      ELSE BeginV(p, f, f.bt, xt, o.v, cv, AsCount(b), 0, ord)

\* One transition.
Step(m) ==
  LET fr == Top(m) IN
  CASE fr.k = "s" ->
         IF fr.i > Len(fr.t.f) THEN Deliver(Pop(m), fr.vs)
         ELSE LET f == fr.t.f[fr.i]  v == fr.vs[fr.i] IN
           IF f.cls \in {"u", "x"} THEN Deliver(m, v)
           ELSE IF f.cls \in {"r", "p"} THEN
             LET lv == RefLevel(Structs(m), f) IN Deliver(m, IF lv = 0 THEN v ELSE <<lv>>)
           ELSE BeginF(m, f, v, fr.ord, FALSE)
    [] fr.k = "u" -> BeginF(m, fr.t.f[fr.i], fr.vs[fr.i], fr.ord, TRUE)
    [] fr.k = "e" ->   \* the target of a pointer
         LET m1 == Pop(m) IN
         IF Custom(m.mode, fr.t) THEN CallCustom(m1, fr.t, fr.src[1], fr.ord)
         ELSE BeginV(m1, ElemField(fr.bt, fr.t), fr.bt, fr.t, fr.src[1], fr.src[1], 0, 0, fr.ord)
    [] fr.k = "l" ->
         LET more == IF fr.n = -1 THEN Ev(m, fr.wh) ELSE BoolV(fr.i <= fr.n) IN
         IF more.st # "ok" THEN Fail(m, more.st)
         ELSE IF ~IsBool(more) THEN Fail(m, "err")
         ELSE IF more.v = <<0>> THEN Deliver(Pop(m), fr.vs \o SubSeq(fr.src, fr.i, Len(fr.src)))   \* the rest of a while array stays
         ELSE IF fr.n = -1 /\ fr.src # <<>> /\ fr.i > Len(fr.src) THEN Fail(m, "err")
         ELSE LET x == IF fr.i <= Len(fr.src) THEN fr.src[fr.i] ELSE Zero(fr.t) IN
           IF Custom(m.mode, fr.t) THEN CallCustom(m, fr.t, x, fr.ord)
           ELSE BeginV(m, ElemField(fr.bt, fr.t), fr.bt, fr.t, x, x, 0, 0, fr.ord)
    [] fr.k = "r" ->   \* the top-level value
         LET x == fr.src[1] IN
         IF Custom(m.mode, fr.t) THEN CallCustom(m, fr.t, x, fr.ord)
         ELSE BeginV(m, ElemField(fr.bt, fr.t), fr.bt, fr.t, x, x, 0, 0, fr.ord)

Machine(mode, t, x, inp, ord, dev) ==
  LET q == IF mode = "enc" THEN Measure(t, x) ELSE Meas(0, x) IN
  [mode |-> mode, st |-> IF q.n = -2 THEN "unspec" ELSE IF q.n < 0 THEN "err" ELSE "run", dev |-> dev,
   inp |-> inp, pos |-> 0, out |-> <<>>, acc |-> <<>>, tot |-> IF q.n < 0 THEN 0 ELSE BytesOf(q.n),
   stk |-> << [Frame("r", t, t, <<>>, ord) EXCEPT !.src = <<q.v>>] >>, res |-> <<>>, calls |-> 0, why |-> ""]

\* Final output, last byte padded with zeros.
Output(m) == m.out \o ToBytes(m.acc)
=============================================================================
