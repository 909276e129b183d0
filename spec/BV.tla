---------------------------------- MODULE BV ----------------------------------
(* Bit and byte vectors.  A byte vector is a sequence of 0..255, most          *)
(* significant byte first; a bit vector is a sequence of 0..1, most            *)
(* significant bit first.  TLC's integers have 32 bits, so every quantity that *)
(* may exceed them (64-bit operands, products) is a byte vector.               *)
EXTENDS Integers, Sequences, TLC, Bitwise

Byte == 0..255

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* 2^n as a table (TLC evaluates a constant definition once).
Pow2 == [n \in 0..30 |-> 2^n]
BitsOfByte == [b \in Byte |-> [i \in 1..8 |-> (b \div 2^(8 - i)) % 2]]

ToBits(bs) == [i \in 1..(8 * Len(bs)) |-> BitsOfByte[bs[(i - 1) \div 8 + 1]][((i - 1) % 8) + 1]]

\* Bits to bytes; a trailing partial byte is padded with zeros on the right.
ToBytes(bits) ==
  LET n == Len(bits)
      At(i) == IF i <= n THEN bits[i] ELSE 0
  IN [k \in 1..((n + 7) \div 8) |->
        LET o == 8 * (k - 1) IN
        128 * At(o+1) + 64 * At(o+2) + 32 * At(o+3) + 16 * At(o+4)
        + 8 * At(o+5) + 4 * At(o+6) + 2 * At(o+7) + At(o+8)]

\* A bit vector of any length as a byte vector of w bytes (numeric value kept).
BitsToWidth(bits, w) == ToBytes(Rep(0, 8 * w - Len(bits)) \o bits)

Neg0(bs) == bs # <<>> /\ bs[1] >= 128
IsZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

\* Change the width, sign- or zero-extending, or dropping high bytes.
Resize(bs, w, signed) ==
  LET n == Len(bs) IN
  IF n = w THEN bs
  ELSE IF n > w THEN SubSeq(bs, n - w + 1, n)
  ELSE Rep(IF signed /\ Neg0(bs) THEN 255 ELSE 0, w - n) \o bs

\* Does the (signed/unsigned) number survive the change of width and signedness?
\* The operand is always given as a signed vector (one spare byte if unsigned).
FitsS(bs, w) == Resize(Resize(bs, w, TRUE), Len(bs), TRUE) = bs \/ (Len(bs) <= w)
FitsU(bs, w) == ~Neg0(bs) /\ \A i \in 1..Len(bs) : i <= Len(bs) - w => bs[i] = 0

RECURSIVE NatBytes(_, _)
NatBytes(n, w) == IF w = 0 THEN <<>> ELSE Append(NatBytes(n \div 256, w - 1), n % 256)
IntBytes(n, w) ==
  IF n >= 0 THEN NatBytes(n, w)
  ELSE LET p == NatBytes(-(n + 1), w) IN [i \in 1..w |-> 255 - p[i]]

\* Unsigned value; -1 if it exceeds 2^24-1 (callers treat that as "huge").
Big == 16777216
RECURSIVE UVal(_)
UVal(bs) ==
  IF bs = <<>> THEN 0
  ELSE IF bs[1] = 0 THEN UVal(Tail(bs))
  ELSE IF Len(bs) > 3 THEN -1
  ELSE IF Len(bs) = 3 THEN 65536 * bs[1] + 256 * bs[2] + bs[3]
  ELSE IF Len(bs) = 2 THEN 256 * bs[1] + bs[2]
  ELSE bs[1]

--------------------------------------------------------------------------------
(* Arithmetic modulo 256^w on vectors of equal width.                           *)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET s == Last(a) + Last(b) + c
       IN Append(AddC(Front(a), Front(b), s \div 256), s % 256)
BNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, BNot(b), 1)
Neg(a) == AddC(BNot(a), Rep(0, Len(a)), 1)
BAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
BOr(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
BXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
BAndNot(a, b) == [i \in 1..Len(a) |-> a[i] & (255 - b[i])]

\* a * d for one byte d, modulo the width.
RECURSIVE MulD(_, _, _)
MulD(a, d, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET p == Last(a) * d + c IN Append(MulD(Front(a), d, p \div 256), p % 256)
RECURSIVE MulR(_, _)
\* Horner from the most significant byte of b.
MulR(a, b) ==
  IF b = <<>> THEN Rep(0, Len(a))
  ELSE LET hi == MulR(a, Front(b))
       IN Add(Append(Tail(hi), 0), MulD(a, Last(b), 0))
Mul(a, b) == MulR(a, b)

RECURSIVE ULtR(_, _, _)
ULtR(a, b, i) == IF i > Len(a) THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtR(a, b, i + 1)
ULt(a, b) == ULtR(a, b, 1)
SLt(a, b) == IF Neg0(a) # Neg0(b) THEN Neg0(a) ELSE ULt(a, b)

\* Unsigned long division, one bit at a time: <<quotient bits, remainder>>.
RECURSIVE DivBits(_, _, _, _, _)
DivBits(bits, b, i, q, r) ==
  IF i > Len(bits) THEN <<q, r>>
  ELSE LET r2 == Add(r, r)
           r3 == IF bits[i] = 1 THEN Append(Front(r2), Last(r2) + 1) ELSE r2
           ge == ~ULt(r3, b)
           r4 == IF ge THEN Sub(r3, b) ELSE r3
       IN DivBits(bits, b, i + 1, Append(q, IF ge THEN 1 ELSE 0), r4)
\* Position of the first byte that is not zero.
RECURSIVE FirstNZ(_, _)
FirstNZ(a, i) == IF i > Len(a) THEN i ELSE IF a[i] # 0 THEN i ELSE FirstNZ(a, i + 1)
UDivMod(a, b) ==
  LET n == Len(a)  x == UVal(a)  y == UVal(b) IN
  IF x >= 0 /\ y > 0 THEN <<NatBytes(x \div y, n), NatBytes(x % y, n)>>   \* TLC can divide these
  ELSE \* one spare byte so that doubling the remainder cannot overflow
    LET z == FirstNZ(a, 1)
        d == DivBits(ToBits(SubSeq(a, z, n)), <<0>> \o b, 1, <<>>, Rep(0, Len(b) + 1))
    IN <<Rep(0, z - 1) \o ToBytes(d[1]), Tail(d[2])>>
UDiv(a, b) == UDivMod(a, b)[1]
URem(a, b) == UDivMod(a, b)[2]
Abs(a) == IF Neg0(a) THEN Neg(a) ELSE a
SDiv(a, b) == LET q == UDiv(Abs(a), Abs(b)) IN IF Neg0(a) # Neg0(b) THEN Neg(q) ELSE q
SRem(a, b) == LET r == URem(Abs(a), Abs(b)) IN IF Neg0(a) THEN Neg(r) ELSE r

\* Shifts; n is a natural number, or -1 for "at least 2^24".
Shl(a, n) ==
  LET w == 8 * Len(a) IN
  IF n < 0 \/ n >= w THEN Rep(0, Len(a))
  ELSE ToBytes(SubSeq(ToBits(a), n + 1, w) \o Rep(0, n))
ShrF(a, n, fill) ==
  LET w == 8 * Len(a) IN
  IF n < 0 \/ n >= w THEN Rep(IF fill = 1 THEN 255 ELSE 0, Len(a))
  ELSE ToBytes(Rep(fill, n) \o SubSeq(ToBits(a), 1, w - n))
UShr(a, n) == ShrF(a, n, 0)
SShr(a, n) == ShrF(a, n, IF Neg0(a) THEN 1 ELSE 0)

--------------------------------------------------------------------------------
(* IEEE 754.  A float is its raw bytes (4 or 8), most significant first.        *)
ExpBits(w) == IF w = 4 THEN 8 ELSE 11
Bias(w) == IF w = 4 THEN 127 ELSE 1023
RECURSIVE BitsVal(_)
BitsVal(b) == IF b = <<>> THEN 0 ELSE 2 * BitsVal(Front(b)) + Last(b)
RECURSIVE NatBits(_, _)
NatBits(n, w) == IF w = 0 THEN <<>> ELSE Append(NatBits(n \div 2, w - 1), n % 2)

FSign(f) == IF f[1] >= 128 THEN 1 ELSE 0
FExp(f) == BitsVal(SubSeq(ToBits(f), 2, ExpBits(Len(f)) + 1))
FMan(f) == SubSeq(ToBits(f), ExpBits(Len(f)) + 2, 8 * Len(f))
ZeroBits(b) == \A i \in 1..Len(b) : b[i] = 0
IsNaN(f) == FExp(f) = Pow2[ExpBits(Len(f))] - 1 /\ ~ZeroBits(FMan(f))
IsInf(f) == FExp(f) = Pow2[ExpBits(Len(f))] - 1 /\ ZeroBits(FMan(f))
FMake(s, e, man, w) == ToBytes(<<s>> \o NatBits(e, ExpBits(w)) \o man)

FIsZero(f) == f[1] \in {0, 128} /\ IsZero(Tail(f))
\* Quieting: what a conversion instruction does to a signalling NaN.
Quiet(f) == IF IsNaN(f)
            THEN FMake(FSign(f), FExp(f), <<1>> \o Tail(FMan(f)), Len(f)) ELSE f

\* Position (from 1) of the first 1 bit, 0 if none.
RECURSIVE FirstOne(_, _)
FirstOne(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 1 THEN i ELSE FirstOne(b, i + 1)

F32To64(f) ==
  LET s == FSign(f)  e == FExp(f)  man == FMan(f) IN
  IF e = 255 THEN FMake(s, 2047, IF ZeroBits(man) THEN Rep(0, 52) ELSE <<1>> \o Tail(man) \o Rep(0, 29), 8)
  ELSE IF e = 0 THEN
    IF ZeroBits(man) THEN FMake(s, 0, Rep(0, 52), 8)
    ELSE LET p == FirstOne(man, 1)
         IN FMake(s, 1023 - 126 - p, SubSeq(man, p + 1, 23) \o Rep(0, 29 + p), 8)
  ELSE FMake(s, e - 127 + 1023, man \o Rep(0, 29), 8)

\* Add one to a bit vector; a carry out of the top gives one more bit.
RECURSIVE IncBits(_)
IncBits(b) == IF b = <<>> THEN <<1>>
              ELSE IF Last(b) = 0 THEN Append(Front(b), 1)
              ELSE LET h == IncBits(Front(b)) IN Append(h, 0)

\* Round to nearest even: significand bits sig (leading 1 included), value
\* sig * 2^(e) scaled so that sig[1] has weight 2^e; result format width w.
FRound(s, e, sig, w) ==
  LET mb == IF w = 4 THEN 23 ELSE 52
      emin == 1 - Bias(w)
      \* number of significand bits that can be kept
      keep == IF e >= emin THEN mb + 1 ELSE mb + 1 - (emin - e)
      padded == sig \o Rep(0, mb + 3)
      k == IF keep < 0 THEN -1 ELSE keep
      head == IF k <= 0 THEN <<>> ELSE SubSeq(padded, 1, k)
      half == IF k < 0 THEN 0 ELSE padded[k + 1]
      rest == IF k < 0 THEN FALSE ELSE ~ZeroBits(SubSeq(padded, k + 2, Len(padded)))
      odd == IF head = <<>> THEN FALSE ELSE Last(head) = 1
      up == half = 1 /\ (rest \/ odd)
      raw == NatBits(0, mb + 1 - Len(head)) \o head
      inc == IF up THEN IncBits(raw) ELSE raw
      carry == Len(inc) > mb + 1
      \* significand of mb+1 bits after carry
      sg == IF carry THEN SubSeq(inc, 1, mb + 1) ELSE inc
      ee == IF e >= emin THEN (IF carry THEN e + 1 ELSE e) ELSE emin
      be == IF sg[1] = 1 THEN ee + Bias(w) ELSE 0
  IN IF be >= Pow2[ExpBits(w)] - 1 THEN FMake(s, Pow2[ExpBits(w)] - 1, Rep(0, mb), w)
     ELSE FMake(s, be, Tail(sg), w)

F64To32(f) ==
  LET s == FSign(f)  e == FExp(f)  man == FMan(f) IN
  IF e = 2047 THEN FMake(s, 255, IF ZeroBits(man) THEN Rep(0, 23) ELSE <<1>> \o SubSeq(man, 2, 23), 4)
  ELSE IF e = 0 THEN FMake(s, 0, Rep(0, 23), 4)      \* far below float32's range
  ELSE FRound(s, e - 1023, <<1>> \o man, 4)

FConv(f, w) == IF Len(f) = w THEN (IF w = 4 THEN Quiet(f) ELSE f)
               ELSE IF w = 8 THEN F32To64(f) ELSE F64To32(f)

\* Comparison: total on numbers, everything false with NaN.
FKeyLt(a, b) ==   \* neither is NaN
  IF FIsZero(a) /\ FIsZero(b) THEN FALSE
  ELSE IF FSign(a) # FSign(b) THEN FSign(a) = 1
  ELSE IF FSign(a) = 0 THEN ULt(a, b) ELSE ULt(b, a)
FLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FKeyLt(a, b)
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (FIsZero(a) /\ FIsZero(b)))
FNeg(f) == IF f[1] >= 128 THEN <<f[1] - 128>> \o Tail(f) ELSE <<f[1] + 128>> \o Tail(f)

\* A nonzero integer given by its bits (leading 1 first) as a float.
FFromNat(s, bits, w) ==
  LET p == FirstOne(bits, 1) IN
  IF p = 0 THEN FMake(s, 0, Rep(0, IF w = 4 THEN 23 ELSE 52), w)
  ELSE FRound(s, Len(bits) - p, SubSeq(bits, p, Len(bits)), w)
\* signed byte vector to float
FFromInt(bs, w) == FFromNat(IF Neg0(bs) THEN 1 ELSE 0, ToBits(Abs(bs)), w)

--------------------------------------------------------------------------------
(* Float arithmetic: exact result as a bit string, then FRound.                 *)
FNaN(w) == FMake(0, Pow2[ExpBits(w)] - 1, <<1>> \o Rep(0, (IF w = 4 THEN 23 ELSE 52) - 1), w)
FInf(s, w) == FMake(s, Pow2[ExpBits(w)] - 1, Rep(0, IF w = 4 THEN 23 ELSE 52), w)
FZero(s, w) == FMake(s, 0, Rep(0, IF w = 4 THEN 23 ELSE 52), w)
\* significand bits and the weight of the last one
FSig(f) == IF FExp(f) = 0 THEN <<0>> \o FMan(f) ELSE <<1>> \o FMan(f)
FLow(f) == (IF FExp(f) = 0 THEN 1 ELSE FExp(f)) - Bias(Len(f)) - (IF Len(f) = 4 THEN 23 ELSE 52)
\* a bit string with last weight 2^low, rounded
FPut(s, bits, low, w) ==
  LET p == FirstOne(bits, 1) IN
  IF p = 0 THEN FZero(s, w)
  ELSE FRound(s, low + Len(bits) - p, SubSeq(bits, p, Len(bits)), w)
PadL(b, n) == Rep(0, n - Len(b)) \o b
BytesUp(bits) == LET n == ((Len(bits) + 7) \div 8) * 8 IN ToBytes(PadL(bits, n))

FMul(a, b) ==
  LET w == Len(a)  s == (FSign(a) + FSign(b)) % 2 IN
  IF IsNaN(a) \/ IsNaN(b) \/ (IsInf(a) /\ FIsZero(b)) \/ (IsInf(b) /\ FIsZero(a)) THEN FNaN(w)
  ELSE IF IsInf(a) \/ IsInf(b) THEN FInf(s, w)
  ELSE LET x == BytesUp(FSig(a))  y == BytesUp(FSig(b))
           n == Len(x) + Len(y)
       IN FPut(s, ToBits(Mul(Resize(x, n, FALSE), Resize(y, n, FALSE))), FLow(a) + FLow(b), w)

FAdd(a, b) ==
  LET w == Len(a) IN
  IF IsNaN(a) \/ IsNaN(b) \/ (IsInf(a) /\ IsInf(b) /\ FSign(a) # FSign(b)) THEN FNaN(w)
  ELSE IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b
  ELSE IF FIsZero(a) /\ FIsZero(b) THEN FZero(IF FSign(a) = 1 /\ FSign(b) = 1 THEN 1 ELSE 0, w)
  ELSE IF FIsZero(a) THEN b ELSE IF FIsZero(b) THEN a
  ELSE LET hi == IF FLow(a) >= FLow(b) THEN a ELSE b
           lo == IF FLow(a) >= FLow(b) THEN b ELSE a
           d0 == FLow(hi) - FLow(lo)
           lim == IF w = 4 THEN 30 ELSE 60
           \* beyond lim places the smaller operand only matters as "not exact"
           d == IF d0 > lim THEN lim ELSE d0
           low == FLow(hi) - d
           hb == FSig(hi) \o Rep(0, d)
           lb == IF d0 > lim THEN <<1>> ELSE FSig(lo)
           nb == ((Len(hb) + 10) \div 8) * 8
           x == ToBytes(PadL(hb, nb))  y == ToBytes(PadL(lb, nb))
           same == FSign(hi) = FSign(lo)
           r == IF same THEN Add(x, y) ELSE IF ULt(x, y) THEN Sub(y, x) ELSE Sub(x, y)
           s == IF same THEN FSign(hi) ELSE IF IsZero(r) THEN 0
                ELSE IF ULt(x, y) THEN FSign(lo) ELSE FSign(hi)
       IN FPut(s, ToBits(r), low, w)
FSub(a, b) == IF IsNaN(b) THEN FNaN(Len(a)) ELSE FAdd(a, FNeg(b))

FDiv(a, b) ==
  LET w == Len(a)  s == (FSign(a) + FSign(b)) % 2 IN
  IF IsNaN(a) \/ IsNaN(b) \/ (IsInf(a) /\ IsInf(b)) \/ (FIsZero(a) /\ FIsZero(b)) THEN FNaN(w)
  ELSE IF IsInf(a) \/ FIsZero(b) THEN FInf(s, w)
  ELSE IF IsInf(b) \/ FIsZero(a) THEN FZero(s, w)
  ELSE LET ext == IF w = 4 THEN 52 ELSE 112
           nb == ((Len(FSig(a)) + ext + 7) \div 8) * 8
           x == ToBytes(PadL(FSig(a) \o Rep(0, ext), nb))
           y == ToBytes(PadL(FSig(b), nb))
           qr == UDivMod(x, y)
           sticky == IF IsZero(qr[2]) THEN 0 ELSE 1
       IN FPut(s, Append(ToBits(qr[1]), sticky), FLow(a) - ext - FLow(b) - 1, w)
=============================================================================
