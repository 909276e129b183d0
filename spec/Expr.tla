--------------------------------- MODULE Expr ---------------------------------
(* The meaning of restruct expressions: a total evaluator over typed values.    *)
(*                                                                              *)
(* A type is a record [k, g, w, n, nm, e, f]: class, Go kind, bytes, array      *)
(* length, name, element types, fields.  A value is                             *)
(*   number, bool   big-endian bytes of the type's width                        *)
(*   string         its bytes           slice, array, struct   sequence         *)
(*   pointer        <<>> or <<target>>  map                    <<key,value>>s   *)
(*   enclosing-struct reference (k = "ref")  <<level>>, 0 = nil                  *)
(* Untyped constants have class ui (9 bytes signed), uf (8), ub, un.            *)
(*                                                                              *)
(* A result is [st, t, v, ad] with st "ok", "err", or "unspec" where the        *)
(* language (as far as documentation, tests and Go's rules fix it) leaves the   *)
(* outcome open; nothing is checked about an unspecified result except that it  *)
(* is a value or an error.                                                      *)
EXTENDS BV

Ty(k, g, w) == [k |-> k, g |-> g, w |-> w, n |-> 0, nm |-> "", e |-> <<>>, f |-> <<>>]
NoTy == Ty("no", "no", 0)
TBool == Ty("bool", "bool", 1)
TInt == Ty("int", "int", 8)
TUint == Ty("uint", "uint", 8)
TU8 == Ty("uint", "uint8", 1)
TU16 == Ty("uint", "uint16", 2)
TU32 == Ty("uint", "uint32", 4)
TU64 == Ty("uint", "uint64", 8)
TUptr == Ty("uint", "uintptr", 8)
TF64 == Ty("float", "float64", 8)
TStr == Ty("str", "string", 0)
TUI == Ty("ui", "ui", 9)
TUF == Ty("uf", "uf", 8)
TUB == Ty("ub", "ub", 1)
TUN == Ty("un", "un", 0)
TPtr(t) == [Ty("ptr", "ptr", 8) EXCEPT !.e = <<t>>]
\* a named type is used like its underlying type
Plain(t) == IF t.k \in {"bool", "int", "uint", "float", "str"} THEN Ty(t.k, t.g, t.w) ELSE t

Ok(t, v) == [st |-> "ok", t |-> t, v |-> v, ad |-> FALSE]
OkA(t, v) == [st |-> "ok", t |-> t, v |-> v, ad |-> TRUE]
Err == [st |-> "err", t |-> NoTy, v |-> <<>>, ad |-> FALSE]
Unspec == [st |-> "unspec", t |-> NoTy, v |-> <<>>, ad |-> FALSE]
BoolV(b) == Ok(TBool, IF b THEN <<1>> ELSE <<0>>)

IsPrim(t) == t.k \in {"bool", "int", "uint", "float", "str"}
IsInt(t) == t.k \in {"int", "uint"}
IsUntyped(t) == t.k \in {"ui", "uf", "ub", "un"}
SameType(a, b) == IF IsPrim(a) /\ IsPrim(b) THEN a.g = b.g
                  ELSE IF IsUntyped(a) /\ IsUntyped(b) THEN a.k = b.k
                  ELSE FALSE

\* An untyped constant as a value of type t (C29).
Convert(c, t) ==
  IF c.t.k = "ui" THEN
    IF t.k = "int" THEN IF FitsS(c.v, t.w) THEN Ok(Plain(t), Resize(c.v, t.w, TRUE)) ELSE Unspec
    ELSE IF t.k = "uint" THEN IF FitsU(c.v, t.w) THEN Ok(Plain(t), Resize(c.v, t.w, TRUE)) ELSE Unspec
    ELSE IF t.k = "float" THEN
      LET d == FFromInt(c.v, 8) IN Ok(Plain(t), IF t.w = 8 THEN d ELSE F64To32(d))
    ELSE Err
  ELSE IF c.t.k = "uf" THEN
    IF t.k = "float" THEN Ok(Plain(t), FConv(c.v, t.w)) ELSE Err
  ELSE IF c.t.k = "ub" THEN IF t.k = "bool" THEN Ok(TBool, c.v) ELSE Err
  ELSE Err

\* Bring two operands to one type: <<l, r>> or a failure in both positions.
Coerce(l, r) ==
  IF l.t.k = "ui" /\ r.t.k = "ui" THEN
    LET a == IF FitsS(l.v, 8) THEN Ok(TInt, Resize(l.v, 8, TRUE)) ELSE Unspec
        b == IF FitsS(r.v, 8) THEN Ok(TInt, Resize(r.v, 8, TRUE)) ELSE Unspec
    IN IF a.st # "ok" THEN <<a, a>> ELSE IF b.st # "ok" THEN <<b, b>> ELSE <<a, b>>
  ELSE IF SameType(l.t, r.t) THEN
    <<[l EXCEPT !.t = Plain(l.t)], [r EXCEPT !.t = Plain(r.t)]>>
  ELSE IF IsUntyped(l.t) /\ IsUntyped(r.t) THEN <<Err, Err>>
  ELSE IF IsUntyped(l.t) THEN
    LET a == Convert(l, r.t) IN
    IF a.st # "ok" THEN <<a, a>> ELSE <<a, [r EXCEPT !.t = Plain(r.t)]>>
  ELSE IF IsUntyped(r.t) THEN
    LET b == Convert(r, l.t) IN
    IF b.st # "ok" THEN <<b, b>> ELSE <<[l EXCEPT !.t = Plain(l.t)], b>>
  ELSE <<Err, Err>>

--------------------------------------------------------------------------------
ArithInt(op, t, a, b) ==
  CASE op = "+" -> Ok(t, Add(a, b))
    [] op = "-" -> Ok(t, Sub(a, b))
    [] op = "*" -> Ok(t, Mul(a, b))
    [] op = "/" -> IF IsZero(b) THEN Err ELSE Ok(t, IF t.k = "int" THEN SDiv(a, b) ELSE UDiv(a, b))
    [] op = "%" -> IF IsZero(b) THEN Err ELSE Ok(t, IF t.k = "int" THEN SRem(a, b) ELSE URem(a, b))
    [] op = "&" -> Ok(t, BAnd(a, b))
    [] op = "|" -> Ok(t, BOr(a, b))
    [] op = "^" -> Ok(t, BXor(a, b))
    [] op = "&^" -> Ok(t, BAndNot(a, b))
    [] OTHER -> Err

ArithFloat(op, t, a, b) ==
  CASE op = "+" -> Ok(t, FAdd(a, b))
    [] op = "-" -> Ok(t, FSub(a, b))
    [] op = "*" -> Ok(t, FMul(a, b))
    [] op = "/" -> Ok(t, FDiv(a, b))
    [] OTHER -> Err

Arith(op, l, r) ==
  LET c == Coerce(l, r) IN
  IF c[1].st # "ok" THEN c[1]
  ELSE IF IsInt(c[1].t) THEN ArithInt(op, c[1].t, c[1].v, c[2].v)
  ELSE IF c[1].t.k = "float" THEN ArithFloat(op, c[1].t, c[1].v, c[2].v)
  ELSE IF c[1].t.k = "uf" THEN
    \* two float constants: only constant folding that the code does is + - * /
    LET x == ArithFloat(op, TF64, c[1].v, c[2].v) IN x
  ELSE IF c[1].t.k = "str" /\ op = "+" THEN Ok(TStr, c[1].v \o c[2].v)
  ELSE Err

Less(t, a, b) ==
  CASE t.k = "int" -> SLt(a, b)
    [] t.k = "uint" -> ULt(a, b)
    [] t.k \in {"float", "uf"} -> FLt(a, b)
Same(t, a, b) == IF t.k \in {"float", "uf"} THEN FEq(a, b) ELSE a = b

Nilable(t) == t.k \in {"ptr", "ref", "slice", "map", "fn"}
IsNilV(x) == IF x.t.k = "ptr" THEN x.v = <<>> ELSE IF x.t.k = "ref" THEN x.v = <<0>> ELSE FALSE

Compare(op, l, r) ==
  IF l.t.k = "un" \/ r.t.k = "un" THEN
    IF op \notin {"==", "!="} THEN (IF l.t.k = "un" /\ r.t.k = "un" THEN Err ELSE
         IF Nilable(l.t) \/ Nilable(r.t) THEN Err ELSE Err)
    ELSE IF l.t.k = "un" /\ r.t.k = "un" THEN Err
    ELSE LET x == IF l.t.k = "un" THEN r ELSE l IN
         IF x.t.k \in {"ptr", "ref"} THEN BoolV((op = "==") = IsNilV(x))
         ELSE IF Nilable(x.t) THEN Unspec ELSE Err
  ELSE
    LET c == Coerce(l, r) IN
    IF c[1].st # "ok" THEN
      \* comparing composite values of one type is left open
      IF c[1].st = "err" /\ l.t.k = r.t.k /\ ~IsPrim(l.t) /\ ~IsUntyped(l.t) THEN Unspec ELSE c[1]
    ELSE LET t == c[1].t  a == c[1].v  b == c[2].v IN
      CASE op = "==" -> BoolV(Same(t, a, b))
        [] op = "!=" -> BoolV(~Same(t, a, b))
        [] t.k \notin {"int", "uint", "float", "uf"} -> Err   \* strings have no order
        [] op = "<" -> BoolV(Less(t, a, b))
        [] op = ">" -> BoolV(Less(t, b, a))
        [] op = "<=" -> BoolV(Less(t, a, b) \/ Same(t, a, b))
        [] op = ">=" -> BoolV(Less(t, b, a) \/ Same(t, a, b))

IsBool(x) == x.t.k \in {"bool", "ub"}
Logic(op, l, r) ==
  IF ~IsBool(l) \/ ~IsBool(r) THEN Err
  ELSE IF op = "&&" THEN BoolV(l.v = <<1>> /\ r.v = <<1>>)
  ELSE BoolV(l.v = <<1>> \/ r.v = <<1>>)

\* Shift: the count is unsigned (a constant must not be negative).
Shift(op, l, r) ==
  LET a == IF l.t.k = "ui"
           THEN (IF FitsS(l.v, 8) THEN Ok(TInt, Resize(l.v, 8, TRUE)) ELSE Unspec)
           ELSE [l EXCEPT !.t = Plain(l.t), !.ad = FALSE]
  IN IF a.st # "ok" THEN a
     ELSE IF ~IsInt(a.t) THEN Err
     ELSE IF r.t.k = "ui" /\ Neg0(r.v) THEN Err
     ELSE IF r.t.k \notin {"uint", "ui"} THEN Err
     ELSE LET n == UVal(r.v) IN
       Ok(a.t, IF op = "<<" THEN Shl(a.v, n)
               ELSE IF a.t.k = "int" THEN SShr(a.v, n) ELSE UShr(a.v, n))

Unary(op, x) ==
  CASE op = "u+" -> IF IsInt(x.t) \/ x.t.k \in {"float", "ui", "uf"} THEN [x EXCEPT !.ad = FALSE] ELSE Unspec
    [] op = "u-" ->
         IF IsInt(x.t) THEN Ok(Plain(x.t), Neg(x.v))
         ELSE IF x.t.k = "ui" THEN
           (IF FitsS(Neg(x.v), 8) /\ Neg(x.v) # x.v THEN Ok(TUI, Neg(x.v)) ELSE IF IsZero(x.v) THEN Ok(TUI, x.v) ELSE Unspec)
         ELSE IF x.t.k = "float" THEN Ok(Plain(x.t), FNeg(x.v))
         ELSE IF x.t.k = "uf" THEN Ok(TUF, FNeg(x.v))
         ELSE Err
    [] op = "u!" -> IF IsBool(x) THEN Ok(Plain(x.t), <<1 - x.v[1]>>) ELSE Err
    [] op = "u^" ->
         IF IsInt(x.t) THEN Ok(Plain(x.t), BNot(x.v))
         ELSE IF x.t.k = "ui" THEN (IF FitsS(x.v, 8) THEN Ok(TUI, BNot(x.v)) ELSE Unspec)
         ELSE Err
    [] OTHER -> Err

--------------------------------------------------------------------------------
(* The functions of package bits, by mathematical definition on bit vectors.    *)
RECURSIVE LeadZ(_, _)
LeadZ(b, i) == IF i > Len(b) THEN Len(b) ELSE IF b[i] = 1 THEN i - 1 ELSE LeadZ(b, i + 1)
RECURSIVE Ones(_, _)
Ones(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + Ones(b, i + 1)
RotL(b, k) == [i \in 1..Len(b) |-> b[((i - 1 + k) % Len(b)) + 1]]
\* k modulo the width, for a signed 8-byte count (widths are powers of two <= 64)
RotCount(c, w) == c[8] % w
BitsFn(f, x, c) ==
  LET b == ToBits(x)  I(n) == Ok(TInt, IntBytes(n, 8)) IN
  CASE f = "LeadingZeros" -> I(LeadZ(b, 1))
    [] f = "TrailingZeros" -> I(LeadZ(Rev(b), 1))
    [] f = "OnesCount" -> I(Ones(b, 1))
    [] f = "Len" -> I(Len(b) - LeadZ(b, 1))
    [] f = "Reverse" -> Ok(NoTy, ToBytes(Rev(b)))
    [] f = "ReverseBytes" -> Ok(NoTy, Rev(x))
    [] f = "RotateLeft" -> Ok(NoTy, ToBytes(RotL(b, RotCount(c, Len(b)))))

BitsBase == {"LeadingZeros", "TrailingZeros", "OnesCount", "Len", "Reverse", "ReverseBytes", "RotateLeft"}
BitsTypes == << <<"", TUint>>, <<"8", TU8>>, <<"16", TU16>>, <<"32", TU32>>, <<"64", TU64>> >>
\* name -> [base, type]
BitsTable == { [nm |-> b \o BitsTypes[i][1], base |-> b, t |-> BitsTypes[i][2]] :
                 b \in BitsBase, i \in 1..5 } 
BitsHas(nm) == \E r \in BitsTable : r.nm = nm /\ ~(r.base = "ReverseBytes" /\ r.t.w = 1)
BitsRow(nm) == CHOOSE r \in BitsTable : r.nm = nm
\* functions the harness puts into resolvers
TestFns == {"addu8", "cat", "negi", "pick", "half", "sums", "joins"}
\* the types of n arguments; a variadic function takes any number of the last
FnIn(nm, n) ==
  CASE nm = "addu8" -> <<TU8, TU8>>
    [] nm = "cat" -> <<TStr, TStr>>
    [] nm = "negi" -> <<TInt>>
    [] nm = "pick" -> <<TBool, TU16, TU16>>
    [] nm = "half" -> <<TF64>>
    [] nm = "sums" -> <<TU16>> \o Rep(TU8, IF n = 0 THEN 0 ELSE n - 1)
    [] nm = "joins" -> Rep(TStr, n)
    [] OTHER -> LET r == BitsRow(nm) IN IF r.base = "RotateLeft" THEN <<r.t, TInt>> ELSE <<r.t>>
RECURSIVE SumOf(_, _)
SumOf(a, n) == IF n = 1 THEN a[1] ELSE Add(SumOf(a, n - 1), <<0>> \o a[n])
RECURSIVE JoinOf(_, _)
JoinOf(a, i) == IF i > Len(a) THEN <<>> ELSE a[i] \o (IF i < Len(a) THEN <<45>> ELSE <<>>) \o JoinOf(a, i + 1)
FnApply(nm, a) ==
  CASE nm = "addu8" -> Ok(TU8, Add(a[1], a[2]))
    [] nm = "cat" -> Ok(TStr, a[1] \o a[2])
    [] nm = "negi" -> Ok(TInt, Neg(a[1]))
    [] nm = "pick" -> Ok(TU16, IF a[1] = <<1>> THEN a[2] ELSE a[3])
    [] nm = "half" -> Ok(TF64, FMul(a[1], <<63, 224, 0, 0, 0, 0, 0, 0>>))
    [] nm = "sums" -> Ok(TU16, SumOf(a, Len(a)))
    [] nm = "joins" -> Ok(TStr, JoinOf(a, 1))
    [] OTHER -> LET r == BitsRow(nm)
                    x == BitsFn(r.base, a[1], IF Len(a) > 1 THEN a[2] ELSE <<>>)
                IN IF x.t.k = "no" THEN Ok(r.t, x.v) ELSE x

--------------------------------------------------------------------------------
(* Environments: [lay, stk, eof, std].  lay: layers of [f, vs] searched in      *)
(* order; stk: enclosing structs [t, vs], outermost first, for references;      *)
(* eof: 0/1, 2 = no such name, 3 = not specified; std: is package bits visible.                       *)
RECURSIVE FieldIdx(_, _, _)
FieldIdx(fs, nm, i) == IF i > Len(fs) THEN 0 ELSE IF fs[i].nm = nm THEN i ELSE FieldIdx(fs, nm, i + 1)

(* The path to the field that a name selects: the shallowest, through embedded    *)
(* structs, and none if there are several at that depth.                         *)
Embedded(f) == IF "em" \in DOMAIN f THEN f.em ELSE FALSE
Inner(t) == IF t.k = "ptr" THEN t.e[1].f ELSE t.f
RECURSIVE Shallowest(_, _), Deeper(_, _)
\* lv: what is embedded at some depth, [p path, f fields]
Deeper(lv, i) ==
  IF i > Len(lv) THEN <<>>
  ELSE LET fs == lv[i].f
           RECURSIVE Of(_)
           Of(j) == IF j > Len(fs) THEN <<>>
                    ELSE (IF Embedded(fs[j]) THEN << [p |-> Append(lv[i].p, j), f |-> Inner(fs[j].t)] >> ELSE <<>>) \o Of(j + 1)
       IN Of(1) \o Deeper(lv, i + 1)
Shallowest(lv, nm) ==
  IF lv = <<>> THEN <<>>
  ELSE LET hits == SelectSeq(lv, LAMBDA x : FieldIdx(x.f, nm, 1) # 0) IN
    IF Len(hits) = 1 THEN Append(hits[1].p, FieldIdx(hits[1].f, nm, 1))
    ELSE IF Len(hits) > 1 THEN <<>>
    ELSE Shallowest(Deeper(lv, 1), nm)
FieldPath(fs, nm) == Shallowest(<< [p |-> <<>>, f |-> fs] >>, nm)

\* The field at a path, of fields fs with values vs; ad: is it addressable.
RECURSIVE Follow(_, _, _, _)
Follow(fs, vs, p, ad) ==
  LET f == fs[p[1]]  v == vs[p[1]] IN
  IF Len(p) = 1 THEN IF f.cls = "u" THEN Err ELSE [Ok(f.t, v) EXCEPT !.ad = ad]
  ELSE IF f.t.k = "ptr" THEN IF v = <<>> THEN Err ELSE Follow(f.t.e[1].f, v[1], Tail(p), TRUE)
  ELSE Follow(f.t.f, v, Tail(p), ad)

RECURSIVE Lookup(_, _, _)
Lookup(lay, nm, i) ==
  IF i > Len(lay) THEN Err
  ELSE LET p == FieldPath(lay[i].f, nm) IN
       IF p = <<>> THEN Lookup(lay, nm, i + 1)
       ELSE [Follow(lay[i].f, lay[i].vs, p, FALSE) EXCEPT !.ad = FALSE]

Resolve(env, nm) ==
  IF nm = "_eof" /\ env.eof = 3 THEN Unspec
  ELSE IF nm = "_eof" /\ env.eof # 2 THEN BoolV(env.eof = 1)
  ELSE IF env.std /\ nm = "bits" THEN Ok(Ty("pkg", "bits", 0), <<>>)
  ELSE Lookup(env.lay, nm, 1)

Deref(env, x) ==
  IF x.t.k = "ptr" THEN IF x.v = <<>> THEN Err ELSE OkA(x.t.e[1], x.v[1])
  ELSE IF x.t.k = "ref" THEN
    IF x.v[1] = 0 THEN Err
    ELSE IF x.v[1] > Len(env.stk) THEN Unspec
    ELSE OkA(env.stk[x.v[1]].t, env.stk[x.v[1]].vs)
  ELSE Err

RECURSIVE Dot(_, _, _)
Dot(env, x, nm) ==
  IF x.t.k = "pkg" THEN
    IF x.t.g = "bits" /\ BitsHas(nm) THEN Ok([Ty("fn", "func", 8) EXCEPT !.nm = nm], <<>>) ELSE Err
  ELSE IF x.t.k = "struct" THEN
    LET p == FieldPath(x.t.f, nm) IN IF p = <<>> THEN Err ELSE Follow(x.t.f, x.v, p, x.ad)
  ELSE IF x.t.k \in {"ptr", "ref"} THEN
    LET d == Deref(env, x) IN IF d.st # "ok" THEN d ELSE Dot(env, d, nm)
  ELSE Err

\* An index value as a natural number, -1 if negative or huge.
IdxNat(i) == IF i.st # "ok" THEN -1 ELSE IF Neg0(i.v) THEN -1 ELSE UVal(i.v)
AsInt(x) == IF SameType(x.t, TInt) THEN Ok(TInt, x.v) ELSE IF IsUntyped(x.t) THEN Convert(x, TInt) ELSE Err

IsScalar(t) == t.k \in {"bool", "int", "uint", "float", "complex"}
\* the zero value of a type
RECURSIVE Zero(_)
Zero(t) ==
  CASE IsScalar(t) -> Rep(0, t.w)
    [] t.k \in {"str", "slice", "ptr"} -> <<>>
    [] t.k = "array" -> Rep(Zero(t.e[1]), t.n)
    [] t.k = "struct" -> [i \in 1..Len(t.f) |-> Zero(t.f[i].t)]
    [] t.k = "ref" -> <<0>>
    [] t.k = "cu" -> (CASE t.nm \in {"CuP", "CuV", "CuB", "CuR"} -> << <<>>, 0, 0 >>
                        [] t.nm \in {"CuN", "CuA"} -> <<0, 0>>
                        [] t.nm = "CuS" -> <<>>)
    [] OTHER -> <<>>

RECURSIVE MapFind(_, _, _)
MapFind(m, k, i) == IF i > Len(m) THEN 0 ELSE IF m[i][1] = k THEN i ELSE MapFind(m, k, i + 1)

Index(x, i) ==
  IF x.t.k \in {"str", "array", "slice"} THEN
    LET n == AsInt(i) IN
    IF n.st # "ok" THEN n
    ELSE LET j == IdxNat(n) IN
      IF j < 0 \/ j >= Len(x.v) THEN Err
      ELSE IF x.t.k = "str" THEN Ok(TU8, <<x.v[j + 1]>>)
      ELSE [Ok(x.t.e[1], x.v[j + 1]) EXCEPT !.ad = (x.t.k = "slice" \/ x.ad)]
  ELSE IF x.t.k = "map" THEN
    LET n == IF SameType(i.t, x.t.e[1]) THEN Ok(i.t, i.v)
             ELSE IF IsUntyped(i.t) THEN Convert(i, x.t.e[1]) ELSE Err
    IN IF n.st # "ok" THEN n
       ELSE LET j == MapFind(x.v, n.v, 1) IN
         IF j = 0 THEN Ok(x.t.e[2], Zero(x.t.e[2])) ELSE Ok(x.t.e[2], x.v[j][2])
  ELSE Err

RECURSIVE ConvArgs(_, _, _)
ConvArgs(args, ins, i) ==
  IF i > Len(args) THEN <<>>
  ELSE LET a == args[i]
           c == IF SameType(a.t, ins[i]) THEN a
                ELSE IF IsUntyped(a.t) THEN Convert(a, ins[i]) ELSE Err
       IN <<c>> \o ConvArgs(args, ins, i + 1)
\* First failure in a sequence of results (unspec before err), or an ok.
Bad(rs) ==
  IF \E i \in 1..Len(rs) : rs[i].st = "unspec" THEN Unspec
  ELSE IF \E i \in 1..Len(rs) : rs[i].st = "err" THEN Err ELSE BoolV(TRUE)
Call(fn, args) ==
  IF fn.t.k # "fn" THEN Err
  ELSE LET ins == FnIn(fn.t.nm, Len(args)) IN
    IF Len(ins) # Len(args) THEN Err
    ELSE LET cs == ConvArgs(args, ins, 1)  b == Bad(cs) IN
      IF b.st # "ok" THEN b ELSE FnApply(fn.t.nm, [i \in 1..Len(cs) |-> cs[i].v])

BinArith == {"+", "-", "*", "/", "%", "&", "|", "^", "&^"}
BinCmp == {"==", "!=", "<", "<=", ">", ">="}

RECURSIVE Eval(_, _), EvalArgs(_, _, _)
EvalArgs(env, a, i) == IF i > Len(a) THEN <<>> ELSE <<Eval(env, a[i])>> \o EvalArgs(env, a, i + 1)

Eval(env, x) ==
  CASE x.op = "id" -> Resolve(env, x.s)
    [] x.op \in {"int", "rune"} -> Ok(TUI, x.v)
    [] x.op = "flt" -> Ok(TUF, x.v)
    [] x.op = "bool" -> Ok(TUB, x.v)
    [] x.op = "str" -> Ok(TStr, x.v)
    [] x.op = "nil" -> Ok(TUN, <<>>)
    [] x.op = "unspec" -> Unspec
    [] x.op \in {"bad", "off"} -> Err
    [] x.op = "u*" -> LET p == Eval(env, x.a[1]) IN IF p.st # "ok" THEN p ELSE Deref(env, p)
    [] x.op = "u&" -> LET p == Eval(env, x.a[1]) IN
         IF p.st # "ok" THEN p ELSE IF p.ad THEN Ok(TPtr(p.t), <<p.v>>) ELSE Err
    [] x.op \in {"u+", "u-", "u!", "u^"} ->
         LET p == Eval(env, x.a[1]) IN IF p.st # "ok" THEN p ELSE Unary(x.op, p)
    [] x.op = "." -> LET p == Eval(env, x.a[1]) IN IF p.st # "ok" THEN p ELSE Dot(env, p, x.s)
    [] x.op = "call" ->
         LET rs == EvalArgs(env, x.a, 1)  b == Bad(rs) IN
         IF b.st # "ok" THEN b ELSE Call(rs[1], Tail(rs))
    [] x.op = "?:" ->
         LET c == Eval(env, x.a[1]) IN
         IF c.st # "ok" THEN c
         ELSE IF ~IsBool(c) THEN Err
         ELSE [Eval(env, IF c.v = <<1>> THEN x.a[2] ELSE x.a[3]) EXCEPT !.ad = FALSE]
    [] x.op \in {"&&", "||"} ->
         LET l == Eval(env, x.a[1])  r == Eval(env, x.a[2]) IN
         IF l.st # "ok" THEN l
         ELSE IF r.st # "ok" THEN
           \* whether the right side is evaluated once the left decides is left open
           (IF IsBool(l) /\ ((x.op = "&&") = (l.v = <<0>>)) THEN Unspec ELSE r)
         ELSE Logic(x.op, l, r)
    [] x.op = "[]" ->
         LET l == Eval(env, x.a[1])  r == Eval(env, x.a[2])  b == Bad(<<l, r>>) IN
         IF b.st # "ok" THEN b ELSE Index(l, r)
    [] OTHER ->
         LET l == Eval(env, x.a[1])  r == Eval(env, x.a[2])  b == Bad(<<l, r>>) IN
         IF b.st # "ok" THEN b
         ELSE IF x.op \in BinArith THEN Arith(x.op, l, r)
         ELSE IF x.op \in BinCmp THEN Compare(x.op, l, r)
         ELSE IF x.op \in {"<<", ">>"} THEN Shift(x.op, l, r)
         ELSE Err
=============================================================================
