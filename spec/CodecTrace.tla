------------------------------ MODULE CodecTrace ------------------------------
(* Checks recorded histories of calls against the codec machine.                *)
(*                                                                              *)
(* Each line of the file named by the environment variable CASES is one history: *)
(* a type and a sequence of calls (pack, unpack, sizeof, bitsize) with their     *)
(* arguments and everything that could be observed.  Two kinds of operations    *)
(* are computed by the specification alone: vdec decodes what the specification *)
(* would have packed in operation `of', venc packs what it would have decoded.  *)
(*                                                                              *)
(* The behaviours of this specification are, for each history, the steps of the *)
(* codec machine for each of its calls.  When a call ends, what was observed is  *)
(* compared with what the machine arrived at, and the list of broken aspects is  *)
(* printed.                                                                     *)
EXTENDS Codec, TagSyntax, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)
Devs == {"signext"}

VARIABLES c,    \* history
          ts,   \* its types
          k,    \* operation
          n,    \* step of the machine
          m,    \* the machine
          dv,   \* deviations followed
          bad,  \* broken aspects so far: <<operation, aspect, deviation needed?>>
          res   \* what the specification says about each operation so far

vars == <<c, ts, k, n, m, dv, bad, res>>
View == <<c, k, n, dv>>

Ops == Cases[c].ops
\* the type of operation j; expressions are enabled by an operation in some histories
Enabled(j) == ~Cases[c].off \/ \E i \in 1..j : Ops[i].op = "enable"
OpType(j) == ts[Ops[j].ti + IF Enabled(j) THEN 0 ELSE Len(Cases[c].ts)]

Idle == [st |-> "idle"]
\* the machine for operation j
Start(j, rs, d) ==
  LET o == Ops[j]
      T == OpType(j)
      x == IF o.x = <<>> /\ T.k = "struct" /\ Len(T.f) > 0 THEN Zero(T) ELSE o.x
  IN CASE o.arg # "" \/ T.k \in {"badtag", "opentag"} -> Idle
       [] o.op = "unpack" -> Machine("dec", T, x, o.inp, o.ord, d)
       [] o.op = "pack" -> Machine("enc", T, x, <<>>, o.ord, d)
       [] o.op = "vdec" -> IF rs[o.of].st = "ok" THEN Machine("dec", T, Zero(T), rs[o.of].out, o.ord, d) ELSE Idle
       [] o.op = "venc" -> IF rs[o.of].st = "ok" THEN Machine("enc", T, rs[o.of].val, <<>>, o.ord, d) ELSE Idle
       [] OTHER -> Idle

Init ==
  /\ c \in 1..NCases
  /\ k = 0 /\ n = 0 /\ dv = {} /\ bad = <<>> /\ res = <<>> /\ ts = <<>>
  /\ m = Idle

\* The types of the history: as given (raw 0), or found in the text of struct tags
\* (raw 1); raw 2: only whether the tags are well-formed is judged.
Meant(t) == IF Cases[c].raw = 0 THEN t
  ELSE LET r == TypeMeant(t) IN IF Cases[c].raw = 2 /\ r.k # "badtag" THEN [k |-> "opentag", g |-> t.g] ELSE r
\* Operators are passed as arguments below because TLC, when it starts, walks the
\* whole call tree of every definition without parameters, once per path.
Load(Mt(_), Wo(_)) ==
  /\ k = 0
  /\ LET all == [i \in 1..Len(Cases[c].ts) |-> TLCEval(Mt(Cases[c].ts[i]))]
     IN ts' = IF Cases[c].off THEN all \o [i \in 1..Len(all) |-> TLCEval(Wo(all[i]))] ELSE all
  /\ k' = 1 /\ n' = -1
  /\ UNCHANGED <<c, m, dv, bad, res>>
Begin(St(_, _, _)) ==
  /\ k = 1 /\ n = -1
  /\ m' = IF Len(Cases[c].ops) = 0 THEN Idle ELSE St(1, <<>>, {})
  /\ n' = 0
  /\ UNCHANGED <<c, ts, k, dv, bad, res>>

\* outcome of operation k according to the machine
Outcome(o) ==
  CASE o.op \in {"sizeof", "bitsize"} ->
         LET q == IF o.arg = "badtag" \/ (o.arg = "" /\ OpType(k).k = "badtag") THEN [n |-> -1, v |-> <<>>] ELSE IF o.arg # "" \/ OpType(k).k = "opentag" THEN [n |-> -2, v |-> <<>>] ELSE Measure(OpType(k), o.x)  s == q.n IN
         [st |-> IF s = -2 THEN "unspec" ELSE IF s = -1 THEN "err" ELSE "ok",
          val |-> q.v, out |-> <<>>, n |-> IF o.op = "sizeof" THEN BytesOf(s) ELSE s, calls |-> 0, why |-> IF o.arg = "" /\ OpType(k).k = "badtag" THEN OpType(k).why ELSE ""]
    [] o.arg = "badtag" \/ (o.arg = "" /\ OpType(k).k = "badtag") -> [st |-> "err", val |-> <<>>, out |-> <<>>, n |-> 0, calls |-> 0, why |-> IF o.arg = "" /\ ~(o.op = "unpack" /\ o.byval) THEN OpType(k).why ELSE ""]
    [] m.st = "idle" -> [st |-> "unspec", val |-> <<>>, out |-> <<>>, n |-> 0, calls |-> 0, why |-> ""]
    [] m.st = "ok" ->
         [st |-> "ok", val |-> m.res, out |-> IF m.mode = "enc" THEN Output(m) ELSE <<>>,
          n |-> m.pos, calls |-> m.calls, why |-> ""]
    [] OTHER -> [st |-> m.st, val |-> <<>>, out |-> <<>>, n |-> 0, calls |-> m.calls, why |-> m.why]

\* a type that decodes itself without a pointer may be unpacked by value
DecodesByValue(t) == t.k = "cu" /\ t.nm = "CuR"

\* v with the parts behind pointers and in slices as in w: a value that is passed
\* by value is copied, but shares those parts with the copy.
RECURSIVE Shared(_, _, _)
Shared(t, v, w) ==
  CASE t.k = "struct" -> [i \in 1..Len(v) |-> Shared(t.f[i].t, v[i], w[i])]
    [] t.k = "array" -> [i \in 1..Len(v) |-> Shared(t.e[1], v[i], w[i])]
    [] t.k \in {"slice", "ptr"} -> w
    [] OTHER -> v

\* Aspects in which observation o differs from outcome e.
Broken(o, e) ==
  LET T == OpType(k)
      byvalUnpack == o.arg = "" /\ T.k \notin {"badtag", "opentag"} /\ o.op = "unpack" /\ o.byval /\ ~DecodesByValue(T) IN
  IF o.st = "virt" THEN {}
  ELSE IF o.st \in {"panic", "hang", "crash"} THEN {o.st}
  ELSE (IF o.inmod THEN {"input"} ELSE {}) \cup
    (IF o.alias THEN {"alias"} ELSE {}) \cup
    (IF o.canon /\ (o.st # "ok" \/ o.out # Ops[o.of].inp) THEN {"repack"} ELSE {}) \cup
    (IF byvalUnpack THEN
       (IF o.st # "err" THEN {"status"} ELSE {}) \cup (IF o.y # o.x THEN {"value"} ELSE {})
     ELSE IF e.st = "unspec" THEN {}
     ELSE IF o.st # e.st THEN {"status"}
     \* an error of which the specification knows where it comes from
     \* (that the input is too short may come to light before a codec fails)
     ELSE IF e.st = "err" /\ o.op = "unpack" /\ o.why = "eof" /\ e.why \notin {"size", "sizeof", "sizefrom", "bits"} THEN {}
     ELSE IF e.st = "err" THEN
       (IF e.why # "" /\ o.why # e.why THEN {"error"} ELSE {}) \cup (IF e.why # "" /\ o.op \in {"pack", "unpack"} /\ o.calls \notin {-1, e.calls} THEN {"calls"} ELSE {})
     ELSE
       CASE o.op = "unpack" -> (IF o.y # e.val THEN {"value"} ELSE {}) \cup (IF o.calls \notin {-1, e.calls} THEN {"calls"} ELSE {})
         [] o.op = "pack" ->
              (IF o.out # e.out THEN {"bytes"} ELSE {}) \cup
              (IF ~o.byval /\ o.y # e.val THEN {"post"} ELSE {}) \cup
              (IF o.byval /\ o.y # o.x /\ o.y # Shared(T, o.x, e.val) THEN {"post"} ELSE {}) \cup
              (IF o.calls \notin {-1, e.calls} THEN {"calls"} ELSE {})
         [] OTHER ->
              (IF o.n # e.n THEN {"size"} ELSE {}) \cup
              (IF o.byval /\ o.y # o.x /\ o.y # Shared(T, o.x, e.val) THEN {"post"} ELSE {}) \cup
              (IF ~o.byval /\ o.y # o.x /\ o.y # e.val THEN {"post"} ELSE {}))

RECURSIVE Pairs(_, _, _)
Pairs(j, ss, known) == IF ss = {} THEN <<>>
  ELSE LET a == CHOOSE a \in ss : TRUE IN << <<j, a, known>> >> \o Pairs(j, ss \ {a}, known)

\* Relations between several calls of one history, on the observed results; the
\* specification only says where they apply.
Rel ==
  LET R(j) == res[j]
      J == 1..Len(Ops)
      \* C01: unpacking what was packed gives the value the specification decodes
      \* from its own encoding
      \* (a decoding that followed a known deviation differs by just that)
      Dev(j) == \E i \in 1..Len(bad) : bad[i] = <<j, "signext", TRUE>>
      rt == { <<j, "roundtrip", Dev(j - 1)>> : j \in { j \in J :
               /\ Ops[j].op = "vdec" /\ R(j).st = "ok" /\ R(Ops[j].of).st = "ok" /\ Ops[Ops[j].of].st = "ok"
               /\ Ops[j-1].op = "unpack" /\ Ops[j-1].of = Ops[j].of
               /\ (Ops[j-1].st # "ok" \/ Ops[j-1].y # R(j).val) } }
      \* C02: packing what was unpacked gives the bytes that the specification says
      rp == { <<j, "repack", FALSE>> : j \in { j \in J :
               /\ Ops[j].op = "venc" /\ R(j).st = "ok" /\ R(Ops[j].of).st = "ok" /\ Ops[Ops[j].of].st = "ok"
               /\ Ops[j-1].op = "pack" /\ Ops[j-1].of = Ops[j].of
               /\ (Ops[j-1].st # "ok" \/ Ops[j-1].out # R(j).out) } }
      \* C03: the observed sizes agree
      P == { j \in J : Ops[j].op \in {"pack", "sizeof", "bitsize"} /\ R(j).st = "ok" /\ Ops[j].st = "ok" }
      Bytes(j) == IF Ops[j].op = "pack" THEN Len(Ops[j].out)
                  ELSE IF Ops[j].op = "sizeof" THEN Ops[j].n ELSE BytesOf(Ops[j].n)
      ag == { <<j, "agree", FALSE>> : j \in { j \in P : \E i \in P : i < j /\ Ops[i].ti = Ops[j].ti /\ Ops[i].x = Ops[j].x /\ Bytes(i) # Bytes(j) } }
  IN rt \cup rp \cup ag

Report(bd) == PrintT(<<"CASE", ToString(c), ToString(Cases[c].id), ToJson([ops |-> Len(Ops),
     st |-> [j \in 1..Len(res) |-> res[j].st],
     calls |-> [j \in 1..Len(res) |-> res[j].calls], bad |-> bd, steps |-> n])>>)

\* One step of the machine.
Run(St(_)) ==
  /\ k <= Len(Ops) /\ m.st = "run"
  /\ m' = St(m) /\ n' = n + 1
  /\ UNCHANGED <<c, ts, k, dv, bad, res>>

\* The machine has stopped: compare, go on with the next operation.
JudgeOp(Oc(_), Br(_, _), St(_, _, _)) ==
  /\ k > 0 /\ n >= 0 /\ k <= Len(Ops) /\ m.st # "run" /\ ts' = ts
  /\ LET e == TLCEval(Oc(Ops[k]))
         b == Br(Ops[k], e)
     IN
     IF b # {} /\ dv = {} /\ Ops[k].op = "unpack" /\ Ops[k].st \notin {"panic", "hang", "crash"} THEN
       \* does following a known deviation explain it?
       /\ dv' = Devs /\ m' = St(k, res, Devs) /\ n' = 0
       /\ UNCHANGED <<c, k, bad, res>>
     ELSE IF b # {} /\ dv # {} THEN
       \* it does not: report the difference from the undeviating machine
       /\ bad' = bad \o Pairs(k, b, FALSE) /\ res' = Append(res, e) /\ dv' = {} /\ n' = 0 /\ k' = k + 1 /\ c' = c
       /\ m' = IF k < Len(Ops) THEN St(k + 1, res', {}) ELSE Idle
     ELSE
       /\ bad' = IF dv # {} THEN bad \o Pairs(k, {"signext"}, TRUE) ELSE bad \o Pairs(k, b, FALSE)
       /\ res' = Append(res, e) /\ dv' = {} /\ n' = 0 /\ k' = k + 1 /\ c' = c
       /\ m' = IF k < Len(Ops) THEN St(k + 1, res', {}) ELSE Idle

\* All operations done.
Finish ==
  /\ n >= 0 /\ k = Len(Ops) + 1
  /\ LET r == Rel
         RECURSIVE ToS(_)
         ToS(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToS(S \ {x})
     IN bad' = bad \o ToS(r) /\ Report(bad \o ToS(r))
  /\ k' = k + 1
  /\ UNCHANGED <<c, ts, n, m, dv, res>>

Next == Load(Meant, Without) \/ Begin(Start) \/ Run(Step) \/ JudgeOp(Outcome, Broken, Start) \/ Finish
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* Properties of the specification itself, in every state of every history.      *)
\* the cursors stay inside the input and the computed size
CursorInside == m.st = "idle" \/ m.st = "unspec" \/
  IF m.mode = "dec" THEN m.pos <= 8 * Len(m.inp) ELSE m.st = "err" \/ Written(m) <= 8 * m.tot
\* an encoding has exactly the computed size
SizeExact == (m.st = "ok" /\ m.mode = "enc") => Len(Output(m)) = m.tot
\* frames nest: a result frame at the bottom, and only there
FramesNest == (m.st = "run") => m.stk[1].k = "r" /\ \A i \in 2..Len(m.stk) : m.stk[i].k # "r"
================================================================================
