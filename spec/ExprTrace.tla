------------------------------- MODULE ExprTrace -------------------------------
(* Checks recorded evaluations of expressions.  Each line of the file named by   *)
(* the environment variable CASES is an environment in two states (layers of     *)
(* names, searched in order) and a sequence of evaluations: the source text, the *)
(* state of the environment at that moment, and the outcome.                     *)
EXTENDS ExprSyntax, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.CASES)
NGroups == Len(Groups)

VARIABLES g,    \* group
          k,    \* evaluation
          bad,  \* broken aspects: <<evaluation, aspect>>
          sts   \* what the specification says about each: "ok", "err", "unspec", counted

vars == <<g, k, bad, sts>>

Env(i, e) == [lay |-> Groups[i].envs[e], stk |-> <<>>, eof |-> 2, std |-> FALSE]
Evals == Groups[g].evals

\* Is an observed result (Go kind, value) the expected one?
Matches(o, e) ==
  CASE e.t.k = "ui" -> o.g \in {"int64", "uint64"} /\ o.v = (IF o.g = "int64" THEN Resize(e.v, 8, TRUE) ELSE SubSeq(e.v, 2, 9))
                       /\ (o.g = "int64" => FitsS(e.v, 8)) /\ (o.g = "uint64" => e.v[1] = 0)
    [] e.t.k = "uf" -> o.g = "float64" /\ (o.v = e.v \/ (IsNaN(o.v) /\ IsNaN(e.v)))
    [] e.t.k = "ub" -> o.g = "bool" /\ o.v = e.v
    [] e.t.k = "float" -> o.g = e.t.g /\ (o.v = e.v \/ (IsNaN(o.v) /\ IsNaN(e.v)))
    [] e.t.k \in {"bool", "int", "uint", "str"} -> o.g = e.t.g /\ o.v = e.v
    [] e.t.k \in {"struct", "array", "slice", "ptr"} -> o.g = e.t.g /\ o.v = e.v
    [] OTHER -> TRUE

Judge(o, e) ==
  IF o.st \in {"panic", "hang", "crash"} THEN {o.st}
  ELSE IF o.again # TRUE THEN {"again"}
  ELSE IF e.st = "unspec" THEN {}
  ELSE IF e.st = "ok" /\ e.t.k \in {"un", "pkg", "fn", "map", "ref"} THEN {}
  ELSE IF o.st # e.st THEN {"status"}
  ELSE IF e.st = "ok" /\ ~Matches(o, e) THEN {"value"} ELSE {}

Meaning(o) == Eval(Env(g, o.e), Parse(o.src))

Init == g \in 1..NGroups /\ k = 1 /\ bad = <<>> /\ sts = [ok |-> 0, err |-> 0, unspec |-> 0]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})

EvalOne(M(_), J(_, _)) ==
  /\ k <= Len(Evals)
  /\ LET e == TLCEval(M(Evals[k]))
         b == J(Evals[k], e)
     IN /\ bad' = bad \o [i \in 1..Len(Listed(b)) |-> <<k, Listed(b)[i]>>]
        /\ sts' = [sts EXCEPT ![e.st] = @ + 1]
  /\ k' = k + 1 /\ g' = g

Finish ==
  /\ k = Len(Evals) + 1
  /\ PrintT(<<"GROUP", ToString(g), ToString(Groups[g].id), ToJson([evals |-> Len(Evals), st |-> sts, bad |-> bad])>>)
  /\ k' = k + 1 /\ UNCHANGED <<g, bad, sts>>

Next == EvalOne(Meaning, Judge) \/ Finish
Spec == Init /\ [][Next]_vars
View == <<g, k>>
================================================================================
