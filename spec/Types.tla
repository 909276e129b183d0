-------------------------------- MODULE Types ----------------------------------
(* Type descriptions.  Types form graphs, because they may refer to themselves.  *)
(* A graph is a sequence of nodes                                                *)
(*   [k: kind, n: length of an array or number of parameters, va: variadic,      *)
(*    nm: names of the fields or symbols, e: the nodes it is made of,            *)
(*    o: name of a type that expressions know nothing of]                        *)
(* Two nodes, of the same graph or of two, stand for the same structure if no    *)
(* walk from them both along the same edges reaches a difference: a machine that *)
(* explores the pairs of nodes in waves decides it.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* no difference to be seen at this node
Alike(x, y) == /\ x.k = y.k /\ x.n = y.n /\ x.va = y.va /\ x.nm = y.nm /\ x.o = y.o
               /\ Len(x.e) = Len(y.e)

\* the pairs one step away
Onward(G, H, S) == UNION {{<<G[p[1]].e[n], H[p[2]].e[n]>> : n \in 1..Len(G[p[1]].e)} : p \in S}
Differ(G, H, S) == \E p \in S : ~Alike(G[p[1]], H[p[2]])

\* the waves, all at once
RECURSIVE Waves(_, _, _, _)
Waves(G, H, S, seen) ==
  IF S = {} THEN TRUE
  ELSE IF Differ(G, H, S) THEN FALSE
  ELSE LET all == seen \cup S IN Waves(G, H, Onward(G, H, S) \ all, all)
Equal(G, i, H, j) == Waves(G, H, {<<i, j>>}, {})

\* How a type is written; a type that is nothing but its own parts has no finite text.
Composite == {"array", "slice", "ptr", "map"}
RECURSIVE Endless(_, _, _), Text(_, _)
Endless(G, i, on) ==
  IF i \in on THEN TRUE
  ELSE G[i].k \in Composite /\ \E n \in 1..Len(G[i].e) : Endless(G, G[i].e[n], on \cup {i})
Text(G, i) ==
  LET x == G[i] IN
  CASE x.k = "array" -> "[" \o ToString(x.n) \o "]" \o Text(G, x.e[1])
    [] x.k = "slice" -> "[]" \o Text(G, x.e[1])
    [] x.k = "ptr" -> "*" \o Text(G, x.e[1])
    [] x.k = "map" -> "map[" \o Text(G, x.e[1]) \o "]" \o Text(G, x.e[2])
    [] x.k = "pkg" -> "package"
    [] x.k = "opaque" -> x.o
    [] OTHER -> x.k

\* The node that a name denotes among layers of <<name, node>>, 0 if there is none.
RECURSIVE Denoted(_, _)
Denoted(lays, nm) ==
  IF lays = <<>> THEN 0
  ELSE LET S == {n \in 1..Len(lays[1]) : lays[1][n].nm = nm} IN
       IF S # {} THEN lays[1][CHOOSE n \in S : TRUE].t ELSE Denoted(Tail(lays), nm)
Member(G, i, nm) ==
  LET S == {n \in 1..Len(G[i].nm) : G[i].nm[n] = nm} IN
  IF S = {} THEN 0 ELSE G[i].e[CHOOSE n \in S : TRUE]
================================================================================
