------------------------------- MODULE TypesMC ---------------------------------
(* Every type up to a depth, with what can be observed of it, for the library to  *)
(* be asked; and the laws of Equal on every graph of two nodes.                   *)
EXTENDS Types, Json, IOUtils

\* IOEnv.DEEP: depth of the types, IOEnv.WHAT: "types" or "graphs"
Node(k, n, va, nm, e, o) == [k |-> k, n |-> n, va |-> va, nm |-> nm, e |-> e, o |-> o]
\* a term is a node whose parts are terms
Prims == {Node(k, 0, FALSE, <<>>, <<>>, "") : k \in {"bool", "uint8", "int", "float64", "string"}}
Leaves == Prims \cup {Node("opaque", 0, FALSE, <<>>, <<>>, "chan int")}
\* what can be made of the types in D, keys of maps being primitive
Made(D, Few) ==
       {Node("array", n, FALSE, <<>>, <<x>>, "") : n \in {0, 3}, x \in D}
  \cup {Node(k, 0, FALSE, <<>>, <<x>>, "") : k \in {"slice", "ptr"}, x \in D}
  \cup {Node("map", 0, FALSE, <<>>, <<y, x>>, "") : y \in {p \in Prims : p.k \in {"int", "string"}}, x \in D}
  \cup {Node("func", 0, FALSE, <<>>, <<>>, ""), Node("struct", 0, FALSE, <<>>, <<>>, "")}
  \cup {Node("func", 1, FALSE, <<>>, <<x>>, "") : x \in D}
  \cup {Node("func", 1, TRUE, <<>>, <<Node("slice", 0, FALSE, <<>>, <<x>>, "")>>, "") : x \in D}
  \cup {Node("func", 0, FALSE, <<>>, <<x>>, "") : x \in D}
  \cup {Node("func", n, FALSE, <<>>, <<x, y>>, "") : n \in 0..2, x \in D, y \in Few}
  \cup {Node("struct", 0, FALSE, <<nm>>, <<x>>, "") : nm \in {"A", "B"}, x \in D}
  \cup {Node("struct", 0, FALSE, nm, <<x, y>>, "") : nm \in {<<"A", "B">>, <<"B", "A">>}, x \in D, y \in Few}
Shallow == Leaves \cup Made(Leaves, Prims)
Deeper == Made(Shallow, {x \in Prims : x.k = "int"})
Terms(d) == CASE d = "1" -> Shallow [] d = "2" -> Shallow \cup Deeper
              [] d = "3" -> Shallow \cup Deeper \cup Made(Deeper, {})

\* a term as a graph: a tree, or with one node for all equal parts
RECURSIVE Parts(_)
Parts(x) == {x} \cup UNION {Parts(x.e[n]) : n \in 1..Len(x.e)}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Ordered(S \ {x})
At(s, x) == CHOOSE n \in 1..Len(s) : s[n] = x
Shared(x) == LET s == Ordered(Parts(x)) IN
  [g |-> [n \in 1..Len(s) |-> [s[n] EXCEPT !.e = [m \in 1..Len(s[n].e) |-> At(s, s[n].e[m])]]], r |-> At(s, x)]
RECURSIVE Planted(_, _), PlantAll(_, _, _)
\* appends the tree of a term; the root is the last node
Planted(g, x) == LET p == PlantAll(g, x.e, <<>>) IN Append(p.g, [x EXCEPT !.e = p.r])
PlantAll(g, e, r) == IF e = <<>> THEN [g |-> g, r |-> r]
                     ELSE LET h == Planted(g, e[1]) IN PlantAll(h, Tail(e), Append(r, Len(h)))
Tree(x) == LET g == Planted(<<>>, x) IN [g |-> g, r |-> Len(g)]

\* what is observed along every path: <<path, node without its parts, text>>
RECURSIVE Seen(_, _)
Seen(path, x) == LET here == <<[p |-> path, k |-> x.k, n |-> x.n, va |-> x.va, nm |-> x.nm, l |-> Len(x.e),
                               s |-> LET t == Tree(x) IN Text(t.g, t.r)]>>
                     F[n \in 0..Len(x.e)] == IF n = 0 THEN here ELSE F[n - 1] \o Seen(Append(path, n), x.e[n])
                 IN F[Len(x.e)]

VARIABLES ph, x, y, g
vars == <<ph, x, y, g>>
None == Node("none", 0, FALSE, <<>>, <<>>, "")

\* graphs of two nodes
Loops == {Node(k, 0, FALSE, <<>>, <<i>>, "") : k \in {"slice", "ptr"}, i \in 1..3}
  \cup {Node("func", n, va, <<>>, <<i>>, "") : n \in 0..1, va \in {FALSE}, i \in 1..3}
  \cup {Node("func", n, FALSE, <<>>, <<i, j>>, "") : n \in 1..2, i \in 1..3, j \in 1..3}
  \cup {Node("struct", 0, FALSE, <<"A", "B">>, <<i, j>>, "") : i \in 1..3, j \in 1..3}
Base == Node("uint8", 0, FALSE, <<>>, <<>>, "")

Init == ph = "start" /\ x = None /\ y = None /\ g = <<>>
One(T(_)) == /\ ph = "start" /\ IOEnv.WHAT = "types" /\ ph' = "one" /\ \E t \in T(IOEnv.DEEP) : x' = t
             /\ PrintT(<<"TYPE", ToJson([t |-> x', s |-> Seen(<<>>, x')])>>) /\ UNCHANGED <<y, g>>
\* pairs of shallow types
Two(T(_)) == /\ ph = "one" /\ x \in T("1") /\ ph' = "two" /\ \E t \in T("1") : y' = t
             /\ UNCHANGED <<x, g>>
Graph(L(_)) == /\ ph = "start" /\ IOEnv.WHAT = "graphs" /\ ph' = "graph"
               /\ \E a \in L(0), b \in L(0) : g' = <<a, b, Base>> /\ UNCHANGED <<x, y>>
AllLoops(z) == Loops
Next == One(Terms) \/ Two(Terms) \/ Graph(AllLoops)
Spec == Init /\ [][Next]_vars

\* Sharing does not matter, and without recursion the same structure is the same term.
Structural ==
  /\ ph = "one" => LET t == Tree(x)  s == Shared(x) IN
       Equal(t.g, t.r, s.g, s.r) /\ Equal(s.g, s.r, t.g, t.r) /\ ~Endless(t.g, t.r, {}) /\ Text(t.g, t.r) = Text(s.g, s.r)
  /\ ph = "two" => LET t == Tree(x)  s == Shared(y) IN Equal(t.g, t.r, s.g, s.r) <=> x = y

\* unfolded to a depth
RECURSIVE Unfold(_, _, _)
Unfold(G, i, d) == IF d = 0 THEN None ELSE [G[i] EXCEPT !.e = [n \in 1..Len(G[i].e) |-> Unfold(G, G[i].e[n], d - 1)]]
\* Equal is an equivalence, preserved by every edge, and what no unfolding tells apart.
Lawful ==
  ph = "graph" => \A i, j \in 1..3 :
    LET same == Equal(g, i, g, j) IN
    /\ i = j => same
    /\ same = Equal(g, j, g, i)
    /\ same <=> Unfold(g, i, 4) = Unfold(g, j, 4)
    /\ \A k \in 1..3 : same /\ Equal(g, j, g, k) => Equal(g, i, g, k)
    /\ same => Alike(g[i], g[j]) /\ \A n \in 1..Len(g[i].e) : Equal(g, g[i].e[n], g, g[j].e[n])
================================================================================
