------------------------------ MODULE TypesTrace -------------------------------
(* Checks what the library says of types.  Each line of CASES has the graph of    *)
(* some Go types ("go"), the graph of their descriptions ("lib": what Kind, Elem, *)
(* Key, Value, Len, Field, In, Out, IsVariadic and Symbol answered), and          *)
(* questions with the answers that were given:                                   *)
(*   start              the calls made before any question                        *)
(*   desc  go, lib      the description of a type                                 *)
(*   eq    go, go2, r   TypeEqual of the descriptions of two types                *)
(*   field go, nm, lib  FieldByName (lib = 0: not found)                          *)
(*   str   go, r        String                                                    *)
(*   res   lays, nm, lib  what resolvers in a row say of a name                   *)
EXTENDS Types, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,    \* case
          q,    \* question
          wave, \* pairs to look at
          seen, \* pairs that are alike
          bad   \* questions answered wrongly
vars == <<c, q, wave, seen, bad>>

Qs == Cases[c].qs
Go == Cases[c].go
Lib == Cases[c].lib

Init == c \in 1..Len(Cases) /\ q = 1 /\ wave = {} /\ seen = {} /\ bad = <<>>

\* a question is answered
Done(right) == /\ q' = q + 1 /\ wave' = {} /\ seen' = {} /\ c' = c
               /\ bad' = IF right THEN bad ELSE Append(bad, <<q, Qs[q].q>>)
\* a question turns on the sameness of two nodes
Turns(i, j) == wave' = {<<i, j>>} /\ UNCHANGED <<c, q, seen, bad>>

Ask ==
  /\ q <= Len(Qs) /\ wave = {} /\ seen = {}
  /\ LET x == Qs[q] IN
     IF x.st # "ok" THEN Done(FALSE)
     ELSE CASE x.q = "start" -> Done(TRUE)
            [] x.q = "desc" -> Turns(x.go, x.lib)
            [] x.q = "eq" -> Turns(x.go, x.go2)
            [] x.q = "field" -> LET m == Member(Go, x.go, x.nm) IN
                                IF m = 0 \/ x.lib = 0 THEN Done(m = x.lib) ELSE Turns(m, x.lib)
            [] x.q = "str" -> Done(Endless(Go, x.go, {}) \/ x.r = Text(Go, x.go))
            [] x.q = "res" -> LET m == Denoted(x.lays, x.nm) IN
                              IF m = 0 \/ x.lib = 0 THEN Done(m = x.lib) ELSE Turns(m, x.lib)

Others == IF Qs[q].q = "eq" THEN Go ELSE Lib
Verdict(same) == Done(IF Qs[q].q = "eq" THEN Qs[q].r = same ELSE same)
Explore ==
  /\ q <= Len(Qs) /\ wave # {}
  /\ IF Differ(Go, Others, wave) THEN Verdict(FALSE)
     ELSE LET all == seen \cup wave  more == Onward(Go, Others, wave) \ all IN
          IF more = {} THEN Verdict(TRUE) ELSE wave' = more /\ seen' = all /\ UNCHANGED <<c, q, bad>>

Finish ==
  /\ q = Len(Qs) + 1
  /\ PrintT(<<"TYPES", ToString(c), ToString(Cases[c].id), ToJson([asked |-> Len(Qs), bad |-> bad])>>)
  /\ q' = q + 1 /\ UNCHANGED <<c, wave, seen, bad>>

Next == Ask \/ Explore \/ Finish
Spec == Init /\ [][Next]_vars
\* exploring the wave never leaves the graphs
Inside == \A p \in wave : p[1] \in 1..Len(Go) /\ p[2] \in 1..Len(Others)
================================================================================
