-------------------------------- MODULE Caches --------------------------------
(* The two caches of the library as they are shared between goroutines: the      *)
(* field cache (field.go), filled per struct type, types inside it first, under   *)
(* a read/write lock; and the expression type cache (expr/type.go), filled for    *)
(* a whole group of types at once, under a lock.                                  *)
(*                                                                                *)
(* What a type means is a function of the type alone.  Checked: the maps are      *)
(* never accessed while another goroutine writes them, what is in a cache is      *)
(* always complete and right, every lookup returns the right meaning, and every   *)
(* lookup ends.  That real calls behave as these lookups do - the results are      *)
(* those of calls made alone, and no access races with another - is checked on    *)
(* recorded concurrent histories (CodecTrace, ExprTrace) under the race detector. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Procs,    \* goroutines
          Types,    \* types
          Inner,    \* Inner[t]: the types that t is made of, in order; may be recursive
          Wants,    \* how many lookups each goroutine makes
          Mode      \* "fields": read/write lock, nested lookups; "types": groups

VARIABLES cache,    \* type -> set of types of which the description is complete
          rd, wr,   \* holders of the lock, for reading and writing
          stk,      \* per goroutine: the lookups in progress, innermost last
          left,     \* per goroutine: how many lookups are still to be made
          got       \* per goroutine: results of finished lookups: <<type, meaning>>

vars == <<cache, rd, wr, stk, left, got>>

RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {{Inner[t][i] : i \in 1..Len(Inner[t])} : t \in S}, n - 1)
\* the meaning of a type: all that it is made of
Meaning(t) == Reach({t}, Cardinality(Types))

Absent == {}
Init == /\ cache = [t \in Types |-> Absent]
        /\ rd = {} /\ wr = {}
        /\ stk = [p \in Procs |-> <<>>]
        /\ left = [p \in Procs |-> Wants]
        /\ got = [p \in Procs |-> {}]

Top(p) == stk[p][Len(stk[p])]
SetTop(p, f) == stk' = [stk EXCEPT ![p][Len(stk[p])] = f]
\* a lookup in progress: type, program counter, position in Inner, and for the group
\* cache the types that are being built
Look(t) == [t |-> t, pc |-> "rlock", i |-> 1, bld |-> {}]

Begin(p) ==
  /\ stk[p] = <<>> /\ left[p] > 0
  /\ \E t \in Types : stk' = [stk EXCEPT ![p] = <<Look(t)>>]
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<cache, rd, wr, got>>

RLock(p) ==
  /\ stk[p] # <<>> /\ Top(p).pc = "rlock"
  /\ wr = {} /\ (Mode = "types" => rd = {})
  /\ rd' = rd \cup {p}
  /\ SetTop(p, [Top(p) EXCEPT !.pc = "read"])
  /\ UNCHANGED <<cache, wr, left, got>>

Return(p, m) ==
  LET t == Top(p).t
      s == SubSeq(stk[p], 1, Len(stk[p]) - 1)
  IN /\ stk' = [stk EXCEPT ![p] = s]
     /\ got' = [got EXCEPT ![p] = @ \cup {<<t, m>>}]

Read(p) ==
  /\ stk[p] # <<>> /\ Top(p).pc = "read"
  /\ rd' = rd \ {p}
  /\ IF cache[Top(p).t] # Absent
     THEN Return(p, cache[Top(p).t])
     ELSE SetTop(p, [Top(p) EXCEPT !.pc = "build"]) /\ UNCHANGED got
  /\ UNCHANGED <<cache, wr, left>>

\* Building the description.  Fields: the inner types are looked up first, each on
\* its own (those of a recursive type are behind pointers, which are not followed).
BuildFields(p) ==
  /\ Mode = "fields" /\ stk[p] # <<>> /\ Top(p).pc = "build"
  /\ LET f == Top(p) IN
     IF f.i <= Len(Inner[f.t])
     THEN stk' = [stk EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1) \o <<[f EXCEPT !.i = @ + 1], Look(Inner[f.t][f.i])>>]
     ELSE SetTop(p, [f EXCEPT !.pc = "lock"])
  /\ UNCHANGED <<cache, rd, wr, left, got>>

\* Groups: all types that are reached are built privately, step by step.
BuildTypes(p) ==
  /\ Mode = "types" /\ stk[p] # <<>> /\ Top(p).pc = "build"
  /\ LET f == Top(p)
         b == IF f.bld = {} THEN {f.t} ELSE f.bld
         more == {x \in Reach(b, 1) : x \notin b}
     IN IF more # {} THEN \E x \in more : SetTop(p, [f EXCEPT !.bld = b \cup {x}])
        ELSE SetTop(p, [f EXCEPT !.bld = b, !.pc = "lock"])
  /\ UNCHANGED <<cache, rd, wr, left, got>>

Lock(p) ==
  /\ stk[p] # <<>> /\ Top(p).pc = "lock"
  /\ wr = {} /\ rd = {}
  /\ wr' = {p}
  /\ SetTop(p, [Top(p) EXCEPT !.pc = "write"])
  /\ UNCHANGED <<cache, rd, left, got>>

Write(p) ==
  /\ stk[p] # <<>> /\ Top(p).pc = "write"
  /\ LET f == Top(p) IN
     cache' = IF Mode = "fields" THEN [cache EXCEPT ![f.t] = Meaning(f.t)]
              ELSE [t \in Types |-> IF t \in f.bld /\ cache[t] = Absent THEN Meaning(t) ELSE cache[t]]
  /\ wr' = wr \ {p}
  /\ Return(p, Meaning(Top(p).t))
  /\ UNCHANGED <<rd, left>>

Step(p) == Begin(p) \/ RLock(p) \/ Read(p) \/ BuildFields(p) \/ BuildTypes(p) \/ Lock(p) \/ Write(p)
Done == \A p \in Procs : stk[p] = <<>> /\ left[p] = 0
Next == (\E p \in Procs : Step(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

\* no goroutine is inside a map that another writes
NoRace == wr # {} => (rd = {} /\ Cardinality(wr) = 1)
CacheRight == \A t \in Types : cache[t] # Absent => cache[t] = Meaning(t)
ResultsRight == \A p \in Procs : \A x \in got[p] : x[2] = Meaning(x[1])
\* a goroutine never waits for a lock that it holds itself
NoSelfWait == \A p \in Procs : (stk[p] # <<>> /\ Top(p).pc \in {"rlock", "lock"}) => p \notin rd \cup wr
Ends == <>Done
================================================================================
