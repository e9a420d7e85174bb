------------------------------ MODULE TypesTrace ------------------------------
(***************************************************************************)
(* C10: the types that the analysis inferred, against the items that some       *)
(* data derive.                                                                *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

FactSet(c) == { c.facts[k] : k \in 1..Len(c.facts) }
Depth == 25

\* an item whose value is zero in the Boolean semiring never appears, so every item is judged
Possible(c) == ItemsOf(c.P, {}, Depth)

\* the same type twice (up to the names of variables): a chart that repeats itself keeps growing
SameType(t, u) ==
  \E s \in Match(t.h, u.h, NoSub) :
     /\ Variant(t.h, u.h)
     /\ { Apply(s, t.c[j]) : j \in 1..Len(t.c) } = { u.c[j] : j \in 1..Len(u.c) }
Repeats(c) == { <<"type repeated", j, k>> : <<j, k>> \in { p \in (1..Len(c.types)) \X (1..Len(c.types)) : p[1] < p[2] /\ SameType(c.types[p[1]], c.types[p[2]]) } }

\* how deep a head is before its variables
RECURSIVE Deep(_)
Deep(t) == IF t[1] = "?" THEN 0 ELSE IF t[1] = "#" \/ Len(t) = 1 THEN 1
           ELSE 1 + Max2(0, CHOOSE m \in { Deep(t[k]) : k \in 2..Len(t) } : \A k \in 2..Len(t) : Deep(t[k]) <= m)
TooDeep(c) == { <<"deeper than asked", c.types[j].h>> : j \in { j \in 1..Len(c.types) : Deep(c.types[j].h) > c.depth } }

Verdict(c) ==
  IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
  IF c.kind = "unfinished" THEN Repeats(c) \cup TooDeep(c) ELSE
  Repeats(c) \cup (IF c.kind = "possible" THEN TooDeep(c) ELSE {}) \cup
  LET I == Possible(c)  F == FactSet(c) IN
  IF c.kind = "possible" THEN { <<"no type for", x>> : x \in { y \in I : ~Typed(y, c.types, F, c.insts) } }
  ELSE IF Cardinality(I) > Enough THEN {}
  ELSE LET U == UsefulOf(c.P, I, OutputsOf(c.outs, I), Depth) IN
       { <<"useful, no type for", x>> : x \in { y \in U : ~Typed(y, c.types, F, "none") } }

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
