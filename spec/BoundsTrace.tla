------------------------------ MODULE BoundsTrace ------------------------------
(***************************************************************************)
(* C11: inferred bounds, evaluated at the sizes of the parameter types in some   *)
(* data, against the numbers of items and of rule instances for that data.       *)
(***************************************************************************)
EXTENDS Bounds, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

FactSet(c) == { c.facts[k] : k \in 1..Len(c.facts) }
Set(xs) == { xs[k] : k \in 1..Len(xs) }

Distinct(bs) == LET S == Set(bs) IN CHOOSE q \in [ 1..Cardinality(S) -> S ] : Set(q) = S

\* the cheapest order of two subgoals: each is run once for every way to have run those before it
TwoWays(r, I) ==
  LET d == Distinct(AtomsOf(r.b)) IN
  1 + Cardinality(RuleInstances(r, I))
    + Min2(Cardinality(Instances(<<d[1]>>, I)), Cardinality(Instances(<<d[2]>>, I)))

RuleErrs(c, I, sz, k) ==
  LET r == c.rules[k].rule  b == BEval(c.rules[k].bound, sz)  n == Cardinality(RuleInstances(r, I)) IN
  IF ~AtMost(n, b) THEN { <<"rule instances", k, n, b>> }
  ELSE IF Len(BuiltinsOf(r.b)) = 0 /\ Cardinality(Set(AtomsOf(r.b))) = 2 /\ ~AtMost(TwoWays(r, I), b)
  THEN { <<"subgoals run", k, TwoWays(r, I), b>> } ELSE {}

TypeErrs(c, I, F, sz, k) ==
  LET q == c.bounds[k]  b == BEval(q.bound, sz)  n == Keyed({ x \in I : x[1] = q.t.h[1] }, q.t, F, Set(q.v)) IN
  IF AtMost(n, b) THEN {} ELSE { <<"items", q.t.h, q.v, n, b>> }

Verdict(c) ==
  IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
  IF c.kind = "degree" THEN
    LET I == ItemsOf(c.P, {}, 25) IN
    { <<"degree", k, c.degs[k]>> : k \in { k \in 1..Len(c.degs) : c.degs[k] < Cardinality(RuleVars(c.rules[k])) } }
    \cup { <<"more instances than the degree allows", k, c.degs[k], Cardinality(RuleInstances(c.rules[k], I))>> :
           k \in { k \in 1..Len(c.degs) : Cardinality(RuleInstances(c.rules[k], I)) > (1 + Cardinality(UNION { SubTerms(x) : x \in I })) ^ c.degs[k] } }
    \cup (IF \A k \in 1..Len(c.rules) : Cardinality(RuleVars(c.rules[k])) <= c.degree THEN {} ELSE { <<"degree of the program", c.degree>> })
    \cup (IF Len(c.degrees) = Len(c.rules) /\ \A d \in 0..9 : Cardinality({ k \in 1..Len(c.rules) : Cardinality(RuleVars(c.rules[k])) >= d })
                                                        <= Cardinality({ k \in 1..Len(c.degrees) : c.degrees[k] >= d })
          THEN {} ELSE { <<"degrees", c.degrees>> })
  ELSE
  LET I == ItemsOf(c.P, {}, 25)  F == FactSet(c)  sz == Sizes(F) IN
  (IF \E x \in I : ~IsGround(x) THEN (IF BEval(c.size, sz) = Infinite THEN {} ELSE { <<"infinitely many items">> })
   ELSE IF AtMost(Cardinality(I), BEval(c.size, sz)) THEN {} ELSE { <<"size", Cardinality(I), BEval(c.size, sz)>> })
  \cup UNION { TypeErrs(c, I, F, sz, k) : k \in 1..Len(c.bounds) }
  \cup UNION { RuleErrs(c, I, sz, k) : k \in 1..Len(c.rules) }
  \cup (LET n == FoldSet(LAMBDA k, acc : acc + Cardinality(RuleInstances(c.rules[k].rule, I)), 0, 1..Len(c.rules)) IN
        IF AtMost(n, BEval(c.runtime, sz)) THEN {} ELSE { <<"run time of the program", n, BEval(c.runtime, sz)>> })

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
