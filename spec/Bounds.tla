-------------------------------- MODULE Bounds --------------------------------
(***************************************************************************)
(* C11: size and run-time bounds.  A bound is an expression over the sizes of   *)
(* the parameter types:                                                        *)
(*   <<"int", n>>  <<"sym", f>>  <<"inf">>  <<"add", ...>>  <<"mul", ...>>       *)
(*   <<"min", ...>>  <<"pow", e, n>>                                            *)
(* and Infinite is the value of a bound that promises nothing.                  *)
(***************************************************************************)
EXTENDS Types

Infinite == -1

BAdd(a, b) == IF a = Infinite \/ b = Infinite THEN Infinite ELSE a + b
BMul(a, b) == IF a = Infinite \/ b = Infinite THEN Infinite ELSE a * b
BMin(a, b) == IF a = Infinite THEN b ELSE IF b = Infinite THEN a ELSE Min2(a, b)
AtMost(n, b) == b = Infinite \/ n <= b

RECURSIVE BEval(_, _)
BEval(e, sizes) ==
  CASE e[1] = "int" -> e[2]
    [] e[1] = "inf" -> Infinite
    [] e[1] = "sym" -> IF e[2] \in DOMAIN sizes THEN sizes[e[2]] ELSE 0
    [] e[1] = "pow" -> LET b == BEval(e[2], sizes)
                           f[k \in 0..e[3]] == IF k = 0 THEN 1 ELSE BMul(b, f[k - 1])
                       IN f[e[3]]
    [] OTHER -> LET v == [ k \in 2..Len(e) |-> BEval(e[k], sizes) ]
                    f[k \in 2..Len(e)] == IF k = 2 THEN v[2]
                                          ELSE IF e[1] = "add" THEN BAdd(f[k - 1], v[k])
                                          ELSE IF e[1] = "mul" THEN BMul(f[k - 1], v[k])
                                          ELSE BMin(f[k - 1], v[k])
                IN f[Len(e)]

Sizes(facts) == [ f \in { x[1] : x \in facts } |-> Cardinality({ x \in facts : x[1] = f }) ]

---------------------------------------------------------------------------
\* what is counted

\* items of a type, for each way to bind the variables V of the type: the most of them there are
Members(I, t, facts) == { x \in I : Belongs(x, t, facts, "none") }
Keyed(I, t, facts, V) ==
  LET M == UNION { { << [ v \in V |-> s[v] ], x >> : s \in { s \in Match(t.h, x, NoSub) : \A j \in 1..Len(t.c) : ConHolds(Apply(s, t.c[j]), facts, "none") } } : x \in I }
  IN IF M = {} THEN 0 ELSE
     LET ns == { Cardinality({ p \in M : p[1] = m[1] }) : m \in M } IN CHOOSE n \in ns : \A k \in ns : k <= n

\* the ways to instantiate the first k of some atoms
Project(s, V) == [ v \in V |-> Apply(s, VarT(v)) ]
Instances(atoms, I) == { Project(s, VarsOfSeq(atoms)) : s \in Resolve(atoms, 1, {NoSub}, I) }
RuleInstances(r, I) == { Project(s, VarsOfSeq(AtomsOf(r.b))) : s \in BodySubs(r, I) }
=============================================================================
