------------------------------- MODULE BoundsMC -------------------------------
(***************************************************************************)
(* C11: planning a bound.  A simple type's variables are enumerated by taking    *)
(* its constraints one after the other, in any order; a constraint whose          *)
(* variables are all known costs 1, any other the size of its parameter type.    *)
(* The cost never falls below the number of ways to bind the variables known so  *)
(* far, whatever facts there are; and so for a rule, whose subgoals are run one   *)
(* by one, each against the types of its items.                                  *)
(***************************************************************************)
EXTENDS Bounds, FiniteSetsExt

CONSTANTS Consts

A == VarT("A")  B == VarT("B")  D0 == VarT("D")
n(t) == <<"n", t>>
m(t) == <<"m", t>>
r(t, u) == <<"r", t, u>>

Kinds == << {n(A), m(B)}, {r(A, B)}, {r(A, B), n(A)}, {r(A, B), r(B, D0)}, {r(A, A), m(B)}, {n(A), m(A), r(A, B)},
            {r(A, B), r(B, A)}, {n(A), m(B), r(B, D0)}, {r(A, <<"c1">>), n(B)} >>

VARIABLES facts, kind, left, known, cost, given

vars == <<facts, kind, left, known, cost, given>>

Dom == { <<"c" \o ToString(k)>> : k \in 1..Consts }
VarsOfSet(S) == UNION { VarsOf(c) : c \in S }

Init ==
  /\ facts \in { { n(x) : x \in N } \cup { m(x) : x \in M } \cup { r(p[1], p[2]) : p \in R } : N \in SUBSET Dom, M \in SUBSET Dom, R \in SUBSET (Dom \X Dom) }
  /\ kind \in 1..Len(Kinds)
  /\ left = Kinds[kind]
  /\ given \in SUBSET VarsOfSet(Kinds[kind])
  /\ known = given
  /\ cost = 1

Size(f) == Cardinality({ x \in facts : x[1] = f })

Take(c) ==
  /\ c \in left
  /\ left' = left \ {c}
  /\ cost' = (IF VarsOf(c) \subseteq known THEN cost ELSE cost * Size(c[1]))
  /\ known' = known \cup VarsOf(c)
  /\ UNCHANGED <<facts, kind, given>>

Next == \E c \in left : Take(c)

\* ways to bind the known variables that the constraints taken so far allow, for the most frequent binding of the given ones
Ways(V) ==
  LET S == [ V -> Dom ]
      ok == { s \in S : \A c \in Kinds[kind] \ left : Apply(s, c) \in facts } IN ok
Most == LET W == Ways(known) IN
        IF W = {} THEN 0 ELSE Max({ Cardinality({ w \in W : \A v \in given : w[v] = g[v] }) : g \in W })

TypeOK == cost \in Nat /\ left \subseteq Kinds[kind]
Enough0 == Most <= cost
\* at the end everything is bound
Bound == left = {} => known = VarsOfSet(Kinds[kind])
=============================================================================
