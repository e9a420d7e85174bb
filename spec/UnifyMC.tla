-------------------------------- MODULE UnifyMC --------------------------------
(* The specified operations satisfy their declarative definitions over a small *)
(* universe of terms: every pair of terms is a state, the laws are invariants.  *)
EXTENDS Unify
Atoms == { <<"a">>, <<"#", 1>>, VarT("X"), VarT("Y") }
T1 == Atoms \cup { <<"f", t>> : t \in Atoms } \cup { <<"g", t, u>> : t \in Atoms, u \in Atoms }
Ground0 == { <<"a">>, <<"#", 1>> }
Ground1 == Ground0 \cup { <<"f", t>> : t \in Ground0 } \cup { <<"g", t, u>> : t \in Ground0, u \in Ground0 }
VARIABLES x, y
Init == x \in T1 /\ y \in T1
Next == UNCHANGED <<x, y>>
Vs == {"X", "Y"}
Subs(G) == [Vs -> G]
\* a common ground instance over the small Herbrand universe implies a unifier, and the unifier unifies
UnifierComplete == (\E s \in Subs(Ground0) : Apply(s, x) = Apply(s, y)) => MGU(x, y) # {}
UnifierSound == \A m \in MGU(x, y) : Apply(m, x) = Apply(m, y) /\ \A v \in DOMAIN m : VarsOf(m[v]) \cap DOMAIN m = {}
\* every ground unifier factors through the mgu
MostGeneral == \A m \in MGU(x, y) : \A s \in Subs(Ground1) :
                 Apply(s, x) = Apply(s, y) => Apply(s, Apply(m, Tup(<<VarT("X"), VarT("Y")>>))) = Apply(s, Tup(<<VarT("X"), VarT("Y")>>))
LggCovers == Covers(Lgg(x, y), x) /\ Covers(Lgg(x, y), y)
LggLeast == \A t \in T1 : Covers(t, x) /\ Covers(t, y) => Covers(t, Lgg(x, y))
CoversIsInstances == Covers(x, y) = \E s \in [Vs -> T1] : Apply(s, x) = y
VariantEquiv == Variant(x, y) = Variant(y, x)
CoversMeet == \A m \in MGU(x, Tag("r", y)) : LET z == Apply(m, x) IN Covers(x, z) /\ Covers(y, z)
=============================================================================
