-------------------------------- MODULE Unify --------------------------------
(***************************************************************************)
(* The term algebra: unification, subsumption, variants, generalisation.     *)
(* Used by every module that talks about non-ground terms.                   *)
(***************************************************************************)
EXTENDS Dyna

Compose(s, x, t) == (x :> t) @@ [y \in DOMAIN s |-> Apply(x :> t, s[y])]

\* most general unifier of a sequence of pairs: a set of at most one idempotent substitution
RECURSIVE UnifyAll(_, _)
UnifyAll(eqs, s) ==
  IF eqs = <<>> THEN {s} ELSE
  LET a == Apply(s, eqs[1][1])  b == Apply(s, eqs[1][2])  rest == Tail(eqs) IN
  IF a = b THEN UnifyAll(rest, s)
  ELSE IF IsVar(a) THEN IF a[2] \in VarsOf(b) THEN {} ELSE UnifyAll(rest, Compose(s, a[2], b))
  ELSE IF IsVar(b) THEN IF b[2] \in VarsOf(a) THEN {} ELSE UnifyAll(rest, Compose(s, b[2], a))
  ELSE IF a[1] # b[1] \/ Len(a) # Len(b) \/ a[1] = "#" THEN {}
  ELSE UnifyAll([k \in 1..Len(a) - 1 |-> <<a[k + 1], b[k + 1]>>] \o rest, s)
MGU(a, b) == UnifyAll(<< <<a, b>> >>, NoSub)

\* rename the variables of a term apart
RECURSIVE Tag(_, _)
Tag(p, t) == IF t[1] = "?" THEN <<"?", p \o t[2]>>
             ELSE IF t[1] = "#" \/ Len(t) = 1 THEN t
             ELSE [k \in 1..Len(t) |-> IF k = 1 THEN t[1] ELSE Tag(p, t[k])]

\* a subsumes b: b is an instance of a  (Match treats b's variables as constants)
Covers(a, b) == Match(a, b, NoSub) # {}
Variant(a, b) == Covers(a, b) /\ Covers(b, a)
Unifies(a, b) == MGU(Tag("l", a), Tag("r", b)) # {}

\* a sequence of terms as one term, so that the relations above apply to tuples jointly
Tup(ts) == <<"$tup">> \o ts

\* least general generalisation: state is <<term, table>>, table maps pairs to variables
RECURSIVE LggSt(_, _, _), LggArgs(_, _, _, _)
LggSt(a, b, tab) ==
  IF a[1] # "?" /\ b[1] # "?" /\ a[1] # "#" /\ a[1] = b[1] /\ Len(a) = Len(b) THEN
       LET r == LggArgs(a, b, 2, <<<<>>, tab>>) IN << <<a[1]>> \o r[1], r[2]>>
  ELSE IF a = b /\ a[1] = "#" THEN <<a, tab>>
  ELSE IF \E k \in 1..Len(tab) : tab[k] = <<a, b>> THEN <<VarT("g" \o ToString(CHOOSE k \in 1..Len(tab) : tab[k] = <<a, b>>)), tab>>
  ELSE <<VarT("g" \o ToString(Len(tab) + 1)), Append(tab, <<a, b>>)>>
LggArgs(a, b, k, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET r == LggSt(a[k], b[k], acc[2]) IN LggArgs(a, b, k + 1, << Append(acc[1], r[1]), r[2]>>)
Lgg(a, b) == LggSt(a, b, <<>>)[1]
=============================================================================
