------------------------------- MODULE Propagate -------------------------------
(***************************************************************************)
(* C22.  Constraint propagation as a machine: an agenda of constraints, popped *)
(* in any order; a popped equality is unified into the binding store and every *)
(* other constraint is rewritten by it; any other popped constraint fires the   *)
(* rules it takes part in.  Checked: it terminates, and whatever the order, it  *)
(* ends in the closure that Constraints.tla defines (or in contradiction        *)
(* exactly when that is contradictory).                                         *)
(***************************************************************************)
EXTENDS Constraints

x == VarT("x")  y == VarT("y")  z == VarT("z")
C1 == <<"#", 1>>   C2 == <<"#", 2>>
u1 == VarT("cu")  u2 == VarT("cv")  u3 == VarT("cw")
Rule(h, b) == [h |-> h, b |-> b]
Theories == {
  << Rule(<<"=", u2, u3>>, << <<"w", u1, u2>>, <<"w", u1, u3>> >>) >>,
  << Rule(<<"=", u1, C1>>, << <<"k", u1>> >>), Rule(Fail, << <<"n", C1>>, <<"m", C1>> >>) >>,
  << Rule(<<"<", u1, u3>>, << <<"<", u1, u2>>, <<"<", u2, u3>> >>), Rule(Fail, << <<"<", u1, u1>> >>) >>,
  << Rule(<<"=", u1, u2>>, << <<"w", u1, u2>>, <<"k", u1>> >>), Rule(<<"k", u1>>, << <<"n", u1>> >>) >> }
Pool == { <<"w", x, y>>, <<"w", x, z>>, <<"w", x, C1>>, <<"k", x>>, <<"k", z>>, <<"n", x>>, <<"m", y>>, <<"n", z>>,
          <<"=", y, z>>, <<"=", x, C1>>, <<"=", y, C2>>, <<"<", x, y>>, <<"<", y, z>>, <<"<", z, C1>>, <<"=", x, <<"f", y>>>> }

VARIABLES R, D, F, A, s, res
pvars == <<R, D, F, A, s, res>>
PInit == /\ R \in Theories
         /\ D \in { d \in SUBSET Pool : Cardinality(d) <= 3 }
         /\ F = D /\ A = D /\ s = NoSub /\ res = "run"
         /\ i = 0 /\ st = ""

PopEq(d) ==
  LET m == UnifyAll(<< <<d[2], d[3]>> >>, s) IN
  IF m = {} THEN res' = "contradiction" /\ UNCHANGED <<F, A, s>>
  ELSE LET w == CHOOSE w \in m : TRUE
           G == { Apply(w, t) : t \in F \ {d} }
       IN /\ s' = w /\ F' = G /\ A' = { Apply(w, t) : t \in A \ {d} } \cup (G \ F) /\ UNCHANGED res
PopOther(d) ==
  IF d = Fail \/ FalseCmp(d) THEN res' = "contradiction" /\ UNCHANGED <<F, A, s>>
  ELSE LET N == UNION { UNION { LET ms == Match(R[k].b[j], d, NoSub)
                                    rest == [q \in 1..(Len(R[k].b)-1) |-> R[k].b[IF q < j THEN q ELSE q+1]]
                                IN { Apply(m, R[k].h) : m \in JoinAtoms(AsChart(F), rest, ms) }
                                : j \in 1..Len(R[k].b) } : k \in 1..Len(R) }
       IN F' = F \cup N /\ A' = (A \ {d}) \cup (N \ F) /\ UNCHANGED <<s, res>>
PNext == \/ /\ res = "run" /\ A # {}
            /\ \E d \in A : IF d[1] = "=" THEN PopEq(d) ELSE PopOther(d)
            /\ UNCHANGED <<R, D, i, st>>
         \/ /\ res = "run" /\ A = {} /\ res' = "done" /\ UNCHANGED <<R, D, F, A, s, i, st>>
PSpec == PInit /\ [][PNext]_<<R, D, F, A, s, res, i, st>> /\ WF_<<R, D, F, A, s, res, i, st>>(PNext)

FullHead == <<"h", x, y, z>>
Confluent ==
  LET c == Clo(R, D, NoSub) IN
  /\ res = "contradiction" => c = <<>>
  /\ res = "done" => c # <<>> /\ SameClosed(Apply(c[1], FullHead), c[2], Tag("t", Apply(s, FullHead)), { Tag("t", f) : f \in F })
Terminates == <>(res # "run")
=============================================================================
