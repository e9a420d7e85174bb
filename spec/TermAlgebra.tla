------------------------------ MODULE TermAlgebra ------------------------------
(***************************************************************************)
(* C16.  Judges what the implementation computed for a pair of terms x, y    *)
(* (possibly sharing variables):                                             *)
(*   case.unify    sequence of answers of the in-place unifier; each answer   *)
(*                 is the pair (and its variables) as bound at that moment    *)
(*   case.mgu      <<>> or <<the variables under the returned substitution>>  *)
(*   booleans covers, rcovers, same, unifies, canoneq, hasheq, eqxy           *)
(*   case.inter    <<>> or <<intersection>>                                   *)
(*   case.gen      generaliser;  gen1, gen2: it under its two substitutions   *)
(*   case.freshx, case.canonx, ...                                            *)
(***************************************************************************)
EXTENDS Unify, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st

Bad(b, txt) == IF b THEN {} ELSE {txt}

Verdict(c) ==
  LET x == c.x  y == c.y
      m == MGU(x, y)
      vs == Tup(c.vars)
      inst == IF m = {} THEN vs ELSE Apply(CHOOSE s \in m : TRUE, vs)
      joint == IF m = {} THEN vs ELSE Apply(CHOOSE s \in m : TRUE, Tup(<<x, y>> \o c.vars))
      g == Lgg(x, y)
  IN IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
     Bad(Len(c.unify) = Cardinality(m), <<"unify: number of answers", Len(c.unify), "expected", Cardinality(m)>>)
     \cup Bad(m = {} \/ \A k \in 1..Len(c.unify) : Variant(Tup(c.unify[k]), joint), <<"unify: not a most general unifier", c.unify>>)
     \cup Bad((c.mgu # <<>>) = (m # {}), <<"mgu: success", c.mgu>>)
     \cup Bad(m = {} \/ c.mgu = <<>> \/ Variant(Tup(c.mgu[1]), joint), <<"mgu: not most general", c.mgu>>)
     \cup Bad(c.unifies = (m # {}), <<"unifies", c.unifies>>)
     \cup Bad((c.inter # <<>>) = (m # {}), <<"intersect: success", c.inter>>)
     \cup Bad(m = {} \/ c.inter = <<>> \/ Variant(c.inter[1], Apply(CHOOSE s \in m : TRUE, x)), <<"intersect", c.inter>>)
     \cup Bad(c.covers = Covers(x, y), <<"covers(x,y)", c.covers>>)
     \cup Bad(c.rcovers = Covers(y, x), <<"covers(y,x)", c.rcovers>>)
     \cup Bad(c.same = Variant(x, y), <<"same", c.same>>)
     \cup Bad(c.canoneq = Variant(x, y), <<"canonicalize(x) == canonicalize(y)", c.canoneq>>)
     \cup Bad(Variant(c.canonx, x), <<"canonicalize", c.canonx>>)
     \cup Bad(~c.canoneq \/ c.hasheq, <<"hash of equal canonical forms differs">>)
     \cup Bad(c.eqxy = (x = y), <<"==", c.eqxy>>)
     \cup Bad(Variant(c.freshx, x) /\ c.freshapart, <<"fresh", c.freshx>>)
     \cup Bad(Variant(c.gen, g), <<"generalizer", c.gen, "expected a variant of", g>>)
     \cup Bad(c.gen1 = x /\ c.gen2 = y, <<"generalizer substitutions", c.gen1, c.gen2>>)
     \cup Bad(c.groundx = IsGround(x) /\ c.nvarsx = Cardinality(VarsOf(x)), <<"is_ground / term_vars">>)
     \cup Bad(c.replaced = Apply(c.rv :> c.rt, x), <<"replace_in_expr", c.replaced>>)
     \cup Bad(c.subst = Apply(c.rv :> c.rt, x), <<"substitution", c.subst>>)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
