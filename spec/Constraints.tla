------------------------------ MODULE Constraints ------------------------------
(***************************************************************************)
(* C22.  Constraint propagation and the operations on constrained types.     *)
(* A type is [h |-> head, b |-> Seq(constraint)]; a theory is a sequence of   *)
(* rules [h, b] over constraints; $fail is contradiction; equality merges     *)
(* variables; ground comparisons are decided.                                *)
(***************************************************************************)
EXTENDS Unify, Json, IOUtils

Fail == <<"$fail">>
AsChart(F) == [x \in F |-> 0]
Derived(R, F) == UNION { { Apply(m, R[k].h) : m \in JoinAtoms(AsChart(F), R[k].b, {NoSub}) } : k \in 1..Len(R) }

FalseCmp(t) == t[1] \in (Cmps \ {"!="}) /\ Len(t) = 3 /\ IsGround(t) /\ ~CmpHolds(t[1], t[2], t[3])
TrueCmp(t) == t[1] \in (Cmps \ {"!="}) /\ Len(t) = 3 /\ IsGround(t) /\ CmpHolds(t[1], t[2], t[3])

\* <<>> on contradiction, otherwise <<substitution, facts>>
RECURSIVE Clo(_, _, _)
Clo(R, F, s) ==
  LET D == F \cup Derived(R, F)
      E == { t \in D : t[1] = "=" /\ Len(t) = 3 }
      u == UnifyAll([k \in 1..Cardinality(E) |-> <<SetToSeq(E)[k][2], SetToSeq(E)[k][3]>>], s)
  IN IF u = {} \/ Fail \in D \/ \E t \in D : FalseCmp(t) THEN <<>>
     ELSE LET w == CHOOSE w \in u : TRUE
              G == { Apply(w, t) : t \in D \ E }
          IN IF G = F THEN <<w, F>> ELSE Clo(R, G, w)

\* the constraints of a type, closed: <<>> or <<head, facts>>
SetOf(q) == { q[k] : k \in 1..Len(q) }
CloType(R, t) == LET c == Clo(R, SetOf(t.b), NoSub) IN IF c = <<>> THEN <<>> ELSE << Apply(c[1], t.h), c[2] >>

\* is the closed type cs contained in type r?
Entailed(F, b) == b \in F \/ TrueCmp(b)
\* (variables that are only in the constraints are existential: r's constraints map into the closed s's)
CoversClosed(r, cs) ==
  \E m \in Match(r.h, cs[1], NoSub) :
    JoinAtoms(AsChart(cs[2]), SelectSeq(r.b, LAMBDA b : ~TrueCmp(Apply(m, b))), {m}) # {}
TCovers(R, r, s) == LET cs == CloType(R, s) IN cs = <<>> \/ CoversClosed(r, cs)

TIntersect(R, r, s) ==
  LET m == MGU(r.h, s.h) IN
  IF m = {} THEN <<>> ELSE
  LET w == CHOOSE w \in m : TRUE
      c == Clo(R, { Apply(w, b) : b \in SetOf(r.b) \cup SetOf(s.b) }, w)
  IN IF c = <<>> THEN <<>> ELSE << Apply(c[1], r.h), c[2] >>

\* equality of closed types up to renaming (their variables are named apart): constraints over head
\* variables are the same, and those with existential variables map into one another
HomInto(h1, B1, h2, B2) == \E m \in Match(h1, h2, NoSub) : JoinAtoms(AsChart(B2), SetToSeq(B1), {m}) # {}
SameClosed(h1, B1, h2, B2) == HomInto(h1, B1, h2, B2) /\ HomInto(h2, B2, h1, B1)
NoTrue(B) == { b \in B : ~TrueCmp(b) }

\* the constraints common to two closed types, over the variables of the generalised head
CommonFacts(c1, c2, tab) ==
  { g \in UNION { { LET r == LggSt(a, b, tab) IN IF r[2] = tab THEN r[1] ELSE <<"!new">> : b \in c2[2] } : a \in c1[2] } :
      g # <<"!new">> /\ VarsOf(g) # {} }

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Bad(b, txt) == IF b THEN {} ELSE {txt}
Matches(expected, got) ==   \* got: <<>> or <<type>>
  IF expected = <<>> THEN got = <<>>
  ELSE got # <<>> /\ SameClosed(expected[1], NoTrue(expected[2]), got[1].h, NoTrue(SetOf(got[1].b)))

\* (with existential variables in comparisons, evaluated comparisons are forgotten, so no may be said)
Says(c, got, want) == got = want \/ (c.lenient /\ want)
PairVerdict(c) ==
  LET R == c.rules  r == c.r  s == c.s
      cr == CloType(R, r)  cs == CloType(R, s)
      g == LggSt(r.h, s.h, <<>>)
      Uni == MGU(r.h, s.h) # {}     \* (a contradictory type of another shape may be reported as not covered)
  IN UNION { Bad(Matches(cr, c.closed[k]), <<"closure", k, c.closed[k], "expected", cr>>) : k \in 1..Len(c.closed) }
     \cup Bad(Matches(cr, c.again), <<"closure applied again", c.again>>)
     \cup Bad(Says(c, c.covers, Uni /\ TCovers(R, r, s)), <<"covers(r,s)", c.covers>>)
     \cup Bad(Says(c, c.rcovers, Uni /\ TCovers(R, s, r)), <<"covers(s,r)", c.rcovers>>)
     \cup Bad(Says(c, c.same, Uni /\ TCovers(R, r, s) /\ TCovers(R, s, r)), <<"same", c.same>>)
     \cup Bad(c.disjoint = (TIntersect(R, r, s) = <<>>), <<"disjoint", c.disjoint>>)
     \cup Bad(Matches(TIntersect(R, r, s), c.inter), <<"intersect", c.inter, "expected", TIntersect(R, r, s)>>)
     \cup Bad(Matches(TIntersect(R, r, s), c.rinter), <<"intersect (swapped)", c.rinter>>)
     \cup Bad(TCovers(R, c.anti, r) /\ TCovers(R, c.anti, s), <<"anti_unifier does not cover its arguments", c.anti>>)
     \cup Bad(cr = <<>> \/ cs = <<>> \/ ~c.eqfree \/
              (/\ Variant(c.anti.h, g[1])
               /\ LET m == CHOOSE m \in Match(g[1], c.anti.h, NoSub) : TRUE
                      ca == CloType(R, c.anti)
                  IN ca # <<>> /\ \A b \in CommonFacts(cr, cs, g[2]) : Entailed(ca[2], Apply(m, b))),
              <<"anti_unifier is not the least", c.anti, "common", CommonFacts(cr, cs, g[2])>>)

ListVerdict(c) ==
  LET R == c.rules  T == c.types  N == Len(c.dedup)  M == Len(c.disjoin) IN
     UNION { Bad(\E k \in 1..N : TCovers(R, c.dedup[k], T[j]), <<"dedup loses", T[j]>>) : j \in 1..Len(T) }
     \cup UNION { Bad(c.lenient \/ CloType(R, c.dedup[k]) = <<>> \/ ~\E l \in 1..N : l # k /\ TCovers(R, c.dedup[l], c.dedup[k]), <<"dedup keeps a redundant type", c.dedup[k]>>) : k \in 1..N }
     \cup UNION { Bad(\E j \in 1..Len(T) : TCovers(R, T[j], c.dedup[k]) /\ TCovers(R, c.dedup[k], T[j]), <<"dedup invents", c.dedup[k]>>) : k \in 1..N }
     \cup UNION { Bad(\E k \in 1..M : TCovers(R, c.disjoin[k], T[j]), <<"disjoin loses", T[j]>>) : j \in 1..Len(T) }
     \cup UNION { Bad(~\E l \in 1..M : l # k /\ TIntersect(R, [h |-> Tag("l", c.disjoin[l].h), b |-> [z \in 1..Len(c.disjoin[l].b) |-> Tag("l", c.disjoin[l].b[z])]], c.disjoin[k]) # <<>>,
                      <<"disjoin overlaps", c.disjoin[k]>>) : k \in 1..M }

\* Binding states.  A type whose variables are marked bound / free / (unmarked) any denotes a set of
\* items, ground or not; values below stand for constants, distinct variables, and terms over them.
Small == { <<"#", 1>>, <<"#", 2>>, VarT("v"), VarT("w"), <<"f", <<"#", 1>>>>, <<"f", VarT("v")>> }
Big == Small \cup { <<"f", x>> : x \in Small }
Den(t, Vals) ==
  LET vs == VarsOf(t.h)
      bound == { t.b[k][2][2] : k \in { k \in 1..Len(t.b) : t.b[k][1] = "$bound" } }
      free == { t.b[k][2][2] : k \in { k \in 1..Len(t.b) : t.b[k][1] = "$free" } }
      ok(m) == /\ \A x \in bound : IsGround(m[x])
               /\ \A x \in free : IsVar(m[x]) /\ \A y \in vs \ {x} : m[x][2] \notin VarsOf(m[y])
  IN { Apply(m, t.h) : m \in { m \in [vs -> Vals] : ok(m) } }
ModeVerdict(c) ==
  LET r == Den(c.r, Big)  s == Den(c.s, Big) IN
     Bad(c.covers = (Den(c.s, Small) \subseteq r), <<"covers(r,s) with binding states", c.covers>>)
     \cup Bad(c.rcovers = (Den(c.r, Small) \subseteq s), <<"covers(s,r) with binding states", c.rcovers>>)
     \cup Bad(c.disjoint = (r \cap s = {}), <<"disjoint with binding states", c.disjoint, r \cap s>>)
     \cup Bad(c.rdisjoint = (r \cap s = {}), <<"disjoint (swapped) with binding states", c.rdisjoint, r \cap s>>)

Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> }
              ELSE CASE c.op = "pair" -> PairVerdict(c)
                     [] c.op = "list" -> ListVerdict(c)
                     [] c.op = "mode" -> ModeVerdict(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
