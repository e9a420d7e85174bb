-------------------------------- MODULE Dyna --------------------------------
(***************************************************************************)
(* The semantics of Dyna programs: terms, substitutions, semirings, the     *)
(* immediate-consequence operator and its least fixpoint.  Every other      *)
(* module of this specification is built on this one; it is the oracle      *)
(* against which executions of dyna-pi are judged.                          *)
(*                                                                          *)
(* Representation.  A term is a sequence whose first element is a string    *)
(* (the functor) and whose remaining elements are terms:                    *)
(*    f(a,X)  =  << "f", <<"a">>, <<"?","X">> >>                            *)
(* A variable is <<"?", name>>; an integer constant is <<"#", n>>; every    *)
(* other constant is a 0-ary term with a tagged name.  Positions are        *)
(* homogeneous so TLC never has to compare values of different kinds.       *)
(*                                                                          *)
(* A rule is a record [h |-> head, b |-> Seq(term), w |-> weight] where the *)
(* constants of the body have been multiplied into w (all semirings here    *)
(* are commutative).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

------------------------------------------------------------------------------
(*                                 Semirings                                *)
(* S is a record [k |-> kind, n |-> parameter]:                             *)
(*   "sat"  counting saturated at n  (finite, sensitive to multiplicity)       *)
(*   "int"  the integers (used for programs whose derivations are finite)   *)
(*   "min"  min-plus with cap n standing for infinity                       *)
(*   "max"  max-min on 0..n (bottleneck)                                    *)
(*   "rat"  rationals <<num,den>> in lowest terms                           *)
(*   "pair" componentwise pairs of saturated counts, <<a,b>>               *)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RatNorm(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN
                 IF n = 0 THEN <<0, 1>>
                 ELSE IF d < 0 THEN <<-(n \div g), (-d) \div g>>
                 ELSE <<n \div g, d \div g>>

Zero(S) == CASE S.k = "sat" -> 0
             [] S.k = "int" -> 0
             [] S.k = "min" -> S.n
             [] S.k = "max" -> 0
             [] S.k = "rat" -> <<0, 1>>

One(S) == CASE S.k = "sat" -> 1
            [] S.k = "int" -> 1
            [] S.k = "min" -> 0
            [] S.k = "max" -> S.n
            [] S.k = "rat" -> <<1, 1>>

Plus(S, a, b) == CASE S.k = "sat" -> Min2(a + b, S.n)
                   [] S.k = "int" -> a + b
                   [] S.k = "min" -> Min2(a, b)
                   [] S.k = "max" -> Max2(a, b)
                   [] S.k = "rat" -> RatNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])

Times(S, a, b) == CASE S.k = "sat" -> Min2(a * b, S.n)
                    [] S.k = "int" -> a * b
                    [] S.k = "min" -> IF a = S.n \/ b = S.n THEN S.n ELSE Min2(a + b, S.n)
                    [] S.k = "max" -> Min2(a, b)
                    [] S.k = "rat" -> RatNorm(a[1] * b[1], a[2] * b[2])

RECURSIVE SumSeq(_, _), ProdSeq(_, _)
SumSeq(S, xs) == IF xs = <<>> THEN Zero(S) ELSE Plus(S, Head(xs), SumSeq(S, Tail(xs)))
ProdSeq(S, xs) == IF xs = <<>> THEN One(S) ELSE Times(S, Head(xs), ProdSeq(S, Tail(xs)))

------------------------------------------------------------------------------
(*                          Terms and substitutions                         *)

IsVar(t) == t[1] = "?"
IsInt(t) == t[1] = "#"
VarT(x) == <<"?", x>>
IntT(n) == <<"#", n>>
NoSub == [x \in {} |-> <<"a">>]

RECURSIVE VarsOf(_)
VarsOf(t) == IF t[1] = "?" THEN {t[2]}
             ELSE IF t[1] = "#" THEN {}
             ELSE UNION { VarsOf(t[i]) : i \in 2..Len(t) }

RECURSIVE SubTerms(_)
SubTerms(t) == {t} \cup (IF t[1] \in {"?", "#"} THEN {} ELSE UNION { SubTerms(t[k]) : k \in 2..Len(t) })
ProperSubTerms(t) == IF t[1] \in {"?", "#"} THEN {} ELSE UNION { SubTerms(t[k]) : k \in 2..Len(t) }

VarsOfSeq(ts) == UNION { VarsOf(ts[i]) : i \in 1..Len(ts) }
IsGround(t) == VarsOf(t) = {}

\* apply a (fully resolved) substitution
RECURSIVE Apply(_, _)
Apply(s, t) == IF t[1] = "?" THEN (IF t[2] \in DOMAIN s THEN s[t[2]] ELSE t)
               ELSE IF t[1] = "#" \/ Len(t) = 1 THEN t
               ELSE [i \in 1..Len(t) |-> IF i = 1 THEN t[1] ELSE Apply(s, t[i])]

\* one-sided matching of a pattern against a ground term: a set of <= 1 substitutions
RECURSIVE Match(_, _, _), MatchArgs(_, _, _, _)
Match(p, t, s) ==
  IF p[1] = "?" THEN
     IF p[2] \in DOMAIN s THEN (IF s[p[2]] = t THEN {s} ELSE {})
     ELSE {(p[2] :> t) @@ s}
  ELSE IF p[1] # t[1] \/ Len(p) # Len(t) THEN {}
  ELSE IF p[1] = "#" THEN (IF p = t THEN {s} ELSE {})
  ELSE MatchArgs(p, t, 2, s)
MatchArgs(p, t, i, s) ==
  IF i > Len(p) THEN {s}
  ELSE LET m == Match(p[i], t[i], s)
       IN IF m = {} THEN {} ELSE MatchArgs(p, t, i + 1, CHOOSE u \in m : TRUE)

------------------------------------------------------------------------------
(*                                 Builtins                                 *)

Cmps == {"<", "<=", ">", ">=", "!="}
BuiltinFns == Cmps \cup {"=", "is", "$not_matches"}
IsBuiltin(t) == t[1] \in BuiltinFns /\ Len(t) = 3

\* order comparisons are relations on integers
CmpHolds(op, x, y) ==
  IF op = "!=" THEN x # y
  ELSE IsInt(x) /\ IsInt(y) /\
       CASE op = "<"  -> x[2] < y[2]
         [] op = "<=" -> x[2] <= y[2]
         [] op = ">"  -> x[2] > y[2]
         [] op = ">=" -> x[2] >= y[2]

\* ground arithmetic expression -> integer
RECURSIVE Eval(_)
Eval(e) == CASE e[1] = "#" -> e[2]
             [] e[1] = "+" /\ Len(e) = 3 -> Eval(e[2]) + Eval(e[3])
             [] e[1] = "-" /\ Len(e) = 3 -> Eval(e[2]) - Eval(e[3])
             [] e[1] = "*" /\ Len(e) = 3 -> Eval(e[2]) * Eval(e[3])

\* can the builtin be decided (or solved) under the bindings s?
Ready(b, s) ==
  LET x == Apply(s, b[2])  y == Apply(s, b[3]) IN
  CASE b[1] = "=" -> IsGround(x) \/ IsGround(y)
    [] b[1] = "is" -> IsGround(y)
    [] b[1] = "$not_matches" -> IsGround(y)
    [] OTHER -> IsGround(x) /\ IsGround(y)

\* the substitutions under which a ready builtin holds
RunBuiltin(b, s) ==
  LET x == Apply(s, b[2])  y == Apply(s, b[3]) IN
  CASE b[1] = "=" -> IF IsGround(y) THEN Match(x, y, s) ELSE Match(y, x, s)
    [] b[1] = "is" -> Match(x, IntT(Eval(y)), s)
    \* the pattern's variables are its own (they occur nowhere else in the rule)
    [] b[1] = "$not_matches" -> IF Match(b[2], y, NoSub) = {} THEN {s} ELSE {}
    [] OTHER -> IF CmpHolds(b[1], x, y) THEN {s} ELSE {}

------------------------------------------------------------------------------
(*                     Immediate consequences and fixpoint                  *)
(* A chart is a function from ground items (its support) to weights.        *)

EmptyChart == [x \in {} |-> 0]
Val(S, C, t) == IF t \in DOMAIN C THEN C[t] ELSE Zero(S)

RECURSIVE JoinAtoms(_, _, _)
\* all substitutions under which every atom of the sequence is in the chart
JoinAtoms(C, atoms, ss) ==
  IF atoms = <<>> \/ ss = {} THEN ss
  ELSE JoinAtoms(C, Tail(atoms),
         UNION { UNION { Match(Head(atoms), t, s) : t \in DOMAIN C } : s \in ss })

\* extend a substitution to the variables vs in all ways over the domain D
RECURSIVE Extend(_, _, _)
Extend(ss, vs, D) ==
  IF vs = {} \/ ss = {} THEN ss
  ELSE LET v == CHOOSE v \in vs : TRUE
       IN Extend(UNION { { (v :> d) @@ s : d \in D } : s \in ss }, vs \ {v}, D)

RECURSIVE RunBuiltins(_, _, _)
\* run builtins in any order in which they become ready; ss have one domain.
\* An equality neither side of which is known is solved by enumerating the
\* variables of one side (the structured one, if any) over D.
RunBuiltins(bs, ss, D) ==
  IF bs = <<>> \/ ss = {} THEN ss
  ELSE LET s0 == CHOOSE s \in ss : TRUE
           R == { i \in 1..Len(bs) : Ready(bs[i], s0) }
           E == { i \in 1..Len(bs) : bs[i][1] = "=" }
       IN IF R = {} /\ E # {} /\ D # {} THEN
             LET i == CHOOSE i \in E : \A j \in E : i <= j
                 side == IF IsVar(Apply(s0, bs[i][3])) THEN Apply(s0, bs[i][2]) ELSE Apply(s0, bs[i][3])
             IN RunBuiltins(bs, Extend(ss, VarsOf(side), D), D)
          ELSE IF R = {} /\ \E d \in D : IsInt(d) THEN
             RunBuiltins(bs, Extend(ss, VarsOf(Apply(s0, bs[1])), { d \in D : IsInt(d) }), D)
          ELSE IF R = {} THEN { ("!" :> <<"!flounder">>) @@ s : s \in ss }
          ELSE LET i == CHOOSE i \in R : \A j \in R : i <= j
               IN RunBuiltins(RemoveAt(bs, i), UNION { RunBuiltin(bs[i], s) : s \in ss }, D)

AtomsOf(b) == SelectSeq(b, LAMBDA x : ~IsBuiltin(x))
BuiltinsOf(b) == SelectSeq(b, IsBuiltin)

RuleVars(r) == VarsOf(r.h) \cup VarsOfSeq(r.b)

\* ground instances of rule r supported by chart C; head variables that the
\* body does not bind range over the finite domain D.  Members of D of the form
\* <<"!item", t>> offer t only to variables that are themselves arguments of the head
\* (the x/x items of speculation range over items, not over constants).
Plain(D) == { d \in D : d[1] # "!item" }
Items(D) == { d[2] : d \in { e \in D : e[1] = "!item" } }
TopVars(h) == { h[k][2] : k \in { k \in 2..Len(h) : IsVar(h[k]) } }

RuleSubs(r, C, D) ==
  LET js == JoinAtoms(C, AtomsOf(r.b), {NoSub})
      rest == IF js = {} THEN {} ELSE
              LET dom == DOMAIN (CHOOSE s \in js : TRUE)
                  bt == BuiltinsOf(r.b)
                  \* head variables no atom or builtin mentions: enumerate over D first
                  fv == VarsOf(r.h) \ (dom \cup VarsOfSeq(bt))
              IN IF fv = {} /\ bt = <<>> THEN js ELSE
                 LET P == Plain(D)
                     top == IF fv = {} THEN {} ELSE fv \cap TopVars(r.h)
                     x1 == IF top = {} THEN js ELSE Extend(js, top, P \cup Items(D))
                 IN RunBuiltins(bt, Extend(x1, fv \ top, P), P)
  IN rest

InstVal(S, r, C, s) ==
  LET at == AtomsOf(r.b)
  IN Times(S, r.w, ProdSeq(S, [i \in 1..Len(at) |-> Val(S, C, Apply(s, at[i]))]))

\* fold a set of contributions [h,v] tagged with identity into a chart
Accumulate(S, contribs) ==
  LET add(acc, c) == (c.h :> Plus(S, c.v, Val(S, acc, c.h))) @@ acc
      full == FoldSet(LAMBDA c, acc : add(acc, c), EmptyChart, contribs)
  IN [ t \in { x \in DOMAIN full : full[x] # Zero(S) } |-> full[t] ]

\* the item a rule instance contributes to; a rule whose builtins can never be
\* decided contributes to the pseudo-item !flounder, which no reported solution has
InstHead(r, s) == IF "!" \in DOMAIN s THEN <<"!flounder">> ELSE Apply(s, r.h)

TP(S, P, C, D) ==
  Accumulate(S, UNION { { [h |-> InstHead(P[i], s), v |-> InstVal(S, P[i], C, s), i |-> i, s |-> s]
                          : s \in RuleSubs(P[i], C, D) } : i \in 1..Len(P) })

\* k-th Kleene iterate
RECURSIVE Iterate(_, _, _, _, _)
Iterate(S, P, C, D, k) == IF k = 0 THEN C ELSE Iterate(S, P, TP(S, P, C, D), D, k - 1)

\* least fixpoint, with an iteration bound; exceeding it is marked by the
\* pseudo-item !diverges
RECURSIVE Fix(_, _, _, _, _)
Fix(S, P, C, D, k) ==
  IF k = 0 THEN (<<"!diverges">> :> One(S)) @@ C
  ELSE LET N == TP(S, P, C, D) IN IF N = C THEN C ELSE Fix(S, P, N, D, k - 1)

LFP(S, P, D) == Fix(S, P, EmptyChart, D, 60)

------------------------------------------------------------------------------
(*                    Comparing a reported solution                         *)
(* A reported solution is a sequence of [h |-> term, w |-> weight]; entries  *)
(* may be non-ground, in which case they stand for all instances over D.    *)

SolChart(S, sol, D) ==
  Accumulate(S, UNION { { [h |-> Apply(s, sol[i].h), v |-> sol[i].w, i |-> i, s |-> s]
                          : s \in Extend({NoSub}, VarsOf(sol[i].h), D) } : i \in 1..Len(sol) })

OnFns(C, fns) == [ t \in { x \in DOMAIN C : x[1] \in fns } |-> C[t] ]

\* restriction to items all of whose variables-positions could be enumerated:
\* used when a program's items are flat and some are non-ground
ChartDiff(S, want, got) ==
  { <<"missing", t, want[t]>> : t \in DOMAIN want \ DOMAIN got }
  \cup { <<"extra", t, got[t]>> : t \in DOMAIN got \ DOMAIN want }
  \cup { <<"value", t, want[t], got[t]>> : t \in { x \in DOMAIN want \cap DOMAIN got : want[x] # got[x] } }

=============================================================================
