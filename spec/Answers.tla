-------------------------------- MODULE Answers --------------------------------
(***************************************************************************)
(* C25.  What a query pattern, a conjunction of patterns, a look-up and an    *)
(* enumeration of rule groundings must answer, given a program's solution.    *)
(***************************************************************************)
EXTENDS Equality

\* the part of a ground chart a pattern asks for
Matching(C, q) == [ t \in { x \in DOMAIN C : Match(q, x, NoSub) # {} } |-> C[t] ]
\* answers: sequence of [h, w]; each answer once, each an instance of the pattern, none of them zero
OneEach(S, q, ans) == /\ \A a, b \in 1..Len(ans) : a < b => ~Variant(ans[a].h, ans[b].h)
                      /\ \A a \in 1..Len(ans) : Covers(q, ans[a].h) /\ ans[a].w # Zero(S)

\* bags of records over sequences, equal up to renaming of variables
BagOf(xs, x, Same(_, _)) == Cardinality({k \in 1..Len(xs) : Same(xs[k], x)})
BagEq(xs, ys, Same(_, _)) == Len(xs) = Len(ys) /\ \A k \in 1..Len(xs) : BagOf(xs, xs[k], Same) = BagOf(ys, xs[k], Same)
SetSeq(A) == SetToSeq(A)

\* joint matches of a conjunction: [t |-> instance of the conjunction, w |-> product of the values]
Joint(S, C, qs) == LET at == AtomsOf(qs)  bt == BuiltinsOf(qs)
                       ss == RunBuiltins(bt, JoinAtoms(C, at, {NoSub}), {})
                   IN { [t |-> Apply(s, Tup(qs)), w |-> ProdSeq(S, [k \in 1..Len(at) |-> Val(S, C, Apply(s, at[k]))])] : s \in ss }
TotalOf(S, J) == FoldSet(LAMBDA x, acc : Plus(S, x.w, acc), Zero(S), J)

\* groundings of rule i supported by the chart
Groundings(S, P, C) == UNION { { [i |-> i - 1, t |-> Apply(s, RTerm([h |-> P[i].h, b |-> P[i].b])), w |-> InstVal(S, P[i], C, s)]
                                  : s \in RuleSubs(P[i], C, {}) } : i \in 1..Len(P) }
\* adding the groundings up, by head
ReSum(S, gs) == LET H == { gs[k].h : k \in 1..Len(gs) } IN
   LET f == [h \in H |-> SumSeq(S, [k \in 1..Len(gs) |-> IF gs[k].h = h THEN gs[k].w ELSE Zero(S)])] IN
   [h \in {x \in H : f[x] # Zero(S)} |-> f[h]]

\* one step of look-up: the instances of the rules whose head unifies with the pattern
Instances(rs, q) ==
  LET m(k) == MGU(Tag("r", rs[k].h), Tag("q", q))
      K == SelectSeq([k \in 1..Len(rs) |-> k], LAMBDA k : m(k) # {})
      tg(x) == IF IsC(x) THEN x ELSE Tag("r", x)
  IN [n \in 1..Len(K) |-> LET s == CHOOSE s \in m(K[n]) : TRUE  r == rs[K[n]] IN
        [h |-> Apply(s, Tag("r", r.h)), b |-> [j \in 1..Len(r.b) |-> IF IsC(r.b[j]) THEN r.b[j] ELSE Apply(s, Tag("r", r.b[j]))]]]
=============================================================================
