-------------------------------- MODULE Equality --------------------------------
(***************************************************************************)
(* C15.  When two rules, and two programs, are the same: up to the names of   *)
(* the variables of each rule, the order of its subgoals, and the order of    *)
(* the rules.  What alignments and distances must say about that.             *)
(***************************************************************************)
EXTENDS ProgramOps

\* the signature the implementation buckets by: blind to variables shared between subgoals
SameSig(r, s) == /\ Len(r.b) = Len(s.b) /\ Variant(RT(r.h, <<>>), RT(s.h, <<>>))
                 /\ \E p \in Permutations(1..Len(r.b)) : \A k \in 1..Len(r.b) : Variant(Tup(<<Atom(r.b[k])>>), Tup(<<Atom(s.b[p[k]])>>))

\* size of a largest set of disjoint pairs of same rules (RuleSame is an equivalence)
CountSame(P, r) == Cardinality({j \in 1..Len(P) : RuleSame(P[j], r)})
Reps(P) == {k \in 1..Len(P) : \A j \in 1..k - 1 : ~RuleSame(P[j], P[k])}
RECURSIVE SumOver(_, _, _)
SumOver(K, P, Q) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN Min2(CountSame(P, P[k]), CountSame(Q, P[k])) + SumOver(K \ {k}, P, Q)
MaxMatch(P, Q) == SumOver(Reps(P), P, Q)

\* A is a sequence of pairs <<i, j>>, 0 standing for "no match"
Lefts(A) == SelectSeq([k \in 1..Len(A) |-> A[k][1]], LAMBDA x : x # 0)
Rights(A) == SelectSeq([k \in 1..Len(A) |-> A[k][2]], LAMBDA x : x # 0)
Onto(xs, n) == Len(xs) = n /\ {xs[k] : k \in 1..Len(xs)} = 1..n
Aligns(P, Q, A) ==
  /\ Onto(Lefts(A), Len(P)) /\ Onto(Rights(A), Len(Q))
  /\ \A k \in 1..Len(A) : (A[k][1] # 0 /\ A[k][2] # 0) => RuleSame(P[A[k][1]], Q[A[k][2]])
  /\ Cardinality({k \in 1..Len(A) : A[k][1] # 0 /\ A[k][2] # 0}) = MaxMatch(P, Q)

\* constant folding: one rule for each skeleton, carrying the sum of the coefficients
Skel(r) == [h |-> r.h, b |-> Sym(r.b)]
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(S, P, k, acc) ==     \* acc: sequence of [s |-> skeleton, c |-> coefficient]
  IF k > Len(P) THEN acc ELSE
  LET C == CProd(S, P[k].b)  s == Skel(P[k])
      K == {j \in 1..Len(acc) : RuleSame(acc[j].s, s)}
  IN IF C = Zero(S) THEN FoldFrom(S, P, k + 1, acc)
     ELSE IF K = {} THEN FoldFrom(S, P, k + 1, Append(acc, [s |-> s, c |-> C]))
     ELSE FoldFrom(S, P, k + 1, [acc EXCEPT ![MinOf(K)].c = Plus(S, @, C)])
ConstFold(S, P) == FoldFrom(S, P, 1, <<>>)
IsFact(x) == x.s.b = <<>>
\* the folded programs have the same facts and the same coefficients on the same rules
Agree(S, P, Q) == LET p == ConstFold(S, P)  q == ConstFold(S, Q) IN
  /\ Len(p) = Len(q)
  /\ \A k \in 1..Len(p) : \E j \in 1..Len(q) : RuleSame(p[k].s, q[j].s) /\ p[k].c = q[j].c
\* the same, with facts allowed to have different values
AgreeButFacts(S, P, Q) == LET p == ConstFold(S, P)  q == ConstFold(S, Q) IN
  /\ Len(p) = Len(q)
  /\ \A k \in 1..Len(p) : \E j \in 1..Len(q) : RuleSame(p[k].s, q[j].s) /\ (IsFact(p[k]) \/ p[k].c = q[j].c)
\* the largest difference between the values of a fact (integers)
Gap(S, P, Q) == LET p == ConstFold(S, P)  q == ConstFold(S, Q)
                    D == { Abs(p[k].c - q[j].c) : <<k, j>> \in {x \in (1..Len(p)) \X (1..Len(q)) : IsFact(p[x[1]]) /\ RuleSame(p[x[1]].s, q[x[2]].s)} }
                IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A e \in D : e <= d
=============================================================================
