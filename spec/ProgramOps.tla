------------------------------- MODULE ProgramOps -------------------------------
(***************************************************************************)
(* C14, C15.  A program as a sequence of rules [h, b]; an element of b is a  *)
(* subgoal or a constant <<"%", w>>.  The operations that mutate a program   *)
(* and those that read it, defined on the sequence alone.                    *)
(***************************************************************************)
EXTENDS Unify

IsC(x) == x[1] = "%"
Sym(b) == SelectSeq(b, LAMBDA x : ~IsC(x))
CProd(S, b) == LET cs == SelectSeq(b, IsC) IN ProdSeq(S, [k \in 1..Len(cs) |-> cs[k][2]])
\* a rule is constant when its body is at most one constant
ConstRhs(S, r) == IF r.b = <<>> THEN <<One(S)>> ELSE IF Len(r.b) = 1 /\ IsC(r.b[1]) THEN <<r.b[1][2]>> ELSE <<>>
Folded(S, r) == LET C == CProd(S, r.b)  xs == Sym(r.b) IN
  IF C = Zero(S) THEN {} ELSE { [h |-> r.h, b |-> IF C = One(S) /\ xs # <<>> THEN xs ELSE << <<"%", C>> >> \o xs] }
MinOf(K) == CHOOSE k \in K : \A j \in K : k <= j
FirstConst(S, rs, h) == LET K == {k \in 1..Len(rs) : ConstRhs(S, rs[k]) # <<>> /\ Variant(rs[k].h, h)} IN IF K = {} THEN 0 ELSE MinOf(K)

\* a rule is added: dropped when it is zero, merged when it is a constant for an item that has one
Update(S, rs, r0) ==
  LET F == Folded(S, r0) IN
  IF F = {} THEN rs ELSE
  LET r == CHOOSE r \in F : TRUE  c == ConstRhs(S, r) IN
  IF c = <<>> THEN Append(rs, r) ELSE
  LET k == FirstConst(S, rs, r.h) IN
  IF k = 0 THEN Append(rs, r)
  ELSE [rs EXCEPT ![k] = [h |-> rs[k].h, b |-> << <<"%", Plus(S, ConstRhs(S, rs[k])[1], c[1])>> >>]]
DropAt(rs, i) == SubSeq(rs, 1, i - 1) \o SubSeq(rs, i + 1, Len(rs))

Fn(t) == IF IsVar(t) THEN "?" ELSE t[1]
ByFunctor(rs, f) == SelectSeq([k \in 1..Len(rs) |-> k], LAMBDA k : Fn(rs[k].h) \in {f, "?"})
Syms(rs) == UNION { {Fn(rs[k].h)} \cup { Fn(Sym(rs[k].b)[j]) : j \in 1..Len(Sym(rs[k].b)) } : k \in 1..Len(rs) } \ {"?"}
\* rules as terms
RTerm(r) == Tup(<<r.h>> \o r.b)
\* constants and numbers of the body are atoms for matching: <<"%", w>> becomes <<"%w">> with the value printed
Atom(x) == IF IsC(x) THEN <<"%" \o ToString(x[2])>> ELSE x
RT(h, b) == Tup(<<h>> \o [k \in 1..Len(b) |-> Atom(b[k])])
SameSeq(xs, ys) == Len(xs) = Len(ys) /\ \A k \in 1..Len(xs) : Variant(RT(xs[k].h, xs[k].b), RT(ys[k].h, ys[k].b))
\* rules equal up to names of variables and order of subgoals
RuleSame(r, s) == Len(r.b) = Len(s.b) /\ \E p \in Permutations(1..Len(r.b)) : Variant(RT(r.h, r.b), RT(s.h, [k \in 1..Len(r.b) |-> s.b[p[k]]]))
\* programs equal up to that and the order of rules (RuleSame is an equivalence)
ProgSame(P, Q) == Len(P) = Len(Q) /\ \A k \in 1..Len(P) :
   Cardinality({j \in 1..Len(P) : RuleSame(P[j], P[k])}) = Cardinality({j \in 1..Len(Q) : RuleSame(Q[j], P[k])})
\* one step of lookup: rule k answers with its instance and that of the query
Lookup(rs, q) ==
  LET m(k) == MGU(Tag("r", rs[k].h), Tag("q", q))
      K == SelectSeq([k \in 1..Len(rs) |-> k], LAMBDA k : m(k) # {})
  IN [n \in 1..Len(K) |-> LET s == CHOOSE s \in m(K[n]) : TRUE  r == rs[K[n]] IN
        [i |-> K[n] - 1, t |-> Tup(<<Apply(s, Tag("q", q)), Apply(s, Tag("r", RT(r.h, r.b)))>>)]]
=============================================================================
