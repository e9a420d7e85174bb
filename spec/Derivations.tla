----------------------------- MODULE Derivations -----------------------------
(***************************************************************************)
(* Derivations (proof trees) of a program whose rules keep the constants of  *)
(* their bodies in place.  A derivation is itself a term,                    *)
(*     $d(#i, conclusion, child, ..., child)                                 *)
(* where i is the position of the rule (0 for a builtin relation) and the    *)
(* children are, in the order of the rule's body, derivations of the         *)
(* subgoals, or weights.  So the term algebra applies to derivations: one    *)
(* that is not ground stands for its instances.                              *)
(***************************************************************************)
EXTENDS Unify

IsDeriv(d) == d[1] = "$d"
Tree(i, h, kids) == <<"$d", IntT(i), h>> \o kids
RuleOf(d) == d[2][2]
Concl(d) == IF IsDeriv(d) THEN d[3] ELSE d
Kids(d) == SubSeq(d, 4, Len(d))
WeightT(w) == IntT(w)

\* variables in order of first occurrence
RECURSIVE VarSeq(_)
VarSeq(t) == IF t[1] = "?" THEN <<t[2]>> ELSE IF t[1] = "#" THEN <<>>
             ELSE FlattenSeq([k \in 1..Len(t) - 1 |-> VarSeq(t[k + 1])])
FirstOccs(s) == SelectSeq([k \in 1..Len(s) |-> IF \E j \in 1..k - 1 : s[j] = s[k] THEN "" ELSE s[k]], LAMBDA x : x # "")
Canon(t) == LET vs == FirstOccs(VarSeq(t))
            IN IF vs = <<>> THEN t ELSE Apply([v \in ToSet(vs) |-> VarT("V" \o ToString((CHOOSE k \in 1..Len(vs) : vs[k] = v) - 1))], t)

------------------------------------------------------------------------------
(* All ways of deriving a body from given derivations.  A partial match is   *)
(* <<substitution, children>>; children are instantiated at the end.         *)
RECURSIVE Match1(_, _, _, _)
Match1(body, k, pool, parts) ==
  IF k > Len(body) \/ parts = {} THEN parts
  ELSE LET g == body[k] IN
       Match1(body, k + 1, pool,
         IF g[1] = "#" \/ IsBuiltin(g) THEN { <<p[1], Append(p[2], g)>> : p \in parts }
         ELSE UNION { UNION { LET e == Tag("k" \o ToString(k) \o "_", d) IN
                              { <<s, Append(p[2], e)>> : s \in UnifyAll(<< <<g, Concl(e)>> >>, p[1]) } : d \in pool } : p \in parts })

\* builtin relations of the body are decided last, when their arguments are known
RECURSIVE Decide(_, _)
Decide(bs, ss) ==
  IF bs = <<>> \/ ss = {} THEN ss
  ELSE UNION { LET R == { k \in 1..Len(bs) : Ready(bs[k], s) } IN
               IF R = {} THEN { ("!" :> <<"!flounder">>) @@ s }
               ELSE LET k == CHOOSE k \in R : TRUE
                    IN Decide(RemoveAt(bs, k), { [v \in DOMAIN u |-> Apply(u, u[v])] : u \in RunBuiltin(bs[k], s) }) : s \in ss }

Leaf1(g, one) == IF IsBuiltin(g) THEN Tree(0, g, <<WeightT(one)>>) ELSE g

StepRule(P, i, pool, one) ==
  LET r == P[i]
      ms == Match1(r.b, 1, pool, { <<NoSub, <<>>>> })
      bt == SelectSeq(r.b, IsBuiltin)
  IN UNION { { LET f(t) == Apply(s, t) IN
               IF "!" \in DOMAIN s THEN <<"!flounder">>
               ELSE Canon(f(Tree(i, r.h, [k \in 1..Len(r.b) |-> Leaf1(m[2][k], one)]))) : s \in Decide(bt, {m[1]}) } : m \in ms }

Step(P, pool, one) == UNION { StepRule(P, i, pool, one) : i \in 1..Len(P) }

\* all derivations of height at most h
RECURSIVE Trees(_, _, _)
Trees(P, h, one) == IF h = 0 THEN {} ELSE Step(P, Trees(P, h - 1, one), one)

\* those of the instances of a pattern
Under(ds, q) == { Canon(Apply(s, Tag("d_", d))) : <<s, d>> \in UNION { { <<s, d>> : s \in MGU(q, Tag("d_", Concl(d))) } : d \in ds } }

------------------------------------------------------------------------------
(* Local validity: every step is an instance of its rule and every child     *)
(* derives the premise it stands for.                                        *)
RECURSIVE Valid(_, _, _)
Valid(P, d, one) ==
  IF d[1] = "#" THEN TRUE
  ELSE IF ~IsDeriv(d) THEN FALSE
  ELSE LET i == RuleOf(d)  ks == Kids(d) IN
       IF i = 0 THEN /\ IsBuiltin(Concl(d)) /\ ks = <<WeightT(one)>>
                     /\ Ready(Concl(d), NoSub) /\ RunBuiltin(Concl(d), NoSub) # {}
       ELSE /\ i \in 1..Len(P)
            /\ Len(ks) = Len(P[i].b)
            /\ Covers(Tup(<<P[i].h>> \o P[i].b), Tup(<<Concl(d)>> \o [k \in 1..Len(ks) |-> Concl(ks[k])]))
            /\ \A k \in 1..Len(ks) : Valid(P, ks[k], one)

RECURSIVE Value(_, _), Height(_), Size(_), Dim(_), Subs(_), WeightsOf(_)
Value(S, d) == IF d[1] = "#" THEN d[2] ELSE ProdSeq(S, [k \in 1..Len(Kids(d)) |-> Value(S, Kids(d)[k])])
\* the weights, from left to right
WeightsOf(d) == IF d[1] = "#" THEN <<d[2]>> ELSE FlattenSeq([k \in 1..Len(Kids(d)) |-> WeightsOf(Kids(d)[k])])
IsBase(d) == d[1] = "#" \/ RuleOf(d) = 0
Height(d) == IF IsBase(d) THEN 0 ELSE 1 + Max({0} \cup { Height(Kids(d)[k]) : k \in 1..Len(Kids(d)) })
Size(d) == IF IsBase(d) THEN 0 ELSE 1 + FoldLeft(LAMBDA a, k : a + Size(k), 0, Kids(d))
\* the number of nested ties (the Strahler number, leaves counting zero)
Dim(d) == IF IsBase(d) THEN 0 ELSE
          LET ds == [k \in 1..Len(Kids(d)) |-> Dim(Kids(d)[k])]
              m == Max({0} \cup { ds[k] : k \in 1..Len(ds) })
          IN IF Cardinality({ k \in 1..Len(ds) : ds[k] = m }) > 1 THEN m + 1 ELSE m
\* its subderivations, itself included
Subs(d) == {d} \cup (IF IsBase(d) THEN {} ELSE UNION { Subs(Kids(d)[k]) : k \in 1..Len(Kids(d)) })

\* (rules that are equal up to the names of variables give subderivations that look the same)
RECURSIVE Shape(_)
Shape(d) == IF IsBase(d) THEN d ELSE Tree(1, Concl(d), [k \in 1..Len(Kids(d)) |-> Shape(Kids(d)[k])])

\* what the derivations of each item add up to
SumValues(S, ds) == Accumulate(S, { [h |-> Concl(d), v |-> Value(S, d), i |-> d] : d \in ds })

\* a program with its constants multiplied together, as the fixpoint wants it
Weighted(S, P) == [ i \in 1..Len(P) |->
   [h |-> P[i].h, b |-> SelectSeq(P[i].b, LAMBDA t : t[1] # "#"),
    w |-> ProdSeq(S, LET cs == SelectSeq(P[i].b, LAMBDA t : t[1] = "#") IN [k \in 1..Len(cs) |-> cs[k][2]])] ]
=============================================================================
