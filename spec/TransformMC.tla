------------------------------ MODULE TransformMC ------------------------------
(***************************************************************************)
(* C05, C06: histories of definition, unfolding, folding and elimination over  *)
(* every small propositional program, with the measure that decides which        *)
(* folds are accepted: each rule carries an interval for the size it stands for   *)
(* in the original program; unfolding adds intervals, folding subtracts them, and  *)
(* a step is accepted when what is left around the replaced subgoal is positive.   *)
(*                                                                          *)
(* Invariant: whatever is accepted gives every item that is still there the        *)
(* value that the original gives it, for each data set.                            *)
(*                                                                          *)
(* hist   the programs so far, [p |-> rules, m |-> intervals]; a step may take its  *)
(*        definitions from any of them                                          *)
(***************************************************************************)
EXTENDS Dyna

CONSTANTS Rules, Steps

Sat == [k |-> "sat", n |-> 7]
Inputs == { <<"a">> }
Heads == { <<"x">>, <<"y">> }
Bodies == { << <<"a">> >>, << <<"x">> >>, << <<"y">> >>, << <<"a">>, <<"x">> >>, << <<"a">>, <<"y">> >>, << <<"a">>, <<"a">> >>, << <<"x">>, <<"y">> >>, << <<"y">>, <<"y">> >> }
RuleSet == [h : Heads, b : Bodies, w : {1}]
Fact(h, w) == [h |-> h, b |-> <<>>, w |-> w]
Datas == { << Fact(<<"a">>, 1) >>, << Fact(<<"a">>, 2) >> }
RuleOrder == SetToSeq(RuleSet)

VARIABLES orig, hist, gone, n

vars == <<orig, hist, gone, n>>

Cur == hist[Len(hist)]
P == Cur.p
M == Cur.m

Init ==
  /\ n = 0
  /\ gone = {}
  /\ orig \in UNION { { [k \in 1..Len(f) |-> RuleOrder[f[k]]] : f \in { f \in [1..r -> 1..Len(RuleOrder)] : \A k \in 1..r - 1 : f[k] <= f[k + 1] } } : r \in 1..Rules }
  /\ \E ms \in [1..Len(orig) -> 1..2] : hist = << [p |-> orig, m |-> [k \in 1..Len(orig) |-> <<ms[k], ms[k]>>]] >>

Defs(Q, t) == { k \in 1..Len(Q) : Q[k].h = t }
DefSeq(Q, t) == SelectSeq([k \in 1..Len(Q) |-> k], LAMBDA k : Q[k].h = t)
Without(s, ks) == LET ix == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : k \notin ks) IN [k \in 1..Len(ix) |-> s[ix[k]]]
Cut(b, j) == SubSeq(b, 1, j - 1)
Rest(b, j) == SubSeq(b, j + 1, Len(b))
Occurs(b, t) == Cardinality({ k \in 1..Len(b) : b[k] = t })
SameBag(b, c) == Len(b) = Len(c) /\ \A t \in ToSet(b) : Occurs(b, t) = Occurs(c, t)
SameRule(r, s) == r.h = s.h /\ r.w = s.w /\ SameBag(r.b, s.b)

Push(q) == hist' = Append(hist, q)
Small(p) == Len(p) <= Rules + 2 /\ \A k \in 1..Len(p) : Len(p[k].b) <= 4

\* name a part of a rule
Define ==
  /\ \A k \in 1..Len(P) : P[k].h # <<"d">>
  /\ \E i \in 1..Len(P), j \in 1..2 :
       /\ j <= Len(P[i].b)
       /\ Push([p |-> Append(P, [h |-> <<"d">>, b |-> IF j = 1 THEN Cut(P[i].b, 2) ELSE P[i].b, w |-> 1]), m |-> Append(M, <<1, 1>>)])
  /\ UNCHANGED gone

Into(r, j, s) == [h |-> r.h, b |-> Cut(r.b, j) \o s.b \o Rest(r.b, j), w |-> r.w * s.w]
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[2], a[2] - b[1]>>

\* replace a subgoal by its definitions in some program of the history
Unfold ==
  \E i \in 1..Len(P), k \in 1..Len(hist) : \E j \in 1..Len(P[i].b) :
    LET D == hist[k]  r == P[i]  ds == DefSeq(D.p, r.b[j])  extra == Len(r.b) - 1 IN
    /\ ds # <<>>
    /\ k = Len(hist) \/ \A e \in 1..Len(ds) : Add(M[i], D.m[ds[e]])[1] + extra > 0
    /\ LET q == [p |-> Without(P, {i}) \o [e \in 1..Len(ds) |-> Into(r, j, D.p[ds[e]])],
                 m |-> Without(M, {i}) \o [e \in 1..Len(ds) |-> Add(M[i], D.m[ds[e]])]]
       IN Small(q.p) /\ Push(q)
    /\ UNCHANGED gone

\* the ways of giving each definition a rule of its own that it accounts for
RECURSIVE Assign(_, _, _, _)
Assign(r, D, ds, used) ==
  IF ds = <<>> THEN { <<>> }
  ELSE UNION { { <<k>> \o rest : rest \in Assign(r, D, Tail(ds), used \cup {k}) } :
               k \in { k \in 1..Len(P) : k \notin used /\ SameRule(P[k], Into(r, 1, D.p[Head(ds)])) } }

\* replace rules by one that refers to the item of whose definitions they are instances
Fold ==
  \E k \in 1..Len(hist), t \in Heads \cup { <<"d">> }, i \in 1..Len(P) :
    LET D == hist[k]  ds == DefSeq(D.p, t) IN
    /\ ds # <<>>
    /\ LET b0 == D.p[ds[1]].b IN
       \* the rest of the rule when the first definition's body is taken from it
       \E left \in { SelectSeq(P[i].b, LAMBDA z : z \notin ToSet(b0)) } \cup { Rest(P[i].b, j) : j \in 1..Len(P[i].b) } \cup { Cut(P[i].b, j) : j \in 1..Len(P[i].b) } :
         LET r == [h |-> P[i].h, b |-> << t >> \o left, w |-> 1] IN
         \E S \in Assign(r, D, ds, {}) :
           LET df == [e \in 1..Len(ds) |-> Sub(M[S[e]], D.m[ds[e]])]
               m == << Min({ df[e][1] : e \in 1..Len(ds) }), Max({ df[e][2] : e \in 1..Len(ds) }) >>
           IN /\ S[1] = i
              /\ \A e \in 1..Len(ds) : df[e][1] + Len(left) > 0
              /\ Push([p |-> << r >> \o Without(P, ToSet(S)), m |-> << m >> \o Without(M, ToSet(S))])
    /\ UNCHANGED gone

\* remove an item whose rules do not use it
RECURSIVE Inline(_, _, _)
Inline(rs, t, ds) ==
  LET hit == { k \in 1..Len(rs) : t \in ToSet(rs[k].b) } IN
  IF hit = {} THEN rs
  ELSE LET k == CHOOSE k \in hit : TRUE
           j == CHOOSE j \in 1..Len(rs[k].b) : rs[k].b[j] = t
       IN Inline(Without(rs, {k}) \o [e \in 1..Len(ds) |-> Into(rs[k], j, ds[e])], t, ds)

Eliminate ==
  \E t \in { P[k].h : k \in 1..Len(P) } :
    LET dk == DefSeq(P, t)  ds == [e \in 1..Len(dk) |-> P[dk[e]]] IN
    /\ \A e \in 1..Len(ds) : t \notin ToSet(ds[e].b)
    /\ LET q == Inline(Without(P, ToSet(dk)), t, ds) IN
       /\ Small(q)
       \* (a new start: nothing earlier can be used as a definition)
       /\ hist' = << [p |-> q, m |-> [k \in 1..Len(q) |-> <<1, 1>>]] >>
    /\ gone' = gone \cup {t}

Next == /\ n < Steps
        /\ n' = n + 1
        /\ orig' = orig
        /\ Define \/ Unfold \/ Fold \/ Eliminate

Kept(C) == [ t \in { t \in DOMAIN C : t \notin gone \cup { <<"d">> } } |-> C[t] ]

Preserved == \A d \in Datas : ChartDiff(Sat, Kept(LFP(Sat, orig \o d, {})), Kept(LFP(Sat, P \o d, {}))) = {}
Ordered == \A k \in 1..Len(M) : M[k][1] <= M[k][2]
TypeOK == Len(P) = Len(M) /\ Len(hist) <= Steps + 1
=============================================================================
