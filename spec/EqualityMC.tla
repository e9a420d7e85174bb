------------------------------- MODULE EqualityMC -------------------------------
(***************************************************************************)
(* All rules over a small alphabet.  The relation is an equivalence coarser   *)
(* than nothing the signature separates, and the greedy alignment machine      *)
(* (take any left rule, pair it with any right rule still free) always ends    *)
(* with a largest matching, perfect exactly when the programs are the same.    *)
(***************************************************************************)
EXTENDS Equality
CONSTANT Size
Vs == {VarT("X"), VarT("Y"), VarT("Z")}
Subs == {<<"r", a, b>> : a \in Vs, b \in Vs}
HeadsE == {<<"g">>, <<"p", VarT("X")>>}
Bods == { <<>> } \cup { <<x>> : x \in Subs } \cup { <<x, y>> : x \in Subs, y \in Subs } \cup { << <<"%", 2>>, x>> : x \in Subs }
Rules == { [h |-> h, b |-> b] : h \in HeadsE, b \in Bods }
Few == { [h |-> <<"g">>, b |-> b] : b \in { <<>>, << <<"r", VarT("X"), VarT("Y")>>, <<"r", VarT("Y"), VarT("X")>> >>, << <<"r", VarT("Z"), VarT("Y")>>, <<"r", VarT("Y"), VarT("Z")>> >>,
                                             << <<"r", VarT("X"), VarT("Y")>>, <<"r", VarT("X"), VarT("Z")>> >>, << <<"r", VarT("X"), VarT("Y")>>, <<"r", VarT("Z"), VarT("Y")>> >> } }
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN { <<>> } ELSE LET p == SeqsUpTo(n - 1) IN p \cup { Append(s, x) : s \in {q \in p : Len(q) = n - 1}, x \in Few }
Progs == SeqsUpTo(Size)

VARIABLES P, Q, left, right, pairs, r1, r2, mode
vars == <<P, Q, left, right, pairs, r1, r2, mode>>
NoR == [h |-> <<"none">>, b |-> <<>>]
Init == \/ /\ mode = "align" /\ P \in Progs /\ Q \in Progs /\ left = 1..Len(P) /\ right = 1..Len(Q) /\ pairs = {} /\ r1 = NoR /\ r2 = NoR
        \/ /\ mode = "rules" /\ P = <<>> /\ Q = <<>> /\ left = {} /\ right = {} /\ pairs = {} /\ r1 \in Rules /\ r2 \in Rules
\* one left rule: any same right rule, or none when there is no such
Pair == \E a \in left : LET J == {j \in right : RuleSame(P[a], Q[j])} IN
   /\ left' = left \ {a} /\ UNCHANGED <<P, Q, r1, r2, mode>>
   /\ IF J = {} THEN UNCHANGED <<right, pairs>> ELSE \E j \in J : right' = right \ {j} /\ pairs' = pairs \cup { <<a, j>> }
Next == mode = "align" /\ Pair
Spec == Init /\ [][Next]_vars

GreedyIsMax == (mode = "align" /\ left = {}) => /\ Cardinality(pairs) = MaxMatch(P, Q)
                                               /\ (Cardinality(pairs) = Len(P) /\ Len(P) = Len(Q)) = ProgSame(P, Q)
Symmetric == mode = "rules" => (RuleSame(r1, r2) = RuleSame(r2, r1) /\ RuleSame(r1, r1))
BySignature == mode = "rules" => (RuleSame(r1, r2) => SameSig(r1, r2))
ReorderedSame == mode = "rules" => RuleSame(r1, [h |-> r1.h, b |-> [k \in 1..Len(r1.b) |-> r1.b[Len(r1.b) + 1 - k]]])
FoldSame == mode = "align" => LET S == [k |-> "int", n |-> 0] IN ProgSame(P, Q) => Agree(S, P, Q)
=============================================================================
