------------------------------ MODULE Collections ------------------------------
(***************************************************************************)
(* C18.  The three collections of types, as functions of the *set* of terms  *)
(* inserted so far (each inserted term stands for the set of its instances,  *)
(* so its variables are its own):                                            *)
(*   duplicate-free : one representative of each class of variants           *)
(*   most general   : one representative of each maximal class               *)
(*   disjoint       : the least family of pairwise non-overlapping terms     *)
(*                    that covers every inserted term (Close); it is unique   *)
(*                    up to variants because every disjoint cover of a and b  *)
(*                    that overlap has a member above both.                   *)
(***************************************************************************)
EXTENDS Unify

Ov(a, b) == Unifies(a, b)

RECURSIVE Close(_)
Close(S) ==
  IF \E a, b \in S : a # b /\ Ov(a, b)
  THEN LET p == CHOOSE q \in S \X S : q[1] # q[2] /\ Ov(q[1], q[2])
       IN Close((S \ {p[1], p[2]}) \cup {Lgg(p[1], p[2])})
  ELSE S

Maximal(S) == {a \in S : \A b \in S : Covers(b, a) => Covers(a, b)}

\* the sequence of members m represents the classes of the set S, one each
Represents(m, S) ==
  /\ \A a \in S : \E k \in 1..Len(m) : Variant(m[k], a)
  /\ \A k \in 1..Len(m) : \E a \in S : Variant(m[k], a)
  /\ \A k, l \in 1..Len(m) : k # l => ~Variant(m[k], m[l])

Content(kind, S) == CASE kind = "nodups" -> S [] kind = "general" -> Maximal(S) [] kind = "disjoint" -> Close(S)

\* the answer of a query: which members (indices, from 0) does x fall under
Under(kind, m, x) == { k \in 0..Len(m) - 1 :
   CASE kind = "nodups" -> Variant(m[k + 1], x) [] kind = "general" -> Covers(m[k + 1], x) [] kind = "disjoint" -> Ov(m[k + 1], x) }

\* was x already represented by what has been inserted before
Redundant(kind, S, x) == CASE kind = "nodups" -> \E a \in S : Variant(a, x)
                           [] kind = "general" -> \E a \in S : Covers(a, x)
                           [] OTHER -> TRUE
=============================================================================
