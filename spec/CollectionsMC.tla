----------------------------- MODULE CollectionsMC -----------------------------
(* The incremental algorithms: insertion one term at a time, the overlapping
   members merged into the pending term in any order. *)
EXTENDS Collections
X == VarT("X")  Y == VarT("Y")
c == <<"c">>
U == { X, c, <<"f", X, Y>>, <<"f", X, X>>, <<"f", c, X>>, <<"f", X, c>>, <<"f", c, <<"#", 1>>>>,
       <<"f", <<"g", X>>, X>>, <<"f", <<"g", X>>, Y>>, <<"f", X, <<"g", Y>>>>, <<"g", X>>, <<"g", c>> }
CONSTANT Depth
VARIABLES kind, ins, mem, pend, red
vars == <<kind, ins, mem, pend, red>>
Kinds == {"nodups", "general", "disjoint"}
Init == kind \in Kinds /\ ins = {} /\ mem = <<>> /\ pend = <<>> /\ red = <<>>
DropAt(m, k) == SubSeq(m, 1, k - 1) \o SubSeq(m, k + 1, Len(m))
Begin == /\ pend = <<>> /\ Cardinality(ins) < Depth
         /\ \E x \in U : /\ pend' = <<x>> /\ ins' = ins \cup {x} /\ red' = <<Redundant(kind, ins, x)>>
         /\ UNCHANGED <<kind, mem>>
\* disjoint: merge with any overlapping member
Merge == /\ pend # <<>> /\ kind = "disjoint"
         /\ \E k \in 1..Len(mem) : /\ Ov(pend[1], mem[k]) /\ pend' = <<Lgg(pend[1], mem[k])>> /\ mem' = DropAt(mem, k)
         /\ UNCHANGED <<kind, ins, red>>
\* general: drop any member strictly below the pending term
Evict == /\ pend # <<>> /\ kind = "general"
         /\ \E k \in 1..Len(mem) : Covers(pend[1], mem[k]) /\ ~Covers(mem[k], pend[1]) /\ mem' = DropAt(mem, k)
         /\ UNCHANGED <<kind, ins, red, pend>>
Finish == /\ pend # <<>>
          /\ ~ENABLED Merge /\ ~ENABLED Evict
          /\ pend' = <<>> /\ red' = <<>>
          /\ mem' = IF kind # "disjoint" /\ Under(kind, mem, pend[1]) # {} THEN mem ELSE Append(mem, pend[1])
          /\ UNCHANGED <<kind, ins>>
Next == Begin \/ Merge \/ Evict \/ Finish

Denotes == pend = <<>> => Represents(mem, Content(kind, ins))
Disjoint == kind = "disjoint" => \A k, l \in 1..Len(mem) : k # l => ~Ov(mem[k], mem[l])
Antichain == kind = "general" => \A k, l \in 1..Len(mem) : k # l => ~Covers(mem[k], mem[l])
CoversAll == pend = <<>> /\ kind # "nodups" => \A x \in ins : Cardinality({k \in 1..Len(mem) : Covers(mem[k], x)}) >= 1
OneRoot == pend = <<>> /\ kind = "disjoint" => \A x \in ins : Cardinality(Under(kind, mem, x)) = 1
RedundantRight == pend # <<>> /\ kind # "disjoint" => red[1] = (Under(kind, mem, pend[1]) # {})
\* nothing is derived beyond need: every disjoint cover drawn from the universe lies above the result
Least == pend = <<>> /\ kind = "disjoint" =>
   \A P \in {Q \in SUBSET U : Cardinality(Q) <= 2} :
      (/\ \A a, b \in P : a # b => ~Ov(a, b)
       /\ \A x \in ins : \E a \in P : Covers(a, x))
      => \A k \in 1..Len(mem) : \E a \in P : Covers(a, mem[k])
=============================================================================
