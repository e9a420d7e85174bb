---------------------------- MODULE DerivationsMC ----------------------------
(***************************************************************************)
(* Two ways of enumerating derivations, on all small programs of a family:   *)
(* an agenda of single derivations in any order (the driver takes each       *)
(* position of a body in turn, with derivations taken before it or itself to *)
(* its left, and only those taken before it to its right), and the same by   *)
(* generations.  Both list each derivation exactly once.                     *)
(***************************************************************************)
EXTENDS Derivations
CONSTANTS Rules, Many      \* rules besides the facts; derivations of the programs whose every agenda order is explored
VARIABLES P, mode, new, old, change, dup, t, all

A0(x) == <<x>>
c1 == <<"c", IntT(1)>>
c2 == <<"c", IntT(2)>>
cx == <<"c", VarT("X")>>
cy == <<"c", VarT("Y")>>
bx == <<"b", VarT("X")>>
ax == <<"a", VarT("X")>>
g  == <<"g">>
RuleR(h, b) == [h |-> h, b |-> b]
Facts == << RuleR(c1, <<WeightT(2)>>), RuleR(c2, <<>>) >>
Pool == { RuleR(bx, <<cx>>), RuleR(bx, <<cx, cy>>), RuleR(bx, <<cx, cx>>), RuleR(<<"b", IntT(1)>>, <<c2, WeightT(3)>>),
          RuleR(ax, <<bx, cx>>), RuleR(ax, <<cy, bx, WeightT(2)>>), RuleR(ax, <<bx, bx>>),
          RuleR(g, <<ax, bx>>), RuleR(g, <<bx, <<"b", VarT("Y")>>>>), RuleR(<<"b", VarT("W")>>, <<cx>>), RuleR(g, <<cx, bx, cx>>) }

\* all ways of using rule i with a derivation from D at position k, from L before it and R after it
RECURSIVE Around(_, _, _, _, _, _, _)
Around(body, j, k, L, D, R, parts) ==
  IF j > Len(body) \/ parts = {} THEN parts
  ELSE LET x == body[j]  from == IF j < k THEN L ELSE IF j = k THEN D ELSE R IN
       Around(body, j + 1, k, L, D, R,
         IF x[1] = "#" THEN (IF j = k THEN {} ELSE { <<p[1], Append(p[2], x)>> : p \in parts })
         ELSE UNION { UNION { LET e == Tag("k" \o ToString(j) \o "_", d) IN
                              { <<s, Append(p[2], e)>> : s \in UnifyAll(<< <<x, Concl(e)>> >>, p[1]) } : d \in from } : p \in parts })
Uses(i, k, L, D, R) == { Canon(Apply(m[1], Tree(i, P[i].h, m[2]))) : m \in Around(P[i].b, 1, k, L, D, R, { <<NoSub, <<>>>> }) }
\* with the position, so that what is found twice shows
Found(L, D, R) == UNION { UNION { { <<k, d>> : d \in Uses(i, k, L, D, R) } : k \in 1..Len(P[i].b) } : i \in 1..Len(P) }

Init == /\ P \in { Facts \o SetToSeq(X) : X \in kSubset(Rules, Pool) } \cup { Facts \o <<r, r>> : r \in Pool }
        /\ all = Trees(P, 4, 1)
        /\ mode \in {"generations"} \cup (IF Cardinality(all) <= Many THEN {"agenda"} ELSE {})
        /\ new = {} /\ old = {} /\ dup = FALSE /\ t = 0
        /\ change = Step(P, {}, 1)

Agenda(d) ==
  LET n == new \cup {d}
      f == Found(n, {d}, old)
      ds == { x[2] : x \in f }
  IN /\ new' = n /\ old' = n
     /\ change' = (change \ {d}) \cup ds
     /\ dup' = (dup \/ Cardinality(f) # Cardinality(ds) \/ ds \cap (n \cup change) # {})
     /\ UNCHANGED <<P, mode, t, all>>
Generation ==
  LET n == old \cup change
      f == Found(n, change, old)
      ds == { x[2] : x \in f }
  IN /\ change # {}
     /\ new' = n /\ old' = n /\ change' = ds
     /\ dup' = (dup \/ Cardinality(f) # Cardinality(ds) \/ ds \cap n # {})
     /\ t' = t + 1
     /\ UNCHANGED <<P, mode, all>>
Next == IF mode = "agenda" THEN \E d \in change : Agenda(d) ELSE Generation

TypeOK == new \subseteq all /\ change \subseteq all
Distinct == ~dup
Sound == \A d \in change : Valid(P, d, 1) /\ Canon(d) = d
Complete == change = {} => new = all
ByHeight == mode = "generations" => new = Trees(P, t, 1)
=============================================================================
