-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* C10: simple types and the items they stand for.                            *)
(*                                                                          *)
(* A simple type is [h, c]: a head and constraints on the head's variables.   *)
(* An item (which may have variables of its own: it then stands for an         *)
(* equation that holds whatever they are) belongs to the type when the head    *)
(* covers it and the constraints hold of what the head's variables match:      *)
(*    $bound(t)   t has no variables                                           *)
(*    $free(t)    t is a variable                                              *)
(* (binding states are judged as far as `insts' says: "none", "bound" or         *)
(* "strict")                                                                   *)
(*    x < y ...   the comparison holds                                         *)
(*    n(t)        n(t) is one of the facts about the type parameters           *)
(* The items of a program are found by unification, bottom up; an item is       *)
(* useful when it is an output or is used to derive a useful item.             *)
(***************************************************************************)
EXTENDS Unify

IsInst(c) == c[1] \in {"$bound", "$free"} /\ Len(c) = 2

ConHolds(k, facts, insts) ==
  IF k[1] = "$bound" /\ Len(k) = 2 THEN insts = "none" \/ IsGround(k[2])
  ELSE IF k[1] = "$free" /\ Len(k) = 2 THEN insts # "strict" \/ IsVar(k[2])
  ELSE IF IsBuiltin(k) THEN ~Ready(k, NoSub) \/ RunBuiltin(k, NoSub) # {}
  ELSE \E m \in facts : Covers(m, k)

Belongs(x, t, facts, insts) ==
  \E s \in Match(t.h, x, NoSub) : \A j \in 1..Len(t.c) : ConHolds(Apply(s, t.c[j]), facts, insts)

Typed(x, types, facts, insts) == \E j \in 1..Len(types) : Belongs(x, types[j], facts, insts)

---------------------------------------------------------------------------
\* items with variables, their names standardised

RECURSIVE VarSeq(_, _)
VarSeq(t, acc) ==
  IF t[1] = "?" THEN (IF \E j \in 1..Len(acc) : acc[j] = t[2] THEN acc ELSE Append(acc, t[2]))
  ELSE IF t[1] = "#" THEN acc
  ELSE LET f[j \in 1..Len(t)] == IF j = 1 THEN acc ELSE VarSeq(t[j], f[j - 1]) IN f[Len(t)]

Canon(t) ==
  LET vs == VarSeq(t, <<>>) IN
  Apply([ v \in { vs[j] : j \in 1..Len(vs) } |-> VarT("v" \o ToString(CHOOSE j \in 1..Len(vs) : vs[j] = v)) ], t)

\* ways for the body to be derived: substitutions
RECURSIVE Resolve(_, _, _, _)
Resolve(atoms, k, ss, I) ==
  IF k > Len(atoms) THEN ss
  ELSE Resolve(atoms, k + 1,
               UNION { UNION { UnifyAll(<< <<atoms[k], Tag(ToString(k) \o "_", x)>> >>, s) : x \in I } : s \in ss }, I)

\* builtins run when they can; one that cannot is left undecided
RECURSIVE RunReady(_, _)
RunReady(bs, ss) ==
  LET one(s) == LET R == { j \in 1..Len(bs) : Ready(bs[j], s) } IN
                IF R = {} THEN {s}
                ELSE LET j == CHOOSE j \in R : TRUE IN
                     RunReady([ q \in 1..(Len(bs) - 1) |-> IF q < j THEN bs[q] ELSE bs[q + 1] ], RunBuiltin(bs[j], s))
  IN UNION { one(s) : s \in ss }

BodySubs(r, I) == RunReady(BuiltinsOf(r.b), Resolve(AtomsOf(r.b), 1, {NoSub}, I))

ItemStep(P, I) == UNION { { Canon(Apply(s, P[k].h)) : s \in BodySubs(P[k], I) } : k \in 1..Len(P) }

\* the items of a program may be infinitely many: this many are enough
Enough == 25

RECURSIVE ItemsOf(_, _, _)
ItemsOf(P, I, n) == LET J == I \cup ItemStep(P, I) IN IF J = I \/ n = 0 THEN I ELSE IF Cardinality(J) > Enough THEN J ELSE ItemsOf(P, J, n - 1)

\* instances of items used to derive outputs
UsefulStep(P, I, U) ==
  UNION { UNION { UNION { UNION { { Canon(Apply(z, AtomsOf(P[k].b)[j])) : j \in 1..Len(AtomsOf(P[k].b)) }
                                  : z \in UnifyAll(<< <<P[k].h, Tag("u", u)>> >>, s) }
                          : u \in { u \in U : u[1] = P[k].h[1] \/ P[k].h[1] = "?" } }
                  : s \in BodySubs(P[k], I) } : k \in 1..Len(P) }
RECURSIVE UsefulOf(_, _, _, _)
UsefulOf(P, I, U, n) == LET V == U \cup UsefulStep(P, I, U) IN IF V = U \/ n = 0 THEN U ELSE IF Cardinality(V) > Enough THEN V ELSE UsefulOf(P, I, V, n - 1)

OutputsOf(outs, I) == UNION { UNION { { Canon(Apply(s, x)) : s \in MGU(x, Tag("o", outs[j])) } : j \in 1..Len(outs) } : x \in I }
=============================================================================
