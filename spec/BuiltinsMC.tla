------------------------------ MODULE BuiltinsMC -------------------------------
(* The answers demanded by Solve agree with the relations on every ground
   instance over a finite domain, in every mode; and resolving a set of delayed
   builtins in any order gives the same bindings. *)
EXTENDS Builtins
N(n) == <<"#", n, 1>>
Vals == { N(n) : n \in -2..3 } \cup { <<"'s">>, <<"'s", <<"a">>>>, <<"'s", <<"a">>, <<"b">>>>, TT, FF, <<"c">> }
X == VarT("X") Y == VarT("Y") Z == VarT("Z")
Ops2 == {"+", "-", "*", "/", "min", "max"} \cup CmpOps
Ops1 == {"-", "+", "abs", "!", "str", "int"}
Args == Vals \cup {X, Y, Z}
VARIABLES call, sub, done
vars == <<call, sub, done>>
\* (1) Solve against Rel
Init1 == /\ sub = NoSub /\ done = {}
         /\ \E op \in Ops1 \cup Ops2 : \E x \in Vals \cup {X}, y \in Vals \cup {X, Y}, z \in Vals \cup {Y, Z} :
              call = IF op \in Ops2 THEN [op |-> op, x |-> x, as |-> <<y, z>>] ELSE [op |-> "1" \o op, x |-> x, as |-> <<y>>]
Op1 == IF Len(call.as) = 1 THEN (CHOOSE o \in Ops1 : call.op = "1" \o o) ELSE call.op
Next1 == UNCHANGED vars
Asg == [VarsOf(Tup(<<call.x>> \o call.as)) -> Vals]
RightAnswers ==
  LET ans == Solve(Op1, call.x, call.as) IN
  ans # NONE /\ ~IllTyped(Op1, call.x, call.as) =>
    \A g \in Asg : (Rel(Op1, Apply(g, call.x), [k \in 1..Len(call.as) |-> Apply(g, call.as[k])])
                    <=> \E e \in ans : \A k \in 1..Len(e) : Apply(g, e[k][1]) = Apply(g, e[k][2]))
Distinct == LET ans == Solve(Op1, call.x, call.as) IN
  ans # NONE => \A g \in Asg : Cardinality({ e \in ans : \A k \in 1..Len(e) : Apply(g, e[k][1]) = Apply(g, e[k][2]) }) <= 1
IllTypedEmpty == IllTyped(Op1, call.x, call.as) /\ Op1 \notin {"min", "max"} \cup Orders =>
  \A g \in Asg : ~Rel(Op1, Apply(g, call.x), [k \in 1..Len(call.as) |-> Apply(g, call.as[k])])
NumOrVar(t) == IsVar(t) \/ IsN(t)
EarlySound == LET E == Early(Op1, call.x, call.as) IN
  \A ans \in E : \A g \in Asg :
     ((\A v \in DOMAIN g : IsN(g[v]) /\ ~IsZ(g[v])) /\ NumOrVar(call.x) /\ \A k \in 1..Len(call.as) : NumOrVar(call.as[k]))
     => (Rel(Op1, Apply(g, call.x), [k \in 1..Len(call.as) |-> Apply(g, call.as[k])])
           <=> \E e \in ans : \A k \in 1..Len(e) : Apply(g, e[k][1]) = Apply(g, e[k][2]))

\* (2) a conjunction of delayed builtins, resolved in any order
W == VarT("W")
Is(x, op, y, z) == [op |-> op, x |-> x, as |-> <<y, z>>]
Systems == { <<Is(X, "+", N(1), N(1)), Is(Y, "*", X, N(2)), Is(TT, "<", Y, W), Is(W, "-", Y, N(-1))>>,
             <<Is(W, "+", X, Y), Is(N(3), "+", Y, N(2)), Is(N(2), "*", X, Y)>>,
             <<Is(N(2), "*", X, Y), Is(Y, "+", W, W), Is(N(1), "+", W, N(0))>>,
             <<Is(TT, "<", X, Y), Is(X, "min", N(2), N(1)), Is(Y, "max", X, N(3)), Is(TT, "!=", X, Y)>>,
             <<Is(N(0), "*", X, Y), Is(X, "+", N(0), N(0)), Is(Y, "-", N(1), X)>> }
Init2 == /\ call \in Systems /\ sub = NoSub /\ done = {}
Inst(b) == [op |-> b.op, x |-> Apply(sub, b.x), as |-> [k \in 1..Len(b.as) |-> Apply(sub, b.as[k])]]
Step2 == \E k \in 1..Len(call) \ done :
   LET c == Inst(call[k])  ans == Solve(c.op, c.x, c.as) IN
   /\ ans # NONE /\ ans # {}
   /\ \E e \in ans : \E m \in UnifyAll(e, sub) : sub' = m
   /\ done' = done \cup {k} /\ UNCHANGED call
Next2 == Step2
\* whatever is bound is entailed, and a finished run satisfies every member
Final == done = 1..Len(call) => \A k \in 1..Len(call) : Rel(Inst(call[k]).op, Inst(call[k]).x, Inst(call[k]).as)
Entailed == \A g \in [VarsOf(Tup([k \in 1..Len(call) |-> Tup(<<call[k].x>> \o call[k].as)])) -> { N(n) : n \in -2..4 }] :
   (\A k \in 1..Len(call) : Rel(call[k].op, Apply(g, call[k].x), [j \in 1..Len(call[k].as) |-> Apply(g, call[k].as[j])]))
   => \A v \in DOMAIN sub : v \in DOMAIN g => Apply(g, sub[v]) = g[v]
=============================================================================
