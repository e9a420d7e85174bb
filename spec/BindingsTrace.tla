------------------------------ MODULE BindingsTrace ------------------------------
(* Judges recorded histories of nested enumerations in the real code.
   case.mode = "solver" (builtins must be ready) or "program" (they are left delayed)
   case.ev: sequence of
     <<"open", goal, env>>   goal = sequence of subgoals
            <<"eq", s, t>> | <<"facts", q, heads>> | <<"is", x, rhs>> | <<"cmp", op, y, z>>
     <<"ans", env>>  an answer is being consumed
     <<"end", n, how, env>>  the n innermost enumerations ended; how is one of
            "exhausted", "dropped" (abandoned or passed through by an exception), "raised" (raised by itself)
     <<"pure", name, env>>   an operation that must not touch bindings
   env = the terms all tracked variables stand for; case.clean = the program's own rules are unbound in the end *)
EXTENDS Builtins, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
FAULT == << <<"$fault">> >>

\* the answers of a goal: a sequence of environments (or FAULT elements), in some order.
\* w = <<"$w", env tuple, subgoal terms...>>, so that substitutions reach everything
AsTerm(g) == CASE g[1] = "eq" -> <<"$eq", g[2], g[3]>> [] g[1] = "facts" -> g[2]
               [] g[1] = "is" -> <<"$is", g[2], g[3]>> [] g[1] = "cmp" -> <<"$cmp", g[3], g[4]>>
Alts(c, g, t, lab) ==   \* <<"ok", identity, equations>> or <<"fault", ...>>
  LET yes == { <<"ok", <<>>, <<>>>> }  fault == { <<"fault", <<>>, <<>>>> } IN
  CASE g[1] = "eq" -> { <<"ok", <<>>, << <<t[2], t[3]>> >> >> }
    [] g[1] = "facts" -> IF t[1] \in {"#", "'s"} THEN fault ELSE { <<"ok", <<k>>, << <<t, Tag(lab \o ToString(k) \o "_", g[3][k])>> >> >> : k \in 1..Len(g[3]) }
    [] g[1] = "is" -> LET x == t[2]  as == Tail(t[3])  op == t[3][1]  sols == Solve(op, x, as) IN
         IF sols = NONE THEN (IF c.mode = "solver" \/ IllTyped(op, x, as) \/ Early(op, x, as) # {} THEN fault ELSE yes)
         ELSE { <<"ok", e, e>> : e \in sols }
    [] g[1] = "cmp" -> IF IsGround(t[2]) /\ IsGround(t[3])
                       THEN (IF g[2] \in {"==", "!="} \/ Comparable(t[2], t[3]) THEN (IF Cmp(g[2], t[2], t[3]) THEN yes ELSE {}) ELSE fault)
                       ELSE IF c.mode = "solver" THEN fault ELSE yes
RECURSIVE Sols(_, _, _, _, _)
Sols(c, goal, k, w, lab) ==
  IF k > Len(goal) THEN <<w[2]>> ELSE
  LET A == SetToSeq(Alts(c, goal[k], w[k + 2], lab \o ToString(k) \o "_"))
  IN FoldLeft(LAMBDA acc, a : acc \o (IF a[1] = "fault" THEN FAULT ELSE
        LET m == UnifyAll(a[3], NoSub) IN IF m = {} THEN <<>> ELSE Sols(c, goal, k + 1, Apply(CHOOSE s \in m : TRUE, w), lab)), <<>>, A)
Answers(c, goal, env, lab) ==
  LET s == c.vars     \* names of the tracked variables; goals are written over them
      sub == [n \in {s[k] : k \in 1..Len(s)} |-> env[CHOOSE k \in 1..Len(s) : s[k] = n]]
      w == <<"$w", Tup(env)>> \o [k \in 1..Len(goal) |-> Apply(sub, AsTerm(goal[k]))]
  IN Sols(c, goal, 1, w, lab)

Faulty(A) == \E k \in 1..Len(A) : A[k] = FAULT[1]
NVar(S, t) == Cardinality({k \in 1..Len(S) : S[k][1] = "$tup" /\ Variant(S[k], t)})

\* stack of [want, got, base, cur, mode]
RECURSIVE Walk(_, _, _, _)
Walk(c, k, stack, bottom) ==
  IF k > Len(c.ev) THEN (IF stack = <<>> /\ c.clean THEN {} ELSE { <<"end", stack = <<>>, "rules unbound", c.clean>> })
  ELSE LET e == c.ev[k]
           n == Len(stack)
           cur == IF stack = <<>> THEN bottom ELSE stack[n].cur
       IN CASE e[1] = "open" ->
               IF e[3] # cur THEN { <<"event", k, e, "bindings differ from", cur>> }
               ELSE Walk(c, k + 1, Append(stack, [want |-> Answers(c, e[2], cur, "l" \o ToString(n) \o "_"), got |-> <<>>, base |-> cur, cur |-> cur]), bottom)
            [] e[1] = "pure" ->
               IF e[3] # cur THEN { <<"event", k, e, "changed bindings from", cur>> } ELSE Walk(c, k + 1, stack, bottom)
            [] e[1] = "ans" ->
               LET f == stack[n]  t == Tup(e[2])  got == Append(f.got, t) IN
               IF ~Faulty(f.want) /\ NVar(got, t) > NVar(f.want, t) THEN { <<"event", k, "answer", e[2], "given", f.base, "expected", f.want>> }
               ELSE Walk(c, k + 1, [stack EXCEPT ![n] = [f EXCEPT !.got = got, !.cur = e[2]]], bottom)
            [] e[1] = "end" ->
               LET f == stack[n + 1 - e[2]]  g == stack[n]
                   done == \A j \in 1..Len(g.want) : NVar(g.got, g.want[j]) = NVar(g.want, g.want[j])
               IN IF e[4] # f.base THEN { <<"event", k, "ended by", e[3], "bindings", e[4], "not restored to", f.base>> }
                  ELSE IF e[3] = "exhausted" /\ ~Faulty(g.want) /\ ~done THEN { <<"event", k, "missing answers", g.got, "expected", g.want>> }
                  ELSE IF e[3] = "raised" /\ ~Faulty(g.want) THEN { <<"event", k, "raised", g.base, "expected", g.want>> }
                  ELSE Walk(c, k + 1, SubSeq(stack, 1, n - e[2]), bottom)
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE Walk(c, 1, <<>>, c.init)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
