------------------------------ MODULE AnswersTrace ------------------------------
(* Judges recorded answers.  Cases (all with S, status):
     "query"  P, dom, q, ans [h,w]            a query pattern put to a solver or a program
     "join"   C (facts [h,w]), qs, ans [t,w], total   a conjunction put to a solution
     "ground" P, sol [h,w], gs [i,h,b,w], inst [h,b,w]   groundings and the instantiated program
     "lookup" P (rules with constants in place), input (is the pattern an input), q, ans rules
     "chart"  ops: set t v | ask q ans [h,w]                                                    *)
EXTENDS Answers, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Doms(c) == { c.dom[k] : k \in 1..Len(c.dom) }
cl(n, ok) == IF ok THEN {} ELSE { <<n>> }
ChartOf(S, facts) == SolChart(S, facts, {})
QueryV(c) == LET full == LFP(c.S, c.P, Doms(c))  got == SolChart(c.S, c.ans, Doms(c)) IN
  cl("one entry for each answer", OneEach(c.S, c.q, c.ans)) \cup { <<"answers", d>> : d \in ChartDiff(c.S, Matching(full, c.q), got) }
JoinV(c) == LET C == ChartOf(c.S, c.C)  J == Joint(c.S, C, c.qs)
                want == SetSeq(J)  Same(x, y) == x.t = y.t /\ x.w = y.w IN
  cl("joint matches", BagEq(c.ans, want, Same)) \cup cl("sum over joint matches", c.total = TotalOf(c.S, J))
GT(g) == [i |-> g.i, t |-> RTerm([h |-> g.h, b |-> g.b]), w |-> g.w]
GroundV(c) ==
  LET C == LFP(c.S, c.P, {})  got == SolChart(c.S, c.sol, {})
      want == SetSeq(Groundings(c.S, c.P, C))
      \* instances of a rule with the same text and value are told apart by nothing
      gs == [k \in 1..Len(c.gs) |-> GT(c.gs[k])]
      Same(x, y) == x.i = y.i /\ x.t = y.t /\ x.w = y.w
      SameR(x, y) == x.t = y.t /\ x.w = y.w
      In == [k \in 1..Len(c.inst) |-> [t |-> RTerm(c.inst[k]), w |-> c.inst[k].w]]
      WantIn == [k \in 1..Len(want) |-> [t |-> want[k].t, w |-> c.P[want[k].i + 1].w]]
  IN { <<"solution", d>> : d \in ChartDiff(c.S, C, got) }
     \cup cl("groundings", BagEq(gs, want, Same))
     \cup cl("re-summing gives the solution", LET r == ReSum(c.S, c.gs) IN ChartDiff(c.S, C, r) = {})
     \cup cl("instantiated program", BagEq(In, WantIn, SameR))
     \cup { <<"instantiated program's solution", d>> : d \in ChartDiff(c.S, C, SolChart(c.S, c.again, {})) }
LookupV(c) == LET want == IF c.input THEN << [h |-> c.q, b |-> <<c.q>>] >> ELSE Instances(c.P, c.q) IN
  \* (constants that cancel may be reported as zero or left out)
  cl("look-up", LET w == ConstFold(c.S, want) IN Agree(c.S, c.ans, [k \in 1..Len(w) |-> [h |-> w[k].s.h, b |-> << <<"%", w[k].c>> >> \o w[k].s.b]])) \cup cl("instances of the pattern", \A k \in 1..Len(c.ans) : Covers(c.q, c.ans[k].h))
RECURSIVE ChartV(_, _, _)
ChartV(c, k, C) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET o == c.ops[k] IN
       IF o.op = "set" THEN ChartV(c, k + 1, (o.t :> o.v) @@ C)
       ELSE LET M == Matching(C, o.q)  want == SetSeq({ [h |-> t, w |-> M[t]] : t \in DOMAIN M })  Same(x, y) == x = y IN
            IF BagEq(o.ans, want, Same) THEN ChartV(c, k + 1, C) ELSE { <<"ask", k, o, "expected", want>> }
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
  CASE c.kind = "query" -> QueryV(c)
    [] c.kind = "join" -> JoinV(c)
    [] c.kind = "ground" -> GroundV(c)
    [] c.kind = "lookup" -> LookupV(c)
    [] c.kind = "chart" -> ChartV(c, 1, EmptyChart)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
