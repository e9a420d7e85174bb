------------------------------ MODULE HistoryTrace ------------------------------
(***************************************************************************)
(* C03, implementation side: recorded histories of loads, runs, queries and   *)
(* interrupted runs of a real solver.  After a run the solver holds the       *)
(* fixpoint of the program with everything loaded so far (also after a query, *)
(* which runs the solver unless a run was interrupted); an interrupted solver *)
(* holds part of that fixpoint.                                              *)
(***************************************************************************)
EXTENDS Dyna, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

Doms(c) == { c.dom[k] : k \in 1..Len(c.dom) }

\* a is part of b: some chart added to a gives b (natural order of the semiring)
LeqVal(S, a, b) == IF S.k = "min" THEN b <= a ELSE a <= b
PartOf(S, A, B) == \A t \in DOMAIN A : t \in DOMAIN B /\ LeqVal(S, A[t], B[t])

Matching(C, q) == [ t \in { x \in DOMAIN C : Match(q, x, NoSub) # {} } |-> C[t] ]

RECURSIVE Walk(_, _, _, _, _)
\* facts: data loaded so far; lfp: fixpoint at the last completed run; intr: a run was interrupted
Walk(c, k, facts, lfp, intr) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET o == c.ops[k]
           full == LFP(c.sr, c.prog \o facts, Doms(c))
           got == SolChart(c.sr, o.sol, Doms(c))
       IN IF o.status # "ok" THEN { <<"op", k, o.op, "status", o.status>> }
          ELSE CASE o.op = "load" -> Walk(c, k + 1, facts \o o.facts, lfp, intr)
                 [] o.op = "run" ->
                      LET d == ChartDiff(c.sr, full, got) IN
                      IF d # {} THEN { <<"op", k, "run", x>> : x \in d } ELSE Walk(c, k + 1, facts, full, intr)
                 [] o.op = "interrupt" ->
                      IF ~PartOf(c.sr, got, full) THEN { <<"op", k, "interrupt", "chart is not part of the fixpoint">> }
                      ELSE Walk(c, k + 1, facts, lfp, TRUE)
                 [] o.op = "query" ->
                      IF intr THEN (IF PartOf(c.sr, got, full) THEN Walk(c, k + 1, facts, lfp, intr)
                                    ELSE { <<"op", k, "query", "answers are not part of the fixpoint">> })
                      ELSE LET d == ChartDiff(c.sr, Matching(full, o.q), got) IN
                           IF d # {} THEN { <<"op", k, "query", x>> : x \in d } ELSE Walk(c, k + 1, facts, full, intr)

Verdict(c) == Walk(c, 1, <<>>, EmptyChart, FALSE)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
