------------------------------ MODULE AgendaTrace ------------------------------
(***************************************************************************)
(* C01, implementation side: a recorded run of a dyna-pi solver, one step    *)
(* per agenda pop, is a behaviour of the agenda machine.                     *)
(*                                                                          *)
(* case.mode = "machine" (ground programs): the popped items drive the        *)
(*   abstract machine; the real chart must equal the machine's chart after    *)
(*   every pop and no item the machine has pending may be missing from the    *)
(*   real agenda.                                                            *)
(* case.mode = "account" (any program): entries may be non-ground and stand   *)
(*   for their instances over case.dom; chart plus recorded pending updates   *)
(*   must equal one application of the rules to the chart after every pop.    *)
(* In both, the run ends with the least fixpoint.                            *)
(***************************************************************************)
EXTENDS AgendaOps, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

Doms(c) == { c.dom[k] : k \in 1..Len(c.dom) }
ToSetSeq(q) == { q[k] : k \in 1..Len(q) }

RECURSIVE Walk(_, _, _, _)
\* steps k.. of the trace from machine state (chart, pending)
Walk(c, k, chart, pending) ==
  IF k > Len(c.steps) THEN
     (IF c.complete /\ pending # EmptyChart THEN { <<"agenda empty but the machine has pending", DOMAIN pending>> } ELSE {})
     \cup (IF c.complete THEN { <<"final", d>> : d \in ChartDiff(c.sr, LFP(c.sr, c.prog, {}), chart) } ELSE {})
  ELSE LET e == c.steps[k]
           n == PopStep(c.sr, c.prog, {}, chart, pending, e.pop)
           d == ChartDiff(c.sr, n.chart, SolChart(c.sr, e.chart, {}))
           lost == DOMAIN n.pending \ ToSetSeq(e.agenda)
       IN IF d # {} THEN { <<"step", k, x>> : x \in d }
          ELSE IF lost # {} THEN { <<"step", k, "lost pending", lost>> }
          ELSE Walk(c, k + 1, n.chart, n.pending)

MachineDiff(c) ==
  LET p0 == InitPending(c.sr, c.prog, {})
      lost == DOMAIN p0 \ ToSetSeq(c.agenda0)
  IN IF lost # {} THEN { <<"initial", "lost pending", lost>> } ELSE Walk(c, 1, EmptyChart, p0)

AccountDiff(c) ==
  LET D == Doms(c)
      bad == { k \in 1..Len(c.steps) :
                 ~Accounted(c.sr, c.prog, D, SolChart(c.sr, c.steps[k].chart, D), SolChart(c.sr, c.steps[k].pending, D)) }
      m == CHOOSE k \in bad : \A j \in bad : k <= j
  IN IF bad # {} THEN
        LET C == SolChart(c.sr, c.steps[m].chart, D)
        IN { <<"step", m, "accounting", d>> : d \in
               ChartDiff(c.sr, TP(c.sr, c.prog, C, D), Merge(c.sr, C, SolChart(c.sr, c.steps[m].pending, D))) }
     ELSE IF c.complete /\ c.steps # <<>>
     THEN { <<"final", d>> : d \in ChartDiff(c.sr, LFP(c.sr, c.prog, D), SolChart(c.sr, c.steps[Len(c.steps)].chart, D)) }
     ELSE {}

\* runs observed only at the end (the library's own agendas and priorities)
FinalDiff(c) ==
  { <<"final", d>> : d \in ChartDiff(c.sr, LFP(c.sr, c.prog, Doms(c)), SolChart(c.sr, c.final, Doms(c))) }

Verdict(c) ==
  IF c.status # "ok" THEN { <<"status", c.status>> }
  ELSE CASE c.mode = "machine" -> MachineDiff(c)
         [] c.mode = "account" -> AccountDiff(c)
         [] c.mode = "final" -> FinalDiff(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
