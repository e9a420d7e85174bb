-------------------------------- MODULE Bounded --------------------------------
(***************************************************************************)
(* C04.  Iterative engines stopped after k rounds, and solvers whose priority *)
(* function discards items.                                                  *)
(***************************************************************************)
EXTENDS Dyna, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

Doms(c) == { c.dom[k] : k \in 1..Len(c.dom) }

\* natural order: a + x = b for some x
LeqVal(S, a, b) == IF S.k = "min" THEN b <= a ELSE a <= b
NotPart(S, A, B) == { <<"more", t, A[t]>> : t \in { x \in DOMAIN A : x \notin DOMAIN B \/ ~LeqVal(S, A[x], B[x]) } }

\* the kept items: not listed as dropped, and not deeper than the limit
RECURSIVE Depth(_)
Depth(t) == IF t[1] = "?" \/ t[1] = "#" \/ Len(t) = 1 THEN 1
            ELSE 1 + Max({ Depth(t[n]) : n \in 2..Len(t) })
Keep(c, C) == [ t \in { x \in DOMAIN C : x \notin ToSet(c.drop) /\ (c.depth = 0 \/ Depth(x) <= c.depth) } |-> C[t] ]

RECURSIVE FixKeep(_, _, _)
FixKeep(c, C, n) ==
  IF n = 0 THEN (<<"!diverges">> :> One(c.sr)) @@ C
  ELSE LET N == Keep(c, TP(c.sr, c.prog, C, {})) IN IF N = C THEN C ELSE FixKeep(c, N, n - 1)

RECURSIVE Iterates(_, _, _)
\* the sequence TP^0, TP^1, ..., TP^n of iterates
Iterates(c, C, n) == IF n = 0 THEN <<C>> ELSE <<C>> \o Iterates(c, TP(c.sr, c.prog, C, Doms(c)), n - 1)

RunDiff(c, its, full, r) ==
  LET charts == [ k \in 1..Len(r.sols) |-> SolChart(c.sr, r.sols[k].sol, Doms(c)) ]
      one(k) ==
        LET x == r.sols[k]  C == charts[k] IN
        IF x.status # "ok" THEN { <<"status", x.status>> }
        ELSE CASE r.kind = "exact" -> ChartDiff(c.sr, its[x.k + 1], C)
               [] r.kind = "part" ->
                    (IF c.finite THEN NotPart(c.sr, C, full) ELSE {})
                    \cup { <<"unsupported", d>> : d \in NotPart(c.sr, C, TP(c.sr, c.prog, C, Doms(c))) }
               [] r.kind = "atleast" ->
                    NotPart(c.sr, C, full) \cup { <<"behind", d>> : d \in NotPart(c.sr, its[x.k + 1], C) }
      mono == { <<"shrinks from", r.sols[k].k, d>> :
                <<k, d>> \in UNION { { <<k, d>> : d \in NotPart(c.sr, charts[k], charts[k + 1]) } : k \in 1..(Len(r.sols) - 1) } }
      lim == IF r.limit = <<>> THEN {} ELSE { <<"limit", d>> : d \in ChartDiff(c.sr, full, SolChart(c.sr, r.limit[1], Doms(c))) }
  IN { <<r.name, d>> : d \in UNION { { <<r.sols[k].k, d>> : d \in one(k) } : k \in 1..Len(r.sols) } \cup mono \cup lim }

MaxK(c) == Max({0} \cup UNION { { c.runs[n].sols[k].k : k \in 1..Len(c.runs[n].sols) } : n \in 1..Len(c.runs) })

Verdict(c) ==
  IF c.mode = "rounds"
  THEN LET its == Iterates(c, EmptyChart, MaxK(c))
           full == IF c.finite THEN LFP(c.sr, c.prog, Doms(c)) ELSE EmptyChart
       IN UNION { RunDiff(c, its, full, c.runs[k]) : k \in 1..Len(c.runs) }
  ELSE LET want == FixKeep(c, EmptyChart, 40)
       IN UNION { { <<c.runs[k].name, d>> : d \in
                      IF c.runs[k].status # "ok" THEN { <<"status", c.runs[k].status>> }
                      ELSE ChartDiff(c.sr, want, SolChart(c.sr, c.runs[k].sol, {})) } : k \in 1..Len(c.runs) }

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
