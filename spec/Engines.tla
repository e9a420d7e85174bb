------------------------------- MODULE Engines -------------------------------
(***************************************************************************)
(* C02.  A recorded case is a program with data and the solutions the        *)
(* inference engines of dyna-pi reported for it.  Each must be the least     *)
(* fixpoint (Dyna!LFP), restricted to the functors of the program.           *)
(***************************************************************************)
EXTENDS Dyna, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

Doms(c) == { c.dom[k] : k \in 1..Len(c.dom) }
Fns(c) == { c.fns[k] : k \in 1..Len(c.fns) }

\* the items the engine has to report: all items of the given functors, and for a
\* goal-directed engine those matching the declared output pattern
Wanted(c, e, C) ==
  LET fns == { e.only[k] : k \in 1..Len(e.only) } \cup {"!flounder", "!diverges"}
      R == OnFns(C, fns)
  IN IF c.out = <<>> THEN R
     ELSE [ t \in { x \in DOMAIN R : x[1] \in {"!flounder", "!diverges"} \/ Match(c.out[1], x, NoSub) # {} } |-> R[t] ]

EngineDiff(c, want, e) ==
  IF e.status # "ok" THEN { <<"status", e.status>> }
  ELSE ChartDiff(c.sr, Wanted(c, e, want), Wanted(c, e, SolChart(c.sr, e.sol, Doms(c))))

\* "fixpoint" cases have a unique solution that no finite iteration reaches
FixDiff(c, e) ==
  IF e.status # "ok" THEN { <<"status", e.status>> }
  ELSE LET C == SolChart(c.sr, e.sol, Doms(c)) IN ChartDiff(c.sr, TP(c.sr, c.prog, C, Doms(c)), C)

Verdict(c) ==
  IF c.mode = "fixpoint"
  THEN UNION { { <<c.engines[k].name, d>> : d \in FixDiff(c, c.engines[k]) } : k \in 1..Len(c.engines) }
  ELSE LET want == LFP(c.sr, c.prog, Doms(c))
       IN UNION { { <<c.engines[k].name, d>> : d \in EngineDiff(c, want, c.engines[k]) }
                  : k \in 1..Len(c.engines) }

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
