------------------------------ MODULE SearchTrace ------------------------------
(***************************************************************************)
(* C23: recorded runs of the program searches, judged by Search.tla.          *)
(*                                                                          *)
(* case.init    cost of the original program (program 0)                      *)
(* case.events  what was offered, in order: program, its cost (evaluated       *)
(*              again by the harness), the cost that the search recorded, and   *)
(*              the best program so far with its cost (best = -2: not observed) *)
(* case.final, case.finalof, case.best_cost   the report at the end             *)
(* case.top     the ranking of the evaluated programs                           *)
(* case.again   the costs of the programs offered by a second run               *)
(***************************************************************************)
EXTENDS Search, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

Costs(c) == [ k \in 1..Len(c.events) |-> c.events[k].cost ]

Seen(c, k) == {0} \cup { c.events[j].p : j \in 1..k }

StepErrs(c, k) ==
  LET e == c.events[k]  m == BestOf(c.init, SubSeq(Costs(c), 1, k)) IN
  (IF e.said = e.cost THEN {} ELSE { <<"recorded cost", k, e.said, e.cost>> })
  \cup (IF e.best = -2 THEN {}
        ELSE (IF e.best \in Seen(c, k) THEN {} ELSE { <<"best was never offered", k>> })
             \cup (IF e.bestcost = m THEN {} ELSE { <<"best so far", k, e.bestcost, m>> }))

TopErrs(c) ==
  IF c.kind # "beam" THEN {}
  ELSE (IF Len(c.top) = Len(c.events) /\ SameBag([ k \in 1..Len(c.top) |-> <<c.top[k].p, c.top[k].cost>> ], [ k \in 1..Len(c.events) |-> <<c.events[k].p, c.events[k].cost>> ])
        THEN {} ELSE { <<"ranking is not of the evaluated programs">> })
       \cup { <<"ranking", k>> : k \in { j \in 1..(Len(c.top) - 1) : Less(c.top[j + 1].cost, c.top[j].cost) } }
       \cup (IF Len(c.events) <= c.reps THEN {} ELSE { <<"more evaluations than asked for", Len(c.events), c.reps>> })

\* a beam search evaluates the original program too, so `init' changes nothing for it
Verdict(c) ==
  IF c.status # "ok" THEN { <<"status", c.status>> }
  ELSE UNION { StepErrs(c, k) : k \in 1..Len(c.events) }
       \cup TopErrs(c)
       \cup (IF c.finalof \in Seen(c, Len(c.events)) THEN {} ELSE { <<"reported program was never offered">> })
       \cup (IF c.final = c.best_cost THEN {} ELSE { <<"reported cost", c.best_cost, c.final>> })
       \cup (IF c.final = BestOf(c.init, Costs(c)) THEN {} ELSE { <<"not the best", c.final, BestOf(c.init, Costs(c))>> })
       \cup (IF c.pool = 0 THEN {} ELSE { <<"pool has programs that were not offered", c.pool>> })
       \cup (IF c.again = Costs(c) THEN {} ELSE { <<"another run differs", c.again, Costs(c)>> })

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
