------------------------------- MODULE SearchMC -------------------------------
(***************************************************************************)
(* C23: the two searches over every small graph of programs.  Program 1 is     *)
(* the original; each program has a cost, successors (the programs that one     *)
(* step of transformation makes of it) and may be unsafe (not equivalent to     *)
(* the original, which the measure detects).                                    *)
(*                                                                          *)
(* agenda   takes the cheapest waiting program or the one that has waited       *)
(*          longest, whichever it likes; an unsafe one is dropped               *)
(* beam     evaluates the successors of a level, one by one, and keeps the       *)
(*          Width cheapest; it stops after Reps evaluations.  (Its moves are     *)
(*          safe each on its own.)                                              *)
(***************************************************************************)
EXTENDS Search, SequencesExt

CONSTANTS N, Width, Reps

Progs == 1..N
CostSet == { <<0>>, <<1>>, <<1, 0>> }

VARIABLES mode, cost, succ, unsafe, wait, fifo, chart, best, log, todo, level, old

vars == <<mode, cost, succ, unsafe, wait, fifo, chart, best, log, todo, level, old>>

Init ==
  /\ mode \in {"agenda", "beam"}
  /\ cost \in [ Progs -> CostSet ]
  /\ succ \in { s \in [ Progs -> SUBSET Progs ] : \A a \in Progs : \A b \in s[a] : a < b }
  /\ unsafe \in (IF mode = "agenda" THEN SUBSET (2..N) ELSE {{}})
  /\ wait = (IF mode = "agenda" THEN {1} ELSE {})
  /\ fifo = (IF mode = "agenda" THEN <<1>> ELSE <<>>)
  /\ chart = {}
  /\ best = 1
  /\ log = (IF mode = "beam" THEN <<1>> ELSE <<>>)
  /\ todo = (IF mode = "beam" THEN SetToSortSeq(succ[1], <) ELSE <<>>)
  /\ level = <<>>
  /\ old = 1

Better(x) == IF Less(cost[x], cost[best]) THEN x ELSE best

Pop(x) ==
  /\ mode = "agenda"
  /\ wait # {}
  /\ x \in wait
  /\ x = fifo[1] \/ \A y \in wait : Leq(cost[x], cost[y])
  /\ LET new == IF x \in unsafe THEN {} ELSE succ[x] \ (wait \cup chart \cup unsafe \cup {x}) IN
     LET bad == IF x \in unsafe THEN {} ELSE (succ[x] \cap unsafe) \ wait IN
     /\ wait' = (wait \ {x}) \cup new \cup bad
     /\ fifo' = SelectSeq(fifo, LAMBDA y : y # x) \o SetToSortSeq(new \cup bad, <)
  /\ chart' = (IF x \in unsafe THEN chart ELSE chart \cup {x})
  /\ best' = (IF x \in unsafe THEN best ELSE Better(x))
  /\ old' = best
  /\ UNCHANGED <<mode, cost, succ, unsafe, log, todo, level>>

Evaluate ==
  /\ mode = "beam"
  /\ todo # <<>>
  /\ Len(log) < Reps
  /\ log' = Append(log, todo[1])
  /\ best' = Better(todo[1])
  /\ old' = best
  /\ level' = Append(level, todo[1])
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<mode, cost, succ, unsafe, wait, fifo, chart>>

\* the Width cheapest of a level, cheaper first, then the one evaluated first
RECURSIVE Cheapest(_, _)
Cheapest(l, k) ==
  IF l = <<>> \/ k = 0 THEN <<>>
  ELSE LET j == CHOOSE a \in 1..Len(l) : \A b \in 1..Len(l) : Less(cost[l[a]], cost[l[b]]) \/ (cost[l[a]] = cost[l[b]] /\ a <= b)
       IN <<l[j]>> \o Cheapest(SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l)), k - 1)

RECURSIVE Successors(_)
Successors(b) == IF b = <<>> THEN <<>> ELSE SetToSortSeq(succ[b[1]], <) \o Successors(Tail(b))

NextLevel ==
  /\ mode = "beam"
  /\ todo = <<>> /\ level # <<>>
  /\ todo' = Successors(Cheapest(level, Width))
  /\ level' = <<>>
  /\ old' = best
  /\ UNCHANGED <<mode, cost, succ, unsafe, wait, fifo, chart, best, log>>

Next == (\E x \in Progs : Pop(x)) \/ Evaluate \/ NextLevel

Offered == IF mode = "agenda" THEN chart ELSE Range(log)

TypeOK == wait = Range(fifo) /\ Len(fifo) = Cardinality(wait) /\ best \in Progs

BestIsMin == /\ best \in Offered \cup {1}
             /\ \A x \in Offered \cup {1} : Leq(cost[best], cost[x])
             /\ mode = "beam" => cost[best] = BestOf(cost[1], [ k \in 1..Len(log) |-> cost[log[k]] ])

Monotone == Leq(cost[best], cost[old])

OnlySafe == Offered \cap unsafe = {}

Budget == Len(log) <= Reps

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION { succ[x] \ unsafe : x \in S } IN IF T = S THEN S ELSE Reach(T)

\* a search that runs out of work has offered everything that can be reached (the beam only if it dropped nothing)
Exhaustive == /\ (mode = "agenda" /\ wait = {}) => Offered = Reach({1})
              /\ (mode = "beam" /\ todo = <<>> /\ level = <<>> /\ \A x \in Progs : Cardinality(succ[x]) <= 1) => Offered = Reach({1})
=============================================================================
