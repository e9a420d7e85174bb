-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* C03, model side: batches of data arrive in any order, interleaved with     *)
(* runs of the agenda machine; the first run initialises the rules against    *)
(* whatever the chart holds.  Loading only queues updates.                    *)
(***************************************************************************)
EXTENDS AgendaOps, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, left, started, running, chart, pending
vars == <<k, left, started, running, chart, pending>>

S0 == Cases[k].sr
Prog == Cases[k].prog
Batch(j) == Cases[k].batches[j]
Loaded == UNION { { <<j, n>> : n \in 1..Len(Batch(j)) } : j \in (1..Len(Cases[k].batches)) \ left }
Facts == LET ids == SetToSeq(Loaded) IN [ m \in 1..Len(ids) |-> Batch(ids[m][1])[ids[m][2]] ]

Init == /\ k \in 1..Len(Cases)
        /\ left = 1..Len(Cases[k].batches)
        /\ started = FALSE /\ running = FALSE
        /\ chart = EmptyChart /\ pending = EmptyChart

Load(j) == /\ ~running
           /\ left' = left \ {j}
           /\ pending' = Merge(S0, pending, TP(S0, Batch(j), EmptyChart, {}))
           /\ UNCHANGED <<k, started, running, chart>>

Start == /\ ~running
         /\ running' = TRUE /\ started' = TRUE
         /\ pending' = IF started THEN pending ELSE Merge(S0, pending, TP(S0, Prog, chart, {}))
         /\ UNCHANGED <<k, left, chart>>

\* one pop of a running solver (the order within a run is C01's subject, so one
\* representative order is enough here; which one is left to the configuration)
Pop == /\ running /\ pending # EmptyChart
       /\ LET a == CHOOSE x \in DOMAIN pending : TRUE
              n == PopStep(S0, Prog, {}, chart, pending, a)
          IN chart' = n.chart /\ pending' = n.pending
       /\ UNCHANGED <<k, left, started, running>>

\* a run ends when nothing is pending, or is interrupted between two pops
Stop == /\ running
        /\ running' = FALSE
        /\ UNCHANGED <<k, left, started, chart, pending>>

Next == (\E j \in left : Load(j)) \/ Start \/ Pop \/ Stop

\* every update loaded so far is either in the chart or pending
AccountingInv == started => Merge(S0, chart, pending) = TP(S0, Prog \o Facts, chart, {})
\* a converged solver holds the fixpoint of everything loaded so far
ConvergedInv == (started /\ pending = EmptyChart) => chart = LFP(S0, Prog \o Facts, {})
=============================================================================
