-------------------------------- MODULE Agenda --------------------------------
(***************************************************************************)
(* C01, model side: for every program of the configuration and every order   *)
(* of popping, every contribution is accounted for and the empty agenda      *)
(* leaves the least fixpoint.                                                *)
(***************************************************************************)
EXTENDS AgendaOps, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Lfps == [ k \in 1..Len(Cases) |-> LFP(Cases[k].sr, Cases[k].prog, {}) ]

VARIABLES k, chart, pending
vars == <<k, chart, pending>>

Init == /\ k \in 1..Len(Cases)
        /\ chart = EmptyChart
        /\ pending = InitPending(Cases[k].sr, Cases[k].prog, {})

Pop(a) == LET n == PopStep(Cases[k].sr, Cases[k].prog, {}, chart, pending, a)
          IN chart' = n.chart /\ pending' = n.pending /\ k' = k

Next == \E a \in DOMAIN pending : Pop(a)

AccountingInv == Accounted(Cases[k].sr, Cases[k].prog, {}, chart, pending)
FixpointInv == pending = EmptyChart => chart = Lfps[k]
\* values never decrease, so every behaviour is finite (the semiring is)
Monotone == [][\A t \in DOMAIN chart : t \in DOMAIN chart' /\ Plus(Cases[k].sr, chart[t], chart'[t]) # Zero(Cases[k].sr)]_vars
=============================================================================
