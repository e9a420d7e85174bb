------------------------------ MODULE AgendaOps ------------------------------
(***************************************************************************)
(* The agenda-based forward-chaining algorithm as an abstract machine.       *)
(*   chart    accumulated value of every item                                *)
(*   pending  value of every pending update (the agenda is its domain)       *)
(* One step takes any pending item off the agenda, adds its update to the    *)
(* chart and pushes, for every rule instance that uses the item, the part of *)
(* its value that was not in the chart before.                               *)
(***************************************************************************)
EXTENDS Dyna

Without(F, a) == [ t \in DOMAIN F \ {a} |-> F[t] ]

\* pointwise sum of two charts
Merge(S, A, B) ==
  LET full == [ t \in DOMAIN A \cup DOMAIN B |-> Plus(S, Val(S, A, t), Val(S, B, t)) ]
  IN [ t \in { x \in DOMAIN full : full[x] # Zero(S) } |-> full[t] ]

InitPending(S, P, D) == TP(S, P, EmptyChart, D)

\* the value that instance s of rule r gains when item a goes from old to new
\* by an update of dlt: occurrences left of the driver see old, right of it new
DeltaVal(S, r, s, a, old, dlt, C) ==
  LET at == AtomsOf(r.b)
      inst == [ i \in 1..Len(at) |-> Apply(s, at[i]) ]
      J == { i \in 1..Len(at) : inst[i] = a }
      drive(i) == Times(S, r.w,
                    ProdSeq(S, [ j \in 1..Len(at) |->
                       IF j = i THEN dlt
                       ELSE IF j < i /\ j \in J THEN old
                       ELSE Val(S, C, inst[j]) ]))
  IN SumSeq(S, [ k \in 1..Len(at) |-> IF k \in J THEN drive(k) ELSE Zero(S) ])

DeltaTP(S, P, C, D, a, old, dlt) ==
  Accumulate(S, UNION { { [h |-> InstHead(P[i], s), v |-> DeltaVal(S, P[i], s, a, old, dlt, C), i |-> i, s |-> s]
                          : s \in RuleSubs(P[i], C, D) } : i \in 1..Len(P) })

\* state after popping a; popping an item with nothing pending changes nothing
PopStep(S, P, D, chart, pending, a) ==
  LET dlt == Val(S, pending, a)
      old == Val(S, chart, a)
      new == Plus(S, old, dlt)
      rest == Without(pending, a)
  IN IF new = old THEN [chart |-> chart, pending |-> rest]
     ELSE LET C2 == (a :> new) @@ chart
          IN [chart |-> C2, pending |-> Merge(S, rest, DeltaTP(S, P, C2, D, a, old, dlt))]

\* chart + pending = one application of the rules to the chart
Accounted(S, P, D, chart, pending) == Merge(S, chart, pending) = TP(S, P, chart, D)
=============================================================================
