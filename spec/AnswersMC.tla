------------------------------- MODULE AnswersMC -------------------------------
(***************************************************************************)
(* The chart of the ground solver: items with values, plus an index for each  *)
(* query mode (set of bound positions) that is built when the mode is first    *)
(* asked and updated when a new item arrives.  Whatever the interleaving of     *)
(* updates and queries, asking through the index answers what scanning does.   *)
(***************************************************************************)
EXTENDS Answers
CONSTANT MaxSteps
Consts == {<<"a">>, <<"b">>}
Items2 == {<<"f", x, y>> : x \in Consts, y \in Consts} \cup {<<"f", x>> : x \in Consts} \cup {<<"g", x>> : x \in Consts}
Args == Consts \cup {VarT("X"), VarT("Y")}
Qs == {<<"f", x, y>> : x \in Args, y \in Args} \cup {<<"f", x>> : x \in Args} \cup {<<"g", VarT("X")>>, <<"h", VarT("X")>>}
ModeOf(q) == << q[1], Len(q), {k \in 2..Len(q) : IsGround(q[k])} >>
KeyOf(m, t) == [k \in m[3] |-> t[k]]
Fits(m, t) == t[1] = m[1] /\ Len(t) = m[2]

VARIABLES chart, index, steps
vars == <<chart, index, steps>>
Init == chart = EmptyChart /\ index = EmptyChart /\ steps = 0
Build(m) == { <<KeyOf(m, t), t>> : t \in { x \in DOMAIN chart : Fits(m, x) } }
Ask(q) == LET m == ModeOf(q) IN index' = (IF m \in DOMAIN index THEN index ELSE (m :> Build(m)) @@ index) /\ UNCHANGED chart
Set(t, v) == /\ chart' = (t :> v) @@ chart
             /\ index' = IF t \in DOMAIN chart THEN index
                         ELSE [m \in DOMAIN index |-> IF Fits(m, t) THEN index[m] \cup { <<KeyOf(m, t), t>> } ELSE index[m]]
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E q \in Qs : Ask(q)
           \/ \E t \in Items2, v \in {1, 2} : Set(t, v)
Spec == Init /\ [][Next]_vars
ViaIndex(q) == LET m == ModeOf(q) IN { e[2] : e \in { x \in index[m] : x[1] = KeyOf(m, q) /\ Match(q, x[2], NoSub) # {} } }
IndexExact == \A q \in Qs : ModeOf(q) \in DOMAIN index => ViaIndex(q) = DOMAIN Matching(chart, q)
IndexCurrent == \A m \in DOMAIN index : index[m] = Build(m)
=============================================================================
