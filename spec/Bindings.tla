-------------------------------- MODULE Bindings --------------------------------
(***************************************************************************)
(* C17.  A machine whose variables live in a heap and are bound in place.    *)
(* Enumerations are opened on top of each other; each proposes alternatives  *)
(* (sequences of equations) one at a time, binding in place and keeping a    *)
(* trail; it can end after any answer: exhausted, abandoned, or together     *)
(* with those inside it when an exception passes through.                    *)
(* The invariants say that what the consumer sees is exactly the answer it   *)
(* is consuming, composed with the answers it is nested in, and that ending  *)
(* restores the bindings there were at the opening.                          *)
(***************************************************************************)
EXTENDS Unify
CONSTANT MaxDepth

Names == {"x", "y", "z"}
X == VarT("x")  Y == VarT("y")  Z == VarT("z")
Ca == <<"a">>
F(t) == <<"f", t>>
G(t, u) == <<"g", t, u>>
Eqs == { << <<X, Y>> >>, << <<Y, Z>> >>, << <<X, Ca>> >>, << <<Z, F(X)>> >>, << <<Y, F(Z)>> >>, << <<X, F(Y)>> >>,
         << <<G(X, Y), G(F(Z), F(Ca))>> >>, << <<Z, Ca>>, <<Y, Z>> >>, << <<X, Y>>, <<Y, F(Ca)>> >> }
E1 == CHOOSE e \in Eqs : Len(e) = 1
Goals == { <<e>> : e \in Eqs } \cup { <<d, e>> : d \in { << <<X, Y>> >>, << <<Z, Ca>>, <<Y, Z>> >> }, e \in Eqs }

VARIABLES heap, frames
\* heap: the raw value of each variable, a variable that is its own value is unbound
\* frame: alts, k (alternatives used up), trail, base (ghost: what every variable stood for at the opening)
vars == <<heap, frames>>

Unbound(h, n) == h[n] = VarT(n)
RECURSIVE Deref(_, _)
Deref(h, t) == IF IsVar(t) THEN (IF Unbound(h, t[2]) THEN t ELSE Deref(h, h[t[2]]))
               ELSE IF t[1] = "#" \/ Len(t) = 1 THEN t ELSE [k \in 1..Len(t) |-> IF k = 1 THEN t[1] ELSE Deref(h, t[k])]
Env(h) == [n \in Names |-> Deref(h, VarT(n))]

\* unification in place: a set of at most one <<heap, trail>>
RECURSIVE Bind(_, _, _)
Bind(eqs, h, tr) ==
  IF eqs = <<>> THEN { <<h, tr>> } ELSE
  LET x == eqs[1][1]  y == eqs[1][2]  rest == Tail(eqs) IN
  IF x = y THEN Bind(rest, h, tr)
  ELSE IF IsVar(x) THEN
    IF ~Unbound(h, x[2]) THEN Bind(<< <<h[x[2]], y>> >> \o rest, h, tr)
    ELSE IF IsVar(y) /\ ~Unbound(h, y[2]) THEN Bind(<< <<x, h[y[2]]>> >> \o rest, h, tr)
    ELSE IF x[2] \in VarsOf(Deref(h, y)) THEN {}
    ELSE Bind(rest, [h EXCEPT ![x[2]] = y], Append(tr, <<x[2], h[x[2]]>>))
  ELSE IF IsVar(y) THEN Bind(<< <<y, x>> >> \o rest, h, tr)
  ELSE IF x[1] # y[1] \/ Len(x) # Len(y) THEN {}
  ELSE Bind([k \in 1..Len(x) - 1 |-> <<x[k + 1], y[k + 1]>>] \o rest, h, tr)

RECURSIVE Undo(_, _)
Undo(h, tr) == IF tr = <<>> THEN h ELSE Undo([h EXCEPT ![tr[Len(tr)][1]] = tr[Len(tr)][2]], SubSeq(tr, 1, Len(tr) - 1))

Init == heap = [n \in Names |-> VarT(n)] /\ frames = <<>>
Top == frames[Len(frames)]
Consuming == IF frames = <<>> THEN TRUE ELSE Top.k > 0
Open(g) == /\ Consuming /\ Len(frames) < MaxDepth
           /\ frames' = Append(frames, [alts |-> g, k |-> 0, trail |-> <<>>, base |-> Env(heap)])
           /\ UNCHANGED heap
Answer == /\ frames # <<>>
          /\ LET h == Undo(heap, Top.trail) IN
             \E j \in Top.k + 1..Len(Top.alts) :
                /\ \A i \in Top.k + 1..j - 1 : Bind(Top.alts[i], h, <<>>) = {}
                /\ \E r \in Bind(Top.alts[j], h, <<>>) :
                     heap' = r[1] /\ frames' = [frames EXCEPT ![Len(frames)] = [@ EXCEPT !.k = j, !.trail = r[2]]]
\* the n innermost enumerations end (n > 1: an exception passes through them)
End(n) == /\ Len(frames) >= n
          /\ heap' = FoldLeft(LAMBDA h, k : Undo(h, frames[Len(frames) + 1 - k].trail), heap, [k \in 1..n |-> k])
          /\ frames' = SubSeq(frames, 1, Len(frames) - n)
Next == (\E g \in Goals : Open(g)) \/ Answer \/ (\E n \in 1..MaxDepth : End(n))

\* what the consumer of frame k sees: its answer applied to what it started from
Sees(k) == LET f == frames[k] IN IF f.k = 0 THEN {f.base} ELSE
             LET e == f.alts[f.k] IN { [n \in Names |-> Apply(s, f.base[n])] : s \in UnifyAll([i \in 1..Len(e) |-> <<Apply(f.base, e[i][1]), Apply(f.base, e[i][2])>>], NoSub) }
Tuple(e) == <<"$t", e["x"], e["y"], e["z"]>>
AnswerExact == frames # <<>> => \E e \in Sees(Len(frames)) : Variant(Tuple(Env(heap)), Tuple(e))
Nested == \A k \in 2..Len(frames) : \E e \in Sees(k - 1) : Variant(Tuple(frames[k].base), Tuple(e))
Restored == frames = <<>> => \A n \in Names : Unbound(heap, n)
EndsClean == [][ \A k \in 1..Len(frames) : Len(frames') = k - 1 => Env(heap') = frames[k].base ]_vars
SkipsOnlyFailing == [][ (Len(frames') = Len(frames) /\ frames # <<>>) =>
   \A j \in Top.k + 1..frames'[Len(frames')].k - 1 :
      UnifyAll([i \in 1..Len(Top.alts[j]) |-> <<Apply(Top.base, Top.alts[j][i][1]), Apply(Top.base, Top.alts[j][i][2])>>], NoSub) = {} ]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
