-------------------------------- MODULE Builtins --------------------------------
(***************************************************************************)
(* C21.  The built-in relations.  Here a number is <<"#", num, den>> (a      *)
(* rational in lowest terms), a string is <<"'s", c1, ..., cn>> with each    *)
(* character a 0-ary term, a truth value is <<"'b:True">> or <<"'b:False">>. *)
(*                                                                          *)
(* Rel(op, x, as) is the relation on ground values.  Solve(op, x, as) is     *)
(* what a call must answer in the modes where enough arguments are known:    *)
(* a set of solutions (each a sequence of equations), or NONE when the mode  *)
(* does not determine the answer, in which case the call must be delayed.    *)
(***************************************************************************)
EXTENDS Unify

TT == <<"'b:True">>
FF == <<"'b:False">>
Bool(b) == IF b THEN TT ELSE FF
IsB(t) == t = TT \/ t = FF
IsN(t) == t[1] = "#"
IsS(t) == t[1] = "'s"
Num(q) == <<"#", q[1], q[2]>>
Qo(t) == <<t[2], t[3]>>
QAdd(a, b) == RatNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QNeg(a) == <<-a[1], a[2]>>
QMul(a, b) == RatNorm(a[1] * b[1], a[2] * b[2])
QInv(a) == RatNorm(a[2], a[1])
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
Q0 == <<0, 1>>
NAdd(x, y) == Num(QAdd(Qo(x), Qo(y)))
NSub(x, y) == Num(QAdd(Qo(x), QNeg(Qo(y))))
NMul(x, y) == Num(QMul(Qo(x), Qo(y)))
NDiv(x, y) == Num(QMul(Qo(x), QInv(Qo(y))))
NNeg(x) == Num(QNeg(Qo(x)))
IsZ(x) == Qo(x) = Q0
NLt(x, y) == QLt(Qo(x), Qo(y))
NAbs(x) == IF NLt(x, Num(Q0)) THEN NNeg(x) ELSE x
Cat(x, y) == x \o Tail(y)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<"'s">> ELSE Cat(x, Rep(x, n - 1))
Pre(x, k) == SubSeq(x, 1, k + 1)
Post(x, k) == <<"'s">> \o SubSeq(x, k + 2, Len(x))

SLt(x, y) == \* lexicographic order of strings over the characters a < b < c
  LET o(c) == CASE c = <<"a">> -> 1 [] c = <<"b">> -> 2 [] OTHER -> 3
      n == Min2(Len(x), Len(y))
      d == {k \in 2..n : x[k] # y[k]}
  IN IF d = {} THEN Len(x) < Len(y) ELSE LET k == CHOOSE k \in d : \A j \in d : k <= j IN o(x[k]) < o(y[k])

Orders == {"<", "<=", ">", ">="}
CmpOps == Orders \cup {"==", "!="}
Comparable(y, z) == (IsN(y) /\ IsN(z)) \/ (IsS(y) /\ IsS(z))
Less(y, z) == IF IsN(y) THEN NLt(y, z) ELSE SLt(y, z)
Cmp(op, y, z) ==
  CASE op = "==" -> y = z [] op = "!=" -> y # z
    [] op = "<" -> Less(y, z) [] op = ">" -> Less(z, y) [] op = "<=" -> ~Less(z, y) [] op = ">=" -> ~Less(y, z)

(*                the relations on ground values                            *)
RECURSIVE Rel(_, _, _)
Rel(op, x, as) ==
  LET y == as[1]  z == IF Len(as) > 1 THEN as[2] ELSE <<"none">> IN
  IF Len(as) = 1 THEN
    CASE op = "-" -> IsN(x) /\ IsN(y) /\ x = NNeg(y)
      [] op = "+" -> IsN(y) /\ x = y
      [] op = "abs" -> IsN(y) /\ x = NAbs(y)
      [] op = "!" -> (x = TT /\ y = FF) \/ (x = FF /\ y = TT)
      [] op = "str" -> x = Bool(IsS(y))
      [] op = "int" -> x = Bool(IsN(y) /\ y[3] = 1)
  ELSE IF Len(as) = 2 THEN
    CASE op = "+" -> \/ IsN(x) /\ IsN(y) /\ IsN(z) /\ x = NAdd(y, z)
                     \/ IsS(x) /\ IsS(y) /\ IsS(z) /\ x = Cat(y, z)
      [] op = "*" -> \/ IsN(x) /\ IsN(y) /\ IsN(z) /\ x = NMul(y, z)
                     \/ IsS(x) /\ IsS(y) /\ IsN(z) /\ z[3] = 1 /\ x = Rep(y, z[2])
      [] op = "-" -> Rel("+", y, <<x, z>>)
      [] op = "/" -> IsN(x) /\ IsN(y) /\ IsN(z) /\ ~IsZ(z) /\ Rel("*", y, <<x, z>>)
      [] op \in Orders -> Comparable(y, z) /\ x = Bool(Cmp(op, y, z))
      [] op \in {"==", "!="} -> x = Bool(Cmp(op, y, z))
      [] op = "min" -> Comparable(y, z) /\ x = (IF Less(z, y) THEN z ELSE y)
      [] op = "max" -> Comparable(y, z) /\ x = (IF Less(y, z) THEN z ELSE y)
  ELSE op = "range" /\ x = TT /\ IsN(y) /\ IsN(z) /\ IsN(as[3]) /\ y[3] = 1 /\ ~NLt(y, z) /\ NLt(y, as[3])

(*                what a call must answer                                   *)
NONE == { << << <<"none">>, <<"none">> >> >> }
Det(eqs) == {eqs}
K(t) == ~IsVar(t)

RECURSIVE Solve(_, _, _)
Solve(op, x, as) ==
  LET y == as[1]  z == IF Len(as) > 1 THEN as[2] ELSE <<"none">> IN
  IF Len(as) = 1 THEN
    CASE op \in {"-", "+"} -> IF IsN(y) THEN Det(<< <<x, IF op = "-" THEN NNeg(y) ELSE y>> >>)
                              ELSE IF IsN(x) THEN Det(<< <<y, IF op = "-" THEN NNeg(x) ELSE x>> >>) ELSE NONE
      [] op = "abs" -> IF IsN(y) THEN Det(<< <<x, NAbs(y)>> >>)
                       ELSE IF IsN(x) THEN (IF NLt(x, Num(Q0)) THEN {} ELSE { << <<y, v>> >> : v \in {x, NNeg(x)} })
                       ELSE NONE
      [] op = "!" -> IF IsB(y) THEN Det(<< <<x, Bool(y = FF)>> >>) ELSE IF IsB(x) /\ IsVar(y) THEN Det(<< <<y, Bool(x = FF)>> >>) ELSE NONE
      [] op = "str" -> IF K(y) THEN Det(<< <<x, Bool(IsS(y))>> >>) ELSE NONE
      [] op = "int" -> IF K(y) THEN Det(<< <<x, Bool(IsN(y) /\ y[3] = 1)>> >>) ELSE NONE
  ELSE IF Len(as) = 2 THEN
    CASE op = "+" ->
           IF IsN(y) /\ IsN(z) THEN Det(<< <<x, NAdd(y, z)>> >>)
           ELSE IF IsS(y) /\ IsS(z) THEN Det(<< <<x, Cat(y, z)>> >>)
           ELSE IF IsS(x) THEN { << <<y, Pre(x, k)>>, <<z, Post(x, k)>> >> : k \in 0..Len(x) - 1 }
           ELSE IF IsN(x) /\ IsN(y) THEN Det(<< <<z, NSub(x, y)>> >>)
           ELSE IF IsN(x) /\ IsN(z) THEN Det(<< <<y, NSub(x, z)>> >>)
           ELSE NONE
      [] op = "*" ->
           IF IsN(y) /\ IsN(z) THEN Det(<< <<x, NMul(y, z)>> >>)
           ELSE IF IsS(y) /\ IsN(z) /\ z[3] = 1 THEN Det(<< <<x, Rep(y, z[2])>> >>)
           ELSE IF IsN(x) /\ IsN(y) THEN (IF ~IsZ(y) THEN Det(<< <<z, NDiv(x, y)>> >>) ELSE IF IsZ(x) THEN NONE ELSE {})
           ELSE IF IsN(x) /\ IsN(z) THEN (IF ~IsZ(z) THEN Det(<< <<y, NDiv(x, z)>> >>) ELSE IF IsZ(x) THEN NONE ELSE {})
           ELSE NONE
      [] op = "-" -> Solve("+", y, <<x, z>>)
      [] op = "/" ->
           IF IsN(z) THEN (IF IsZ(z) THEN {} ELSE IF IsN(y) THEN Det(<< <<x, NDiv(y, z)>> >>)
                                                 ELSE IF IsN(x) THEN Det(<< <<y, NMul(x, z)>> >>) ELSE NONE)
           ELSE IF IsN(x) /\ IsN(y) THEN (IF IsZ(x) THEN (IF IsZ(y) THEN NONE ELSE {}) ELSE IF IsZ(y) THEN {} ELSE Det(<< <<z, NDiv(y, x)>> >>))
           ELSE NONE
      [] op \in {"==", "!="} ->
           IF IsGround(y) /\ IsGround(z) THEN Det(<< <<x, Bool((op = "==") = (y = z))>> >>) ELSE NONE
      [] op \in Orders -> IF Comparable(y, z) THEN Det(<< <<x, Bool(Cmp(op, y, z))>> >>) ELSE NONE
      [] op = "min" -> IF Comparable(y, z) THEN Det(<< <<x, IF Less(z, y) THEN z ELSE y>> >>) ELSE NONE
      [] op = "max" -> IF Comparable(y, z) THEN Det(<< <<x, IF Less(y, z) THEN z ELSE y>> >>) ELSE NONE
  ELSE IF op = "range" /\ x = TT /\ IsN(z) /\ IsN(as[3]) /\ z[3] = 1 /\ as[3][3] = 1
       THEN { << <<y, IntN>> >> : IntN \in { <<"#", n, 1>> : n \in z[2]..as[3][2] - 1 } } ELSE NONE

\* modes in which an implementation may answer early: adding 0, multiplying by 1,
\* and generic facts about terms (identical or never-equal sides)
Early(op, x, as) ==
  LET y == as[1]  z == IF Len(as) > 1 THEN as[2] ELSE <<"none">> IN
  IF Len(as) # 2 THEN {}
  ELSE CASE op = "+" -> (IF IsN(y) /\ IsZ(y) THEN { Det(<< <<x, z>> >>) } ELSE {}) \cup (IF IsN(z) /\ IsZ(z) THEN { Det(<< <<x, y>> >>) } ELSE {})
         [] op = "-" -> (IF IsN(x) /\ IsZ(x) THEN { Det(<< <<y, z>> >>) } ELSE {}) \cup (IF IsN(z) /\ IsZ(z) THEN { Det(<< <<y, x>> >>) } ELSE {})
         [] op = "*" -> (IF IsN(y) /\ Qo(y) = <<1, 1>> THEN { Det(<< <<x, z>> >>) } ELSE {}) \cup (IF IsN(z) /\ Qo(z) = <<1, 1>> THEN { Det(<< <<x, y>> >>) } ELSE {})
         [] op = "/" -> (IF IsN(z) /\ Qo(z) = <<1, 1>> THEN { Det(<< <<y, x>> >>) } ELSE {}) \cup (IF IsN(x) /\ Qo(x) = <<1, 1>> /\ ~(IsN(y) /\ IsZ(y)) /\ ~(IsN(z) /\ IsZ(z)) /\ (K(y) \/ K(z)) THEN { Det(<< <<y, z>> >>) } ELSE {})
         [] op \in {"==", "!="} -> IF y = z \/ MGU(y, z) = {} THEN { Det(<< <<x, Bool((op = "==") = (y = z))>> >>) } ELSE {}
         [] OTHER -> {}

\* no instance of the arguments can be related: some argument has a type the operator lacks
BadFor(op, t) == K(t) /\ CASE op \in {"+", "-", "*", "/"} -> ~IsN(t) /\ ~IsS(t) [] op = "abs" -> ~IsN(t) [] op = "!" -> ~IsB(t) [] OTHER -> FALSE
Mixed(ts) == \E a, b \in ts : IsN(a) /\ IsS(b)
IllTyped(op, x, as) ==
  LET ts == {as[k] : k \in 1..Len(as)} IN
  CASE op \in {"+", "-"} /\ Len(as) = 2 -> Mixed(ts \cup {x}) \/ \E t \in ts \cup {x} : BadFor(op, t)
    [] op \in {"*", "/"} -> \/ \E t \in ts \cup {x} : BadFor(op, t)
                            \/ (IF op = "*" THEN IsS(as[2]) \/ (IsS(as[1]) /\ IsN(x)) \/ (IsN(as[1]) /\ IsS(x)) \/ (IsS(as[1]) /\ IsN(as[2]) /\ as[2][3] # 1)
                                ELSE IsS(as[2]) \/ IsS(as[1]) \/ IsS(x))
    [] op \in {"-", "+"} -> \E t \in ts \cup {x} : K(t) /\ ~IsN(t)
    [] op = "abs" -> \E t \in ts \cup {x} : K(t) /\ ~IsN(t)
    [] op = "!" -> \E t \in ts \cup {x} : K(t) /\ ~IsB(t)
    [] op \in Orders \cup {"min", "max"} -> (\A t \in ts : IsGround(t)) /\ ~Comparable(as[1], as[2])      \* order of unlike values: unspecified
    [] op = "range" -> x # TT \/ \E t \in ts : K(t) /\ ~(IsN(t) /\ t[3] = 1)
    [] OTHER -> FALSE

\* does a builtin subgoal hold under the ground assignment s
Holds(b, s) ==
  LET g == Apply(s, b) IN
  CASE g[1] = "=" -> g[2] = g[3]
    [] g[1] = "$not_matches" -> Match(b[2], g[3], NoSub) = {}
    [] g[1] = "is" -> Rel(g[3][1], g[2], Tail(g[3]))
    [] OTHER -> (g[1] \in {"==", "!="} \/ Comparable(g[2], g[3])) /\ Cmp(g[1], g[2], g[3])
=============================================================================
