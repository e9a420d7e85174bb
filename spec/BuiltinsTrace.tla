----------------------------- MODULE BuiltinsTrace -----------------------------
(* Judges recorded calls of builtins and recorded resolutions of delayed ones.
   case.kind = "call": op, x, as; out = <<"delay">> | <<"err", text>> | <<"ans", answers>>, each
        answer being the arguments <<x>> \o as as they were bound at that moment
   case.kind = "gen" : the first answers of a call with infinitely many
   case.kind = "sub" : a builtin subgoal b (comparison, equality, non-matching)
   case.kind = "sys" : program rules P (facts and rules), the resulting rules R for the heads of
        functor f, both sequences of [h, b, w]; D the domain of values compared;
        resolved = TRUE when nothing decidable may be left in R                 *)
EXTENDS Builtins, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st

Bad(b, txt) == IF b THEN {} ELSE {txt}

\* answers are the given solutions, each once (up to names of variables)
Exactly(ans, sols, whole) ==
  LET want == { Apply(CHOOSE m \in UnifyAll(e, NoSub) : TRUE, whole) : e \in { e \in sols : UnifyAll(e, NoSub) # {} } }
      n == Cardinality({ e \in sols : UnifyAll(e, NoSub) # {} })
  IN /\ Len(ans) = n
     /\ \A k \in 1..Len(ans) : \E t \in want : Variant(Tup(ans[k]), t)
     /\ \A t \in want : \E k \in 1..Len(ans) : Variant(Tup(ans[k]), t)

Judge(c, sols, early, ill, whole) ==
  CASE c.out[1] = "delay" -> Bad(sols = NONE \/ ill \/ (sols = {} /\ early = {}) , <<"delayed although determined", whole>>)
    [] c.out[1] = "err" -> Bad(ill, <<"error", c.out[2], whole>>)
    [] OTHER -> Bad(\/ sols # NONE /\ Exactly(c.out[2], sols, whole)
                    \/ \E E \in early : sols = NONE /\ Exactly(c.out[2], E, whole)
                    \/ ill /\ c.out[2] = <<>>
                    \/ ill /\ c.kind = "call" /\ c.op \in Orders \cup {"min", "max"},
                    <<"answers", c.out[2], "for", whole, "expected", sols>>)

CallVerdict(c) ==
  Judge(c, Solve(c.op, c.x, c.as), Early(c.op, c.x, c.as), IllTyped(c.op, c.x, c.as), Tup(<<c.x>> \o c.as))
  \cup Bad(c.ready = (c.out[1] # "delay") \/ c.out[1] = "err", <<"is_ready says", c.ready>>)
  \cup Bad(c.restored, <<"bindings left behind">>)

GenVerdict(c) ==
  Bad(c.out[1] = "ans" /\ Len(c.out[2]) = c.n /\ Cardinality({c.out[2][k] : k \in 1..Len(c.out[2])}) = c.n
      /\ \A k \in 1..Len(c.out[2]) : Rel(c.op, c.out[2][k][1], Tail(c.out[2][k])), <<"infinite answers", c.out>>)

SubVerdict(c) ==
  LET b == c.b  whole == Tup(Tail(b))
      sols == CASE b[1] = "=" -> Det(<< <<b[2], b[3]>> >>)
                [] b[1] = "$not_matches" -> IF Match(b[2], b[3], NoSub) # {} THEN {} ELSE IF ~Unifies(b[2], b[3]) THEN Det(<<>>) ELSE NONE
                [] b[1] \in {"==", "!="} -> IF b[2] = b[3] \/ MGU(b[2], b[3]) = {} THEN (IF (b[1] = "==") = (b[2] = b[3]) THEN Det(<<>>) ELSE {}) ELSE NONE
                [] OTHER -> IF Comparable(b[2], b[3]) THEN (IF Cmp(b[1], b[2], b[3]) THEN Det(<<>>) ELSE {}) ELSE NONE
      ill == b[1] \in Orders /\ IsGround(b[2]) /\ IsGround(b[3]) /\ ~Comparable(b[2], b[3])
  IN IF c.out[1] = "delay" /\ b[1] # "=" /\ ~(IsGround(b[2]) /\ IsGround(b[3])) THEN {}       \* it may wait for ground arguments
     ELSE IF ill THEN {} ELSE Judge(c, sols, {}, FALSE, whole)
          \cup Bad(c.restored, <<"bindings left behind">>)

(* systems *)
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Facts(c) == { k \in 1..Len(c.P) : c.P[k].b = <<>> }
FactVal(c, t) == Sum({ k \in Facts(c) : c.P[k].h = t }, LAMBDA k : c.P[k].w)
\* value of the head instance t by rule r of P (all variables of r occur in its head)
AtomsV(c, at) == IF at = <<>> THEN 1 ELSE FoldSet(LAMBDA k, acc : acc * FactVal(c, at[k]), 1, 1..Len(at))
IsBI(t) == Len(t) = 3 /\ t[1] \in {"is", "=", "$not_matches"} \cup CmpOps
RuleVal(c, r, t) ==
  LET m == Match(r.h, t, NoSub) IN
  IF m = {} THEN 0 ELSE
  LET s == CHOOSE s \in m : TRUE
      bs == SelectSeq(r.b, IsBI)
      at == SelectSeq(r.b, LAMBDA x : ~IsBI(x))
  IN IF \A k \in 1..Len(bs) : Holds(bs[k], s) THEN r.w * AtomsV(c, [k \in 1..Len(at) |-> Apply(s, at[k])]) ELSE 0
Heads(c) == { c.P[k].h : k \in { k \in 1..Len(c.P) : c.P[k].h[1] = c.f } }
Grounds(c) == UNION { { Apply(s, h) : s \in Extend({NoSub}, VarsOf(h), {c.D[k] : k \in 1..Len(c.D)}) } : h \in Heads(c) }
SysVerdict(c) ==
  LET stray == { k \in 1..Len(c.R) : ~(VarsOfSeq(c.R[k].b) \subseteq VarsOf(c.R[k].h)) }
      undone == { k \in 1..Len(c.R) : \E j \in 1..Len(c.R[k].b) :
          LET b == c.R[k].b[j] IN IsBI(b) /\ CASE b[1] = "=" -> TRUE [] b[1] \in Orders -> Comparable(b[2], b[3])
                            [] b[1] \in {"!=", "=="} -> IsGround(b[2]) /\ IsGround(b[3])
                            [] b[1] = "is" -> Solve(b[3][1], b[2], Tail(b[3])) \notin (IF b[3][1] = "/" THEN {NONE, {}} ELSE {NONE})   \* a failing division may wait
                            [] OTHER -> FALSE }
  IN IF c.status # "ok" THEN { <<"status", c.status>> }
     ELSE IF stray # {} THEN { <<"residual variables", c.R[CHOOSE k \in stray : TRUE]>> }
     ELSE Bad(~c.resolved \/ undone = {}, <<"left undecided", IF undone = {} THEN <<>> ELSE <<c.R[CHOOSE k \in undone : TRUE].b>> >>)
     \cup LET diff == { t \in Grounds(c) :
                  Sum(1..Len(c.P), LAMBDA k : IF c.P[k].h[1] = c.f THEN RuleVal(c, c.P[k], t) ELSE 0)
                  # Sum(1..Len(c.R), LAMBDA k : RuleVal(c, c.R[k], t)) }
          IN IF diff = {} THEN {} ELSE
             LET t == CHOOSE t \in diff : TRUE IN
             { <<"instance", t, "expected", Sum(1..Len(c.P), LAMBDA k : IF c.P[k].h[1] = c.f THEN RuleVal(c, c.P[k], t) ELSE 0),
                 "reported", Sum(1..Len(c.R), LAMBDA k : RuleVal(c, c.R[k], t)) >> }

Verdict(c) == CASE c.kind = "call" -> CallVerdict(c) [] c.kind = "gen" -> GenVerdict(c)
                [] c.kind = "sub" -> SubVerdict(c) [] OTHER -> SysVerdict(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
