--------------------------- MODULE DerivationsTrace ---------------------------
(* Judges recorded enumerations of derivations and maps between them.  Cases   *)
(* (with S, one, status):                                                      *)
(*   "enum"   P, h, q (a pattern, or <<"all">>), ds: the enumeration           *)
(*   "facts"  P, ds [d, w, ws, height, size, dim], subs [x, y, ans]            *)
(*   "total"  P, h: all derivations have height below h                        *)
(*   "map"    P, Q, steps [d, e, back, w]: derivations of P mapped into Q and  *)
(*            back                                                             *)
EXTENDS Derivations, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
cl(n, ok) == IF ok THEN {} ELSE { <<n>> }
EnumV(c) ==
  LET all == Trees(c.P, c.h, c.one)
      want == IF c.q = <<"all">> THEN all ELSE Under(all, c.q)
      got == ToSet(c.ds)
  IN IF <<"!flounder">> \in all THEN {} ELSE
     { <<"not listed", d>> : d \in want \ got } \cup { <<"listed but not a derivation", d>> : d \in got \ want }
     \cup { <<"listed more than once", d>> : d \in { d \in got : Cardinality({ k \in 1..Len(c.ds) : c.ds[k] = d }) > 1 } }
FactsV(c) ==
  UNION { LET x == c.ds[k] IN
          cl("valid", Valid(c.P, x.d, c.one)) \cup cl("value", x.w = Value(c.S, x.d)) \cup cl("weights", x.ws = WeightsOf(x.d))
          \cup cl("height", x.height = Height(x.d)) \cup cl("size", x.size = Size(x.d)) \cup cl("dimension", x.dim = Dim(x.d)) : k \in 1..Len(c.ds) }
  \cup { <<"subtree", x>> : x \in { x \in ToSet(c.subs) : x.ans # (Shape(x.x) \in { Shape(z) : z \in Subs(x.y) }) } }
TotalV(c) == LET want == LFP(c.S, Weighted(c.S, c.P), {})  ds == ToSet(c.ds) IN
  { <<"values add up to", d>> : d \in ChartDiff(c.S, want, SumValues(c.S, ds)) }
\* the conclusions of all the steps of a derivation
RECURSIVE Conclusions(_)
Conclusions(d) == IF ~IsDeriv(d) THEN <<>> ELSE <<Concl(d)>> \o FlattenSeq([k \in 1..Len(Kids(d)) |-> Conclusions(Kids(d)[k])])
BagSame(x, y) == Len(x) = Len(y) /\ \A t \in ToSet(x) : Cardinality({ k \in 1..Len(x) : x[k] = t }) = Cardinality({ k \in 1..Len(y) : y[k] = t })
MapV(c) ==
  LET D == { c.steps[k].d : k \in 1..Len(c.steps) } IN
  UNION { LET x == c.steps[k] IN
     IF x.e = <<"!fail">> THEN { <<"no image", x.d>> } ELSE
     cl("image is valid", Valid(c.Q, x.e, c.one)) \cup cl("same conclusion", Canon(Concl(x.e)) = Canon(Concl(x.d)))
     \cup cl("same value", Value(c.S, x.e) = Value(c.S, x.d))
     \cup cl("image rests on the same facts", ~c.leaves \/ \A f \in ToSet(c.facts) : LET N(d) == SelectSeq(Conclusions(d), LAMBDA t : t[1] = f) IN BagSame(N(x.e), N(x.d)))
     \cup (IF x.back = <<"!none">> THEN {} ELSE cl("maps back to itself", x.back = x.d)) : k \in 1..Len(c.steps) }
  \cup { <<"two derivations have the same image", a, b>> : <<a, b>> \in { p \in (1..Len(c.steps)) \X (1..Len(c.steps)) :
             p[1] < p[2] /\ c.steps[p[1]].e = c.steps[p[2]].e /\ c.steps[p[1]].d # c.steps[p[2]].d } }
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
  CASE c.kind = "enum" -> EnumV(c)
    [] c.kind = "facts" -> FactsV(c)
    [] c.kind = "total" -> TotalV(c)
    [] c.kind = "map" -> MapV(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
