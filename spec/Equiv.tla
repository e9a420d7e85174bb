--------------------------------- MODULE Equiv ---------------------------------
(***************************************************************************)
(* C05, C06, C07, C08, C23: a transformed program gives every retained item   *)
(* the value the original gives it, for each of the recorded data sets.       *)
(*                                                                          *)
(* case.orig, case.new   programs;   case.datas  data sets (rule sequences)   *)
(* case.fns    functors compared;   case.drop  patterns not retained          *)
(* case.keep   <<>> or patterns outside of which nothing is promised          *)
(***************************************************************************)
EXTENDS Dyna, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, st

\* Free head variables range over c.dom and, when c.domitems, over the items (and their subterms) the
\* original derives (speculation introduces items x/x for every item x).
Doms(c, W) == { c.dom[k] : k \in 1..Len(c.dom) } \cup (IF c.domitems THEN { <<"!item", t>> : t \in DOMAIN W \cup { c.domx[k] : k \in 1..Len(c.domx) } }
                                        \cup UNION { ProperSubTerms(t) : t \in DOMAIN W } ELSE {})

MatchesAny(pats, x) == \E k \in 1..Len(pats) : Match(pats[k], x, NoSub) # {}

Retained(c, C) ==
  LET fns == { c.fns[k] : k \in 1..Len(c.fns) } IN
  [ t \in { x \in DOMAIN C : \/ x[1] \in {"!diverges", "!flounder"}
                             \/ /\ x[1] \in fns
                                /\ ~MatchesAny(c.drop, x)
                                /\ (c.keep = <<>> \/ MatchesAny(c.keep, x)) } |-> C[t] ]

Diff(c, data) ==
  LET want == LFP(c.sr, c.orig \o data, { c.dom[k] : k \in 1..Len(c.dom) })
      got  == LFP(c.sr, c.new \o data, Doms(c, want))
  IN ChartDiff(c.sr, Retained(c, want), Retained(c, got))

Verdict(c) ==
  IF c.status # "ok" THEN { <<"status", c.status>> }
  ELSE UNION { { <<"data", k, d>> : d \in Diff(c, c.datas[k]) } : k \in 1..Len(c.datas) }

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
