----------------------------- MODULE MeasureTrace -----------------------------
(***************************************************************************)
(* C06: what a fold is accepted for.  The measure of a transformed program     *)
(* gives each rule an interval; the intervals of the rules of a derivation add  *)
(* up to an interval that must contain the size of the derivation of the        *)
(* original program it stands for (so that a rewriting that goes in circles      *)
(* would have to lose size forever).                                            *)
(*                                                                          *)
(* case.m      <<lo, hi>> per rule of the transformed program                  *)
(* case.steps  [d, e, lo, hi]: a derivation of the transformed program, the      *)
(*             derivation of the original, the recorded interval of d           *)
(***************************************************************************)
EXTENDS Derivations, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st

RECURSIVE Sum(_, _, _)
Sum(m, d, k) == IF IsBase(d) THEN 0
                ELSE m[RuleOf(d)][k] + FoldLeft(LAMBDA a, y : a + Sum(m, y, k), 0, Kids(d))

StepV(c, s) ==
  LET lo == Sum(c.m, s.d, 1)  hi == Sum(c.m, s.d, 2)  n == Size(s.e) IN
  (IF lo <= n /\ n <= hi THEN {} ELSE { <<"size outside its interval", lo, n, hi>> })
  \cup (IF <<s.lo, s.hi>> = <<lo, hi>> THEN {} ELSE { <<"interval of the derivation", <<s.lo, s.hi>>, <<lo, hi>> >> })

Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> }
              ELSE UNION { StepV(c, c.steps[k]) : k \in 1..Len(c.steps) }

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
