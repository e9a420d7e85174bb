------------------------------ MODULE EqualityTrace ------------------------------
(* Judges recorded answers about equality.  Cases:
     kind "rules": R sequence of rules, same[i][j], hash[i] (classes of equal hashes)
     kind "progs": S, P, Q; eq, qe, hash; align; back (alignment of Q with P); m in {"zero","finite","inf"},
                   mb (of Q with P), gap (integers only, -1 otherwise), ae (assert_equal passed)
     kind "facts": P, Q sequences of <<item, value>> with different items, values may be infinite; eq, m, mb, ae *)
EXTENDS Equality, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
RulesV(c) == { <<"same", a, b, c.same[a][b]>> : <<a, b>> \in { x \in (1..Len(c.R)) \X (1..Len(c.R)) :
                  LET t == RuleSame(c.R[x[1]], c.R[x[2]]) IN (c.same[x[1]][x[2]] # t) \/ (t /\ c.hash[x[1]] # c.hash[x[2]]) } }
ProgsV(c) ==
  LET t == ProgSame(c.P, c.Q)  cl(n, ok) == IF ok THEN {} ELSE { <<n>> } IN
  cl("equality", c.eq = t /\ c.qe = t) \cup cl("hash", t => c.hash)
  \cup cl("alignment", Aligns(c.P, c.Q, c.align) /\ Aligns(c.Q, c.P, c.back))
  \cup (IF c.S.k = "none" THEN {} ELSE
        LET want == IF Agree(c.S, c.P, c.Q) THEN "zero" ELSE IF AgreeButFacts(c.S, c.P, c.Q) THEN "finite" ELSE "inf" IN
        cl("metric " \o want, c.m = want /\ c.mb = want) \cup cl("assert_equal", c.ae = (want = "zero"))
        \cup cl("gap", (c.S.k = "int" /\ want # "inf") => c.gap = Gap(c.S, c.P, c.Q)))
FactsV(c) ==
  LET Set(x) == { x[k] : k \in 1..Len(x) }  t == Set(c.P) = Set(c.Q)  cl(n, ok) == IF ok THEN {} ELSE { <<n>> } IN
  cl("equality", c.eq = t) \cup cl("assert_equal", c.ae = t) \cup cl("metric", (c.m = "zero") = t /\ (c.mb = "zero") = t)
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE IF c.kind = "rules" THEN RulesV(c) ELSE IF c.kind = "facts" THEN FactsV(c) ELSE ProgsV(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
