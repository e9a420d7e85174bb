------------------------------ MODULE BucketTrace ------------------------------
(* Recorded histories of the implementation's queue, judged by BucketQueue.tla *)
EXTENDS BucketQueue, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
NoItems == [x \in {} |-> 0]
Verdict(c) == LET k == FirstBad(c.ops, 1, NoItems, {}) IN IF k = 0 THEN {} ELSE { <<"step", k, c.ops[k]>> }
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
