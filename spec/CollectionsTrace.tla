---------------------------- MODULE CollectionsTrace ----------------------------
(* Judges a recorded history of one collection object.
   case.kind; case.ops: sequence of <<op, term, answer, members after it>> where
     add  : answer <<b>> (returned truth value; <<>> for none)
     find : <<k>> or <<>> when the lookup was refused
     all  : the sequence of indices;  root : <<t>> or <<>>;  roots : sequence of terms
     len  : <<n>>                                                              *)
EXTENDS Collections, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Ran(s) == {s[k] : k \in 1..Len(s)}
Good(kind, ins, op) ==
  LET x == op[2]  a == op[3]  m == op[4]  u == Under(kind, m, x) IN
  CASE op[1] = "add" -> kind = "disjoint" \/ a = <<Redundant(kind, ins, x)>>
    [] op[1] = "find" -> IF kind = "disjoint" THEN (IF Cardinality(u) = 1 THEN a # <<>> /\ a[1] \in u ELSE a = <<>>)
                         ELSE (IF u = {} THEN a = <<>> ELSE a # <<>> /\ a[1] \in u)
    [] op[1] = "root" -> IF u = {} \/ (kind = "disjoint" /\ Cardinality(u) > 1) THEN a = <<>> ELSE a # <<>> /\ \E k \in u : Variant(m[k + 1], a[1])
    [] op[1] = "all" -> Ran(a) = u /\ Len(a) = Cardinality(u)
    [] op[1] = "roots" -> Len(a) = Cardinality(u) /\ \A k \in u : \E t \in Ran(a) : Variant(m[k + 1], t)
    [] op[1] = "len" -> a = <<Len(m)>>
RECURSIVE Walk(_, _, _)
Walk(c, k, ins) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET op == c.ops[k]
           now == IF op[1] = "add" THEN ins \cup {op[2]} ELSE ins
       IN IF ~Good(c.kind, ins, op) THEN { <<"answer", k, op>> }
          ELSE IF ~Represents(op[4], Content(c.kind, now)) THEN { <<"members", k, op, "expected", Content(c.kind, now)>> }
          ELSE Walk(c, k + 1, now)
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE Walk(c, 1, {})

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
