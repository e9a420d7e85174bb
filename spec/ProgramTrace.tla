------------------------------ MODULE ProgramTrace ------------------------------
(* Judges recorded histories of one program object.  case.S semiring, case.P the rules it was
   born with, case.ops: sequence of records [op, ...]:
     upd r after | pop i popped after | lookup q ans | f2r f ans | syms ans | gen ans
     eq Q ans (equality, equal hashes) | item q ans | twin name x y (answers of the object and of a
     freshly built one: sequences of rules [h, b])                                          *)
EXTENDS ProgramOps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Ran(s) == {s[k] : k \in 1..Len(s)}
Good(c, rs, o) ==
  CASE o.op = "lookup" -> LET L == Lookup(rs, o.q) IN Len(L) = Len(o.ans) /\ \A k \in 1..Len(L) : o.ans[k].i = L[k].i
                             /\ Variant(Tup(<<o.ans[k].q, RT(o.ans[k].h, o.ans[k].b)>>), L[k].t)
    [] o.op = "f2r" -> o.ans = [k \in 1..Len(ByFunctor(rs, o.f)) |-> ByFunctor(rs, o.f)[k] - 1]
    [] o.op = "syms" -> Ran(o.ans) = Syms(rs)
    [] o.op = "gen" -> o.ans \notin Syms(rs)
    [] o.op = "eq" -> IF ProgSame(rs, o.Q) THEN o.ans = <<TRUE, TRUE>> ELSE ~o.ans[1]
    [] o.op = "item" -> o.ans = \E k \in 1..Len(rs) : Unifies(rs[k].h, o.q)
    [] o.op = "twin" -> SameSeq(o.x, o.y)
    [] OTHER -> TRUE
RECURSIVE Walk(_, _, _)
Walk(c, k, rs) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET o == c.ops[k] IN
       IF o.op = "upd" THEN
         LET n == Update(c.S, rs, o.r) IN IF SameSeq(n, o.after) THEN Walk(c, k + 1, n) ELSE { <<"step", k, o, "expected", n>> }
       ELSE IF o.op = "pop" THEN
         LET n == DropAt(rs, o.i + 1) IN IF SameSeq(n, o.after) /\ SameSeq(<<rs[o.i + 1]>>, <<o.popped>>) THEN Walk(c, k + 1, n) ELSE { <<"step", k, o, "expected", n>> }
       ELSE IF Good(c, rs, o) THEN Walk(c, k + 1, rs)
       ELSE { <<"step", k, o, "on", rs>> }
Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE Walk(c, 1, c.P)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
