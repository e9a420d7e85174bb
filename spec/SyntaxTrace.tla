-------------------------- MODULE SyntaxTrace -------------------------
(* Judges recorded readings and printings of the real parser and printer. *)
EXTENDS Syntax, Json, IOUtils

VARIABLES i, st
Cases == JsonDeserialize(IOEnv.CASES)
cl(name, ok) == IF ok THEN {} ELSE { <<name>> }

(* a text built from tokens, and the tree the parser made of it *)
ParseV(c) == LET want == ParseText(c.tokens)
                 \* of the texts that are not well formed, only those whose brackets do not match are judged
                 \* (the grammar has some more forms: a comma after the last argument, operators as operands)
                 N(x) == Cardinality({ k \in 1..Len(c.tokens) : c.tokens[k] = <<"p", x>> })
                 balanced == N("(") = N(")") /\ N("[") = N("]")
             IN IF want = Fail THEN cl("rejected", (balanced /\ ~("strict" \in DOMAIN c /\ c.strict)) \/ c.got = Fail)
                ELSE IF c.got = Fail THEN { <<"not accepted", want>> }
                ELSE cl("meaning", SameTree(want, c.got))

(* a tree, the tokens of its text (split independently), the tree the parser made of that text *)
RoundV(c) == cl("reads back", SameTree(c.tree, c.again))
             \cup (IF c.tokens = <<>> THEN {} ELSE LET y == ParseText(c.tokens) IN cl("text denotes the tree", SameTree(y, c.tree)))

(* the rules of a text: the head, and the parts of a conjunction of products; anything but an update is a fact *)
RECURSIVE Parts(_, _)
Parts(t, op) == IF t[1] = "t" /\ t[2] = op /\ Len(t[3]) = 2 THEN Parts(t[3][1], op) \o Parts(t[3][2], op) ELSE <<t>>
RuleOf(t) == IF t[1] = "t" /\ Len(t[3]) = 2 /\ t[2] \in {"+=", ":-"}
             THEN Node("%rule", <<t[3][1]>> \o FlattenSeq([k \in 1..Len(Parts(t[3][2], ",")) |-> Parts(Parts(t[3][2], ",")[k], "*")]))
             ELSE Node("%rule", <<t>>)
ReadingV(c) == LET ts == [k \in 1..Len(c.segments) |-> ParseText(c.segments[k])]
                   quirk(t) == \E x \in ToSet(RuleOf(t)[3]) : x[1] = "t" /\ x[2] \in {"*", ","}    \* a part that is not a product of two
               IN IF \E k \in 1..Len(ts) : ts[k] = Fail \/ quirk(ts[k]) THEN {}
                  ELSE IF Len(c.got) # Len(ts) THEN { <<"number of rules", Len(c.got)>> }
                  ELSE { <<"rule", k, RuleOf(ts[k])>> : k \in { k \in 1..Len(ts) : ~SameTree(RuleOf(ts[k]), c.got[k]) } }

(* rules in order, and declarations in order *)
Pairwise(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameTree(x[k], y[k])
ProgV(c) == cl("rules", Pairwise(c.rules, c.again.rules)) \cup cl("inputs", Pairwise(c.inputs, c.again.inputs))
            \cup cl("outputs", Pairwise(c.outputs, c.again.outputs))

(* texts of several things: equal only if the things are *)
DistinctV(c) == { <<"same text", a, b>> : <<a, b>> \in { p \in (1..Len(c.texts)) \X (1..Len(c.texts)) :
                    p[1] < p[2] /\ c.texts[p[1]] = c.texts[p[2]] /\ ~SameTree(c.trees[p[1]], c.trees[p[2]]) } }

Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> } ELSE
  CASE c.kind = "parse" -> ParseV(c)
    [] c.kind = "round" -> RoundV(c)
    [] c.kind = "program" -> ProgV(c)
    [] c.kind = "reading" -> ReadingV(c)
    [] c.kind = "distinct" -> DistinctV(c)

Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=======================================================================
