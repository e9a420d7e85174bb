------------------------------ MODULE BucketQueue ------------------------------
(***************************************************************************)
(* C19.  The integer bucket queue.  Abstractly: a map from items to            *)
(* priorities; a pop removes some item of least priority.  Concretely: the map  *)
(* D, buckets Q and a lower bound N.  TLC checks that the concrete machine       *)
(* refines the abstract one (BucketMC) and judges recorded histories of the      *)
(* implementation against the abstract one (BucketTrace verdicts below).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------ abstract operations
\* an operation is <<name, args..., result>>; m is the map (a function), its = set of finished iterators
Least(m, x) == x \in DOMAIN m /\ \A y \in DOMAIN m : m[x] <= m[y]
Put(m, x, p) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN p ELSE m[y]]
Drop(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]

\* Step(m, op): <<ok, m'>>
Step(m, op, fin) ==
  CASE op[1] = "set" -> << op[4] = "ok", Put(m, op[2], op[3]), fin >>
    [] op[1] = "setbad" -> << op[3] = "TypeError", m, fin >>
    [] op[1] = "del" -> IF op[2] \in DOMAIN m THEN << op[3] = "ok", Drop(m, op[2]), fin >> ELSE << op[3] = "KeyError", m, fin >>
    [] op[1] = "get" -> << op[3] = (IF op[2] \in DOMAIN m THEN <<m[op[2]]>> ELSE <<>>), m, fin >>
    [] op[1] = "in" -> << op[3] = (op[2] \in DOMAIN m), m, fin >>
    [] op[1] = "len" -> << op[2] = Cardinality(DOMAIN m), m, fin >>
    [] op[1] = "pop" -> IF DOMAIN m = {} THEN << op[2] = <<>>, m, fin >>
                        ELSE << op[2] # <<>> /\ Least(m, op[2][1]) /\ op[2][2] = m[op[2][1]],
                                IF op[2] = <<>> THEN m ELSE Drop(m, op[2][1]), fin >>
    \* next of iterator op[2]; plain iterators give the item alone
    [] op[1] = "next" -> IF DOMAIN m = {} \/ op[2] \in fin THEN << op[3] = <<>>, m, fin \cup {op[2]} >>
                         ELSE << op[3] # <<>> /\ Least(m, op[3][1]), IF op[3] = <<>> THEN m ELSE Drop(m, op[3][1]), fin >>
    [] op[1] = "nextitem" -> IF DOMAIN m = {} \/ op[2] \in fin THEN << op[3] = <<>>, m, fin \cup {op[2]} >>
                         ELSE << op[3] # <<>> /\ Least(m, op[3][1]) /\ op[3][2] = m[op[3][1]],
                                 IF op[3] = <<>> THEN m ELSE Drop(m, op[3][1]), fin >>

\* the first step the abstract machine does not allow, or 0
RECURSIVE FirstBad(_, _, _, _)
FirstBad(h, k, m, fin) ==
  IF k > Len(h) THEN 0
  ELSE LET r == Step(m, h[k], fin) IN IF ~r[1] THEN k ELSE FirstBad(h, k + 1, r[2], r[3])
=============================================================================
