-------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* C23: searching for a cheaper program.  A cost is a sequence of naturals,     *)
(* compared lexicographically (the degrees of a program's rules, largest        *)
(* first), a proper prefix being smaller.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) ==
  IF k > Len(b) THEN FALSE
  ELSE IF k > Len(a) THEN TRUE
  ELSE IF a[k] = b[k] THEN LessFrom(a, b, k + 1) ELSE a[k] < b[k]
Less(a, b) == LessFrom(a, b, 1)
Leq(a, b) == a = b \/ Less(a, b)

RECURSIVE BestOf(_, _)
BestOf(c, cs) == IF cs = <<>> THEN c ELSE BestOf(IF Less(cs[1], c) THEN cs[1] ELSE c, SubSeq(cs, 2, Len(cs)))

CountIn(x, s) == Cardinality({ k \in 1..Len(s) : s[k] = x })
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : CountIn(s[k], s) = CountIn(s[k], t)
=============================================================================
