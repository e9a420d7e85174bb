---------------------------- MODULE Syntax ----------------------------
(* Concrete syntax of Dyna terms: the operator table and the unique      *)
(* reading of a sequence of tokens that it determines.                   *)
(*                                                                       *)
(* A token is <<kind, text>>:                                            *)
(*   "c" constant   "v" variable   "n" name   "o" operator               *)
(*   "p" punctuation, one of ( ) [ ] and the | , used inside them        *)
(* A tree is <<kind, text, children>>; "t" is a term.                    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Leaf(k, s)   == <<k, s, <<>>>>
Node(s, cs)  == <<"t", s, cs>>
Nil          == Leaf("t", "$nil")
Cell(x, y)   == Node("$cons", <<x, y>>)

(* The documented operators, from the tightest to the loosest.  Operators *)
(* of one level have the same priority.                                  *)
Infix == <<
   [ops |-> {"^"},                                                  assoc |-> "R"],
   [ops |-> {"/", "//", "\\"},                                      assoc |-> "L"],
   [ops |-> {"#"},                                                  assoc |-> "L"],
   [ops |-> {"@"},                                                  assoc |-> "L"],
   [ops |-> {"*"},                                                  assoc |-> "L"],
   [ops |-> {"-"},                                                  assoc |-> "L"],
   [ops |-> {"+"},                                                  assoc |-> "L"],
   [ops |-> {"<", "<=", ">", ">="},                                 assoc |-> "C"],
   [ops |-> {":"},                                                  assoc |-> "L"],
   [ops |-> {"=="},                                                 assoc |-> "N"],
   [ops |-> {"!="},                                                 assoc |-> "N"],
   [ops |-> {"in"},                                                  assoc |-> "N"],
   [ops |-> {"=/="},                                                assoc |-> "N"],
   [ops |-> {"is", "<-", "<--", "-->", "~>", "->", "<~", "~", "::"}, assoc |-> "R"],
   [ops |-> {"maps"},                                                  assoc |-> "L"],
   [ops |-> {"=>"},                                                 assoc |-> "R"],
   [ops |-> {"&"},                                                  assoc |-> "R"],
   [ops |-> {"|"},                                                  assoc |-> "R"],
   [ops |-> {"="},                                                  assoc |-> "N"],
   [ops |-> {","},                                                  assoc |-> "L"],
   [ops |-> {"for"},                                                assoc |-> "R"],
   [ops |-> {"+="},                                                 assoc |-> "N"],
   [ops |-> {":-"},                                                 assoc |-> "N"],
   [ops |-> {";"},                                                  assoc |-> "L"] >>

InfixOps == UNION {Infix[i].ops : i \in 1..Len(Infix)}
LevelOf(op) == CHOOSE i \in 1..Len(Infix) : op \in Infix[i].ops

(* Prefix operators bind tighter than every infix one; among themselves   *)
(* in this order: the operand of one cannot start with a looser one.      *)
Prefix == <<"!", "not", "+", "-", "~", "&", "*", "?">>
PrefixOps == ToSet(Prefix)
RankOf(op) == CHOOSE i \in 1..Len(Prefix) : Prefix[i] = op
NullOps == {"*", "!", "?"}

AnyLevel  == Len(Infix)
ArgLevel  == LevelOf(",") - 1          \* arguments: the comma separates them
ListLevel == LevelOf("|") - 1          \* lists: so does the bar

Fail == <<"fail", "", <<>>>>
Failed(r) == r[1] = Fail

(* Tok(ts, i) is a harmless token past the end. *)
Tok(ts, i) == IF i \in 1..Len(ts) THEN ts[i] ELSE <<"end", "">>
IsP(ts, i, x) == Tok(ts, i) = <<"p", x>>

RECURSIVE Expr(_, _, _), Unary(_, _, _), Post(_, _, _, _), Primary(_, _), Loop(_, _, _, _, _), Chain(_, _, _, _),
          Arg(_, _, _, _), ArgsFrom(_, _, _, _), ListFrom(_, _, _)

(* Each returns <<tree, position after it>>. *)
Expr(ts, i, max) ==
   LET l == Unary(ts, i, Len(Prefix))
   IN IF Failed(l) THEN l ELSE Loop(ts, l[1], 0, l[2], max)

Unary(ts, i, rank) ==
   LET t == Tok(ts, i)
   IN IF t[1] = "o" /\ t[2] \in PrefixOps
      THEN IF RankOf(t[2]) > rank THEN <<Fail, i>>
           ELSE LET y == Unary(ts, i+1, RankOf(t[2]))
                IN IF Failed(y) THEN y ELSE Post(ts, Node(t[2], <<y[1]>>), y[2], IF t[2] = "!" THEN rank ELSE 1)
      ELSE LET y == Primary(ts, i)
           IN IF Failed(y) THEN y ELSE Post(ts, y[1], y[2], rank)

(* An exclamation mark may also follow its operand: -a! means -(a!), and *)
(* !a! means (!a)!.                                                      *)
Post(ts, y, i, rank) ==
   IF rank > 1 /\ Tok(ts, i) = <<"o", "!">> THEN Post(ts, Node("!", <<y>>), i+1, rank) ELSE <<y, i>>

Primary(ts, i) ==
   LET t == Tok(ts, i)
   IN CASE t[1] = "c" -> <<Leaf("c", t[2]), i+1>>
        [] t[1] = "v" -> <<Leaf("v", t[2]), i+1>>
        [] t[1] = "n" -> IF ~IsP(ts, i+1, "(") THEN <<Leaf("t", t[2]), i+1>>
                         ELSE IF IsP(ts, i+2, ")") THEN <<Leaf("t", t[2]), i+3>>
                         ELSE ArgsFrom(ts, i+2, t[2], <<>>)
        [] t = <<"p", "(">> -> LET y == Arg(ts, i+1, AnyLevel, {")"})
                               IN IF Failed(y) THEN y
                                  ELSE IF IsP(ts, y[2], ")") THEN <<y[1], y[2]+1>>
                                  ELSE <<Fail, y[2]>>
        [] t = <<"p", "[">> -> IF IsP(ts, i+1, "]") THEN <<Nil, i+2>>
                               ELSE ListFrom(ts, i+1, <<>>)
        [] OTHER -> <<Fail, i>>

(* An operator alone stands for itself. *)
Lone(ts, i, ends) ==
   /\ Tok(ts, i)[1] = "o" /\ Tok(ts, i)[2] \in NullOps
   /\ \E x \in ends : IsP(ts, i+1, x)

Arg(ts, i, level, ends) ==
   IF Lone(ts, i, ends) THEN <<Leaf("t", Tok(ts, i)[2]), i+1>> ELSE Expr(ts, i, level)

ArgsFrom(ts, i, f, acc) ==
   LET y == Arg(ts, i, ArgLevel, {",", ")"})
   IN IF Failed(y) THEN y
      ELSE IF IsP(ts, y[2], ")") THEN <<Node(f, Append(acc, y[1])), y[2]+1>>
      ELSE IF IsP(ts, y[2], ",") THEN ArgsFrom(ts, y[2]+1, f, Append(acc, y[1]))
      ELSE <<Fail, y[2]>>

MkList(xs, tail) == FoldRight(Cell, xs, tail)

ListFrom(ts, i, acc) ==
   LET y == Arg(ts, i, ListLevel, {",", "|", "]"})
   IN IF Failed(y) THEN y
      ELSE IF IsP(ts, y[2], "]") THEN <<MkList(Append(acc, y[1]), Nil), y[2]+1>>
      ELSE IF IsP(ts, y[2], ",") THEN ListFrom(ts, y[2]+1, Append(acc, y[1]))
      ELSE IF IsP(ts, y[2], "|")
           THEN LET z == Arg(ts, y[2]+1, ListLevel, {"]"})
                IN IF Failed(z) THEN z
                   ELSE IF IsP(ts, z[2], "]") THEN <<MkList(Append(acc, y[1]), z[1]), z[2]+1>>
                   ELSE <<Fail, z[2]>>
      ELSE <<Fail, y[2]>>

(* left is a complete operand whose outermost operator is on level ll.    *)
Loop(ts, left, ll, i, max) ==
   LET t == Tok(ts, i)
   IN IF t[1] # "o" \/ t[2] \notin InfixOps THEN <<left, i>>
      ELSE LET l == LevelOf(t[2])
               a == Infix[l].assoc
           IN IF l > max THEN <<left, i>>
              ELSE IF a = "C"
              THEN IF ll >= l THEN <<Fail, i>>
                   ELSE LET y == Chain(ts, left, i, <<>>)
                        IN IF Failed(y) THEN y ELSE Loop(ts, y[1], l, y[2], max)
              ELSE IF (a = "L" /\ ll > l) \/ (a # "L" /\ ll >= l) THEN <<Fail, i>>
              ELSE LET y == Expr(ts, i+1, IF a = "R" THEN l ELSE l-1)
                   IN IF Failed(y) THEN y
                      ELSE Loop(ts, IF t[2] = "for" THEN Node(",", <<y[1], left>>)
                                    ELSE Node(t[2], <<left, y[1]>>),
                                l, y[2], max)

(* a < b <= c means a < b, b <= c. *)
Chain(ts, left, i, conj) ==
   LET c == LevelOf("<")
       t == Tok(ts, i)
   IN IF t[1] # "o" \/ t[2] \notin Infix[c].ops THEN <<conj[1], i>>
      ELSE LET y == Expr(ts, i+1, c-1)
               n == Node(t[2], <<left, y[1]>>)
           IN IF Failed(y) THEN y
              ELSE Chain(ts, y[1], y[2], IF conj = <<>> THEN <<n>> ELSE <<Node(",", <<conj[1], n>>)>>)

Parse(ts) == LET y == Expr(ts, 1, AnyLevel)
             IN IF Failed(y) \/ y[2] # Len(ts) + 1 THEN Fail ELSE y[1]

(* The whole text may be a lone operator, too. *)
ParseText(ts) == IF Len(ts) = 1 /\ ts[1][1] = "o" /\ ts[1][2] \in NullOps THEN Leaf("t", ts[1][2]) ELSE Parse(ts)

-----------------------------------------------------------------------
(* Printing with as few parentheses as the table permits.                *)

IsInfix(t) == t[1] = "t" /\ Len(t[3]) = 2 /\ t[2] \in InfixOps \ {"for"}
IsPre(t) == t[1] = "t" /\ Len(t[3]) = 1 /\ t[2] \in PrefixOps
Level(t) == IF IsInfix(t) THEN LevelOf(t[2]) ELSE 0
Paren(ts) == <<<<"p", "(">>>> \o ts \o <<<<"p", ")">>>>

RECURSIVE Show(_, _), ShowPre(_, _)
ShowPre(t, rank) ==
   IF IsPre(t) /\ RankOf(t[2]) <= rank
   THEN <<<<"o", t[2]>>>> \o ShowPre(t[3][1], RankOf(t[2]))
   ELSE IF IsPre(t) \/ IsInfix(t) THEN Paren(Show(t, AnyLevel))
   ELSE Show(t, 0)

Show(t, max) ==
   IF IsInfix(t)
   THEN LET l == Level(t)
            a == Infix[l].assoc
            s == Show(t[3][1], IF a = "L" THEN l ELSE l-1) \o <<<<"o", t[2]>>>> \o
                 Show(t[3][2], IF a = "R" THEN l ELSE l-1)
        IN IF l <= max THEN s ELSE Paren(s)
   ELSE IF IsPre(t) THEN ShowPre(t, Len(Prefix))
   ELSE IF t[1] # "t" THEN <<<<t[1], t[2]>>>>
   ELSE IF t[3] = <<>> THEN <<<<"n", t[2]>>>>
   ELSE <<<<"n", t[2]>>>> \o
        Paren(FoldLeft(LAMBDA acc, x : acc \o <<<<"p", ",">>>> \o Show(x, ArgLevel),
                       Show(t[3][1], ArgLevel), Tail(t[3])))

-----------------------------------------------------------------------
(* Equality up to the names of variables.                                *)
RECURSIVE VarSeq(_), Blank(_)
VarSeq(t) == IF t[1] = "v" THEN <<t[2]>> ELSE FlattenSeq([i \in 1..Len(t[3]) |-> VarSeq(t[3][i])])
Blank(t) == IF t[1] = "v" THEN Leaf("v", "") ELSE <<t[1], t[2], [i \in 1..Len(t[3]) |-> Blank(t[3][i])]>>
SameTree(s, t) ==
   /\ Blank(s) = Blank(t)
   /\ LET u == VarSeq(s)
          w == VarSeq(t)
      IN \A i, j \in 1..Len(u) : (u[i] = u[j]) <=> (w[i] = w[j])
=======================================================================
