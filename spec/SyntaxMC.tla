--------------------------- MODULE SyntaxMC ---------------------------
(* Trees are grown operator by operator, printed with as few parentheses *)
(* as the table permits, and read by a shift-reduce machine and by the   *)
(* recursive definition of Parse.                                        *)
EXTENDS Syntax

CONSTANTS Bin, Pre, Depth

VARIABLES t, phase, d, ts, i, stack
vars == <<t, phase, d, ts, i, stack>>

A == Leaf("t", "a")
Small == {A} \cup {Node(o, <<A, A>>) : o \in Bin} \cup {Node(o, <<A>>) : o \in Pre} \cup {Node("f", <<A>>)}

Init == t = A /\ phase = "grow" /\ d = 0 /\ ts = <<>> /\ i = 0 /\ stack = <<>>

Grow == /\ phase = "grow" /\ d < Depth
        /\ d' = d + 1
        /\ \/ \E o \in Bin, s \in Small : t' = Node(o, <<t, s>>) \/ t' = Node(o, <<s, t>>)
           \/ \E o \in Pre : t' = Node(o, <<t>>)
           \/ \E s \in Small : t' = Node("f", <<t, s>>)
        /\ UNCHANGED <<phase, ts, i, stack>>

Begin == /\ phase = "grow" /\ d <= 2
         /\ phase' = "read" /\ ts' = Show(t, AnyLevel) /\ i' = 1 /\ stack' = <<>>
         /\ UNCHANGED <<t, d>>

\* The stack holds trees <<"e", tree>>, operators <<"b", op>> and <<"u", op>>, and brackets <<"(", name or "">>.
Top(k) == IF Len(stack) < k THEN <<"none", "">> ELSE stack[Len(stack) - k + 1]
Pop(k) == SubSeq(stack, 1, Len(stack) - k)
IsE(k) == Top(k)[1] = "e"

\* Must the pending operation under the tree on top be reduced before token x?
LastOp == IF IsE(1) THEN Top(2) ELSE <<"none", "">>
ReduceBefore(x) ==
   CASE LastOp[1] = "u" -> TRUE
     [] LastOp[1] = "b" -> IF x[1] = "o" /\ x[2] \in InfixOps
                           THEN LET a == LevelOf(LastOp[2])
                                    b == LevelOf(x[2])
                                IN a < b \/ (a = b /\ Infix[a].assoc = "L")
                           ELSE TRUE
     [] OTHER -> FALSE

Reduce == /\ phase = "read" /\ ReduceBefore(Tok(ts, i))
          /\ stack' = IF LastOp[1] = "u" THEN Append(Pop(2), <<"e", Node(LastOp[2], <<Top(1)[2]>>)>>)
                      ELSE Append(Pop(3), <<"e", Node(LastOp[2], <<Top(3)[2], Top(1)[2]>>)>>)
          /\ UNCHANGED <<t, d, phase, ts, i>>

RECURSIVE ArgsBelow(_)
ArgsBelow(k) == IF Top(k)[1] = "e" THEN Append(ArgsBelow(k+1), Top(k)[2])
                ELSE IF Top(k)[1] = "," THEN ArgsBelow(k+1) ELSE <<>>
RECURSIVE BracketAt(_)
BracketAt(k) == IF Top(k)[1] = "(" THEN k ELSE BracketAt(k+1)

Shift == /\ phase = "read" /\ i <= Len(ts) /\ ~ReduceBefore(ts[i])
         /\ LET x == ts[i] IN
            /\ i' = i + IF x[1] = "n" /\ IsP(ts, i+1, "(") THEN 2 ELSE 1
            /\ stack' = CASE x[1] = "n" -> Append(stack, IF IsP(ts, i+1, "(") THEN <<"(", x[2]>> ELSE <<"e", Leaf("t", x[2])>>)
                          [] x[1] = "o" -> Append(stack, <<IF IsE(1) THEN "b" ELSE "u", x[2]>>)
                          [] x = <<"p", "(">> -> Append(stack, <<"(", "">>)
                          [] x = <<"p", ",">> -> Append(stack, <<",", "">>)
                          [] x = <<"p", ")">> -> LET k == BracketAt(1)
                                                     f == Top(k)[2]
                                                 IN Append(Pop(k), <<"e", IF f = "" THEN Top(1)[2] ELSE Node(f, ArgsBelow(1))>>)
         /\ UNCHANGED <<t, d, phase, ts>>

Done == /\ phase = "read" /\ i > Len(ts) /\ ~ReduceBefore(<<"end", "">>)
        /\ phase' = "done" /\ UNCHANGED <<t, d, ts, i, stack>>

Next == Grow \/ Begin \/ Reduce \/ Shift \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------
TypeOK == phase \in {"grow", "read", "done"} /\ i \in 0..(Len(ts) + 1)

(* Reading what was printed gives the tree back. *)
RoundTrip == phase = "grow" => Parse(Show(t, AnyLevel)) = t

(* The machine reads what the definition says. *)
MachineAgrees == phase = "done" => stack = << <<"e", t>> >>

(* No pair of parentheses is redundant. *)
RECURSIVE Close(_, _, _)
Close(s, k, n) == IF s[k] = <<"p", "(">> THEN Close(s, k+1, n+1)
                  ELSE IF s[k] = <<"p", ")">> THEN (IF n = 1 THEN k ELSE Close(s, k+1, n-1))
                  ELSE Close(s, k+1, n)
Minimal == (phase = "grow" /\ d <= 2) =>
   LET s == Show(t, AnyLevel) IN
   \A k \in 1..Len(s) :
      (s[k] = <<"p", "(">> /\ ~(k > 1 /\ s[k-1][1] = "n")) =>
         LET c == Close(s, k, 0)
         IN Parse(SubSeq(s, 1, k-1) \o SubSeq(s, k+1, c-1) \o SubSeq(s, c+1, Len(s))) # t
=======================================================================
