------------------------------- MODULE TypesMC -------------------------------
(***************************************************************************)
(* C10: abstract forward chaining with widening, over every program of at most  *)
(* Rules rules taken from a catalogue.  The state is a chart and an agenda of    *)
(* simple types; any type may be taken from the agenda.  Heads that are too     *)
(* deep are cut off, types covered by others are dropped.                        *)
(***************************************************************************)
EXTENDS Types, FiniteSetsExt

CONSTANTS Rules, Depths, Len0

X == VarT("X")  Y == VarT("Y")
z == <<"z">>
S1(t) == <<"s", t>>
p(t) == <<"p", t>>
e(t) == <<"e", t>>
q(t, u) == <<"q", t, u>>
R(h, b) == [h |-> h, b |-> b]

Catalogue == << R(p(z), <<>>), R(p(X), <<>>), R(p(S1(X)), <<p(X)>>), R(p(X), <<p(S1(S1(X)))>>), R(q(X, X), <<p(X)>>),
                R(q(X, Y), <<p(X)>>), R(q(S1(X), Y), <<q(X, S1(Y))>>), R(p(X), <<q(X, X)>>), R(q(X, Y), <<p(X), p(Y)>>),
                R(p(X), <<q(X, z)>>), R(q(Y, S1(X)), <<q(X, Y)>>),
                R(p(X), <<e(X)>>), R(q(X, S1(Y)), <<e(X)>>) >>

\* an input: one bound argument; some data for it
Input == [h |-> e(VarT("v1")), b |-> {"v1"}]
Data == { e(z), e(S1(z)), e(S1(S1(S1(z)))) }

VARIABLES prog, depth, chart, agenda

vars == <<prog, depth, chart, agenda>>

\* a type: head, the variables known to be bound (the others may be anything)
T(h, b) == [h |-> h, b |-> b]
Name(t) == LET vs == VarSeq(t.h, <<>>)
               m == [ v \in VarsOf(t.h) |-> VarT("v" \o ToString(CHOOSE j \in 1..Len(vs) : vs[j] = v)) ]
           IN T(Apply(m, t.h), { m[v][2] : v \in t.b \cap VarsOf(t.h) })

\* cut off below depth d: each cut makes a new variable, named by its position
RECURSIVE Cut(_, _, _)
Cut(t, d, at) ==
  IF t[1] = "?" THEN t
  ELSE IF d = 0 THEN VarT("cut" \o at)
  ELSE IF t[1] = "#" \/ Len(t) = 1 THEN t
  ELSE [ k \in 1..Len(t) |-> IF k = 1 THEN t[1] ELSE Cut(t[k], d - 1, at \o "." \o ToString(k)) ]

Relax(t) == LET h == Cut(t.h, depth, "") IN Name(T(h, t.b \cap VarsOf(h)))

Wider(t, u) == \E m \in Match(t.h, u.h, NoSub) : \A v \in t.b : VarsOf(m[v]) \subseteq u.b

\* what follows from rule r when its body's atoms have the types ts: bound variables stay bound
Fire(r, ts) ==
  LET eqs == [ k \in 1..Len(r.b) |-> <<r.b[k], Tag(ToString(k) \o "_", ts[k].h)>> ]
      bnd == UNION { { ToString(k) \o "_" \o v : v \in ts[k].b } : k \in 1..Len(r.b) } IN
  { LET h == Apply(s, r.h) IN
    Relax(T(h, UNION { VarsOf(Apply(s, VarT(v))) : v \in bnd }))
    : s \in UnifyAll(eqs, NoSub) }

Drive(d, C) ==
  UNION { UNION { Fire(prog[k], ts) : ts \in { f \in [ 1..Len(prog[k].b) -> C ] : \E j \in 1..Len(prog[k].b) : f[j] = d } }
          : k \in { k \in 1..Len(prog) : prog[k].b # <<>> } }

\* the widest of a set of types (one of each class of equals)
Widest(A) == { t \in A : \A u \in A : Wider(u, t) => Wider(t, u) }

Start(P, d) == { Name(T(Cut(P[k].h, d, ""), {})) : k \in { k \in 1..Len(P) : P[k].b = <<>> } }

Init ==
  /\ \E A \in SUBSET (1..Len(Catalogue)) :
        /\ Cardinality(A) \in 2..Rules
        /\ prog = [ j \in 1..Cardinality(A) |-> Catalogue[CHOOSE k \in A : Cardinality({ m \in A : m < k }) = j - 1] ]
  /\ depth \in Depths
  /\ chart = Widest(Start(prog, depth) \cup {Input})
  /\ agenda = chart

\* a type that has been superseded may be skipped or not: its consequences are covered anyway
Pop(d) ==
  /\ d \in agenda
  /\ LET new == { t \in Drive(d, chart \cup {d}) : ~\E u \in chart : Wider(u, t) } IN
     /\ chart' = Widest(chart \cup new)
     /\ agenda' = (agenda \ {d}) \cup Widest(new)
  /\ UNCHANGED <<prog, depth>>

Next == \E d \in agenda : Pop(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == \A t \in chart : t.b \subseteq VarsOf(t.h)
Antichain == \A t \in chart : \A u \in chart : Wider(t, u) => t = u
Shallow == \A t \in chart : t.h = Cut(t.h, depth, "")

RECURSIVE Items0(_, _, _)
Items0(P, I, n) == IF n = 0 THEN I ELSE Items0(P, I \cup ItemStep(P, I), n - 1)

In(x, t) == \E m \in Match(t.h, x, NoSub) : \A v \in t.b : IsGround(m[v])
\* at the end every item derived within Len0 rounds is in some type
Sound == agenda = {} => \A x \in Items0(prog, Data, Len0) : \E t \in chart : In(x, t)
\* only widening is allowed along the way
Grows == [][ \A t \in chart : \E u \in chart' : Wider(u, t) ]_vars
Halts == <>(agenda = {})
=============================================================================
