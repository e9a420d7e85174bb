-------------------------------- MODULE Graphs --------------------------------
(***************************************************************************)
(* C20.  Graphs: reachability, components, condensations, semiring closures,   *)
(* hypergraph reachability, and the coarse dependency graph of a program.       *)
(***************************************************************************)
EXTENDS Unify, Json, IOUtils

\* ---------------------------------------------------------------- relations on 1..N
RECURSIVE Trans(_)
Trans(E) == LET E2 == E \cup { <<e[1], f[2]>> : <<e, f>> \in { p \in E \X E : p[1][2] = p[2][1] } }
            IN IF E2 = E THEN E ELSE Trans(E2)
Refl(V, E) == E \cup { <<v, v>> : v \in V }
SetOf(q) == { q[k] : k \in 1..Len(q) }
Pairs(q) == { <<q[k][1], q[k][2]>> : k \in 1..Len(q) }

\* components of the part reachable from roots, as a set of sets
Comps(V, T) == { { w \in V : w = v \/ (<<v, w>> \in T /\ <<w, v>> \in T) } : v \in V }
\* a sequence of components lists dependencies (successors) first
DepsFirst(q, T) == \A k \in 1..Len(q) : \A l \in 1..Len(q) :
                      k < l => ~\E v \in SetOf(q[k]), w \in SetOf(q[l]) : <<v, w>> \in T

Bad(b, txt) == IF b THEN {} ELSE {txt}
SccVerdict(V, E, roots, sccs) ==
  LET T == Trans(E)
      W == SetOf(roots) \cup { e[2] : e \in { e \in T : e[1] \in SetOf(roots) } }
      got == [k \in 1..Len(sccs) |-> sccs[k]]
  IN Bad({ SetOf(sccs[k]) : k \in 1..Len(sccs) } = Comps(W, T), <<"components", sccs>>)
     \cup Bad(\A k, l \in 1..Len(sccs) : k # l => SetOf(sccs[k]) # SetOf(sccs[l]), <<"component listed twice", sccs>>)
     \cup Bad(DepsFirst(sccs, T), <<"not in dependency order", sccs>>)

GraphVerdict(c) ==
  LET V == SetOf(c.nodes)  E == Pairs(c.edges)  T == Trans(E)
      W == SetOf(c.roots) \cup { e[2] : e \in { e \in T : e[1] \in SetOf(c.roots) } }
      CE == { <<SetOf(c.cedges[k][1]), SetOf(c.cedges[k][2])>> : k \in 1..Len(c.cedges) }
      cls(v) == { w \in V : w = v \/ (<<v, w>> \in T /\ <<w, v>> \in T) }
  IN SccVerdict(V, E, c.roots, c.sccs)
     \cup Bad({ SetOf(c.cnodes[k]) : k \in 1..Len(c.cnodes) } = Comps(W, T), <<"condensation nodes", c.cnodes>>)
     \cup Bad(CE = { <<cls(e[1]), cls(e[2])>> : e \in { e \in E : e[1] \in W /\ cls(e[1]) # cls(e[2]) } }, <<"condensation edges", c.cedges>>)
     \cup Bad(SccVerdict(V, E, c.roots, c.topo) = {}, <<"condensation order", c.topo>>)
     \cup Bad(Pairs(c.tc) = T, <<"transitive closure", c.tc>>)
     \cup Bad(Pairs(c.rtc) = Refl(V, T), <<"reflexive closure", c.rtc>>)
     \cup Bad(SetOf(c.tcnodes) = V, <<"closure nodes", c.tcnodes>>)

\* ---------------------------------------------------------------- weighted closure
\* relations on {1,2,3} as a (non-commutative) semiring, plus the semirings of Dyna.tla
MPlus(S, a, b) == IF S.k = "rel" THEN a \cup b ELSE Plus(S, a, b)
MTimes(S, a, b) == IF S.k = "rel" THEN { <<p[1][1], p[2][2]>> : p \in { p \in a \X b : p[1][2] = p[2][1] } } ELSE Times(S, a, b)
MZero(S) == IF S.k = "rel" THEN {} ELSE Zero(S)
MOne(S) == IF S.k = "rel" THEN { <<v, v>> : v \in 1..3 } ELSE One(S)
RECURSIVE MSum(_, _, _)
MSum(S, f, n) == IF n = 0 THEN MZero(S) ELSE MPlus(S, MSum(S, f, n - 1), f[n])
MatMul(S, A, B, n) == [a \in 1..n |-> [b \in 1..n |-> MSum(S, [k \in 1..n |-> MTimes(S, A[a][k], B[k][b])], n)]]
MatAdd(S, A, B, n) == [a \in 1..n |-> [b \in 1..n |-> MPlus(S, A[a][b], B[a][b])]]
Ident(S, n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN MOne(S) ELSE MZero(S)]]
Dec(S, M, n) == [a \in 1..n |-> [b \in 1..n |-> IF S.k = "rel" THEN Pairs(M[a][b]) ELSE IF S.k = "rat" THEN <<M[a][b][1], M[a][b][2]>> ELSE M[a][b]]]
RECURSIVE Iter(_, _, _, _)
Iter(S, A, B, n) == LET C == MatAdd(S, Ident(S, n), MatMul(S, A, B, n), n) IN IF C = B THEN B ELSE Iter(S, A, C, n)
MatrixVerdict(c) ==
  LET S == c.sr  n == c.n  A == Dec(S, c.A, n)
      ref == Dec(S, c.refl, n)  tr == Dec(S, c.trans, n)
  IN IF S.k = "rat"   \* the (unique) solution of B = I + A B, and of B = A + A B
     THEN Bad(ref = MatAdd(S, Ident(S, n), MatMul(S, A, ref, n), n), <<"closure is not a solution", ref>>)
          \cup Bad(tr = MatAdd(S, A, MatMul(S, A, tr, n), n), <<"transitive closure is not a solution", tr>>)
     ELSE LET B == Iter(S, A, [a \in 1..n |-> [b \in 1..n |-> MZero(S)]], n) IN
          Bad(ref = B, <<"closure", ref, "expected", B>>)
          \cup Bad(tr = MatMul(S, A, B, n), <<"transitive closure", tr>>)

\* ---------------------------------------------------------------- hypergraphs
\* edges: <<head, body>>
RECURSIVE Fwd(_, _), Bwd(_, _, _)
Fwd(H, X) == LET Y == X \cup { H[k].h : k \in { k \in 1..Len(H) : SetOf(H[k].b) \subseteq X } } IN IF Y = X THEN X ELSE Fwd(H, Y)
Bwd(H, X, ok) == LET Y == X \cup UNION { SetOf(H[k].b) : k \in { k \in ok : H[k].h \in X } } IN IF Y = X THEN X ELSE Bwd(H, Y, ok)
HyperVerdict(c) ==
  LET H == c.h  C == Fwd(H, SetOf(c.inputs))
      \* every node that takes part in a derivation (from inputs and axioms) leading to an output ...
      need == Bwd(H, SetOf(c.outputs), { k \in 1..Len(H) : SetOf(H[k].b) \subseteq C })
      \* ... is reported, and nothing that is underivable or does not lead to an output
      may == SetOf(c.outputs) \cup (Bwd(H, SetOf(c.outputs), 1..Len(H)) \cap C)
  IN Bad(need \subseteq SetOf(c.useful), <<"reachability misses", need \ SetOf(c.useful)>>)
     \cup Bad(SetOf(c.useful) \subseteq may, <<"reachability invents", SetOf(c.useful) \ may>>)
     \cup Bad(SetOf(c.hnodes) = UNION { {H[k].h} \cup SetOf(H[k].b) : k \in 1..Len(H) }, <<"hypergraph nodes", c.hnodes>>)

\* ---------------------------------------------------------------- programs
ProgVerdict(c) ==
  LET P == c.prog  X == c.nodes  N == Len(X)
      atoms == { P[k].h : k \in 1..Len(P) } \cup UNION { SetOf(P[k].b) : k \in 1..Len(P) } \cup SetOf(c.inputs)
      owners(t) == { n \in 1..N : Unifies(X[n], t) }
      nd(t) == CHOOSE n \in 1..N : Covers(X[n], t)
      E == UNION { { <<nd(P[k].h), nd(P[k].b[l])>> : l \in 1..Len(P[k].b) } : k \in 1..Len(P) }
      V == { nd(t) : t \in SetOf(c.inputs) } \cup { nd(P[k].h) : k \in 1..Len(P) } \cup UNION { {e[1], e[2]} : e \in E }
      T == Trans(E)  RT == Refl(V, T)
      inp == { nd(t) : t \in SetOf(c.inputs) }
      H == { <<nd(P[k].h), k, [l \in 1..Len(P[k].b) |-> nd(P[k].b[l])]>> : k \in 1..Len(P) } \cup { <<n, 0, <<>> >> : n \in inp }
      gotH == { <<c.hedges[k].h, c.hedges[k].i, c.hedges[k].b>> : k \in 1..Len(c.hedges) }
      roots == { n \in V : \E o \in SetOf(c.outputs) : Unifies(o, X[n]) }
      W == roots \cup { e[2] : e \in { e \in T : e[1] \in roots } }
      cls(v) == { w \in V : w = v \/ (<<v, w>> \in T /\ <<w, v>> \in T) }
      dependsOnInput(k) == \E n \in inp : <<nd(P[k].h), n>> \in RT
  IN IF ~(\A t \in atoms : (\E n \in 1..N : Covers(X[n], t)) /\ Cardinality(owners(t)) = 1)
     THEN { <<"some pattern of the program does not belong to exactly one node", X>> } ELSE
     Bad(Pairs(c.edges) = E, <<"dependency edges", Pairs(c.edges), "expected", E>>)
     \cup Bad(SetOf(c.gnodes) = V, <<"dependency nodes", c.gnodes, "expected", V>>)
     \cup Bad(gotH = H, <<"hyperedges", gotH, "expected", H>>)
     \cup Bad(c.cyclic = (\E v \in V : <<v, v>> \in T), <<"possibly_cyclic", c.cyclic>>)
     \cup Bad(c.expansive = (\E k \in 1..Len(P) : Cardinality({ l \in 1..Len(P[k].b) : <<nd(P[k].b[l]), nd(P[k].h)>> \in RT }) > 1), <<"possibly_expansive", c.expansive>>)
     \cup Bad(SetOf(c.dependent) = { k \in 1..Len(P) : dependsOnInput(k) }, <<"input-dependent rules", c.dependent>>)
     \cup Bad(SetOf(c.independent) = { k \in 1..Len(P) : ~dependsOnInput(k) }, <<"input-independent rules", c.independent>>)
     \* components reachable from the outputs, dependencies first; each with the rules that define it
     \* (with no output among the nodes everything is listed)
     \cup Bad({ SetOf(c.comps[k].nodes) : k \in 1..Len(c.comps) } = Comps(IF roots = {} THEN V ELSE W, T), <<"scc_decomposition components", c.comps>>)
     \cup Bad(DepsFirst([k \in 1..Len(c.comps) |-> c.comps[k].nodes], T), <<"scc_decomposition order", c.comps>>)
     \cup UNION { Bad(c.comps[k].rules = SetToSortSeq({ r \in 1..Len(P) : nd(P[r].h) \in SetOf(c.comps[k].nodes) }, <), <<"scc_decomposition rules", c.comps[k]>>)
                  \cup Bad(SetOf(c.comps[k].inputs) = UNION { cls(e[2]) : e \in { e \in E : e[1] \in SetOf(c.comps[k].nodes) /\ e[2] \notin SetOf(c.comps[k].nodes) } }, <<"scc_decomposition inputs", c.comps[k]>>)
                  : k \in 1..Len(c.comps) }

Verdict(c) == IF c.status # "ok" THEN { <<"status", c.status>> }
              ELSE CASE c.op = "graph" -> GraphVerdict(c)
                     [] c.op = "matrix" -> MatrixVerdict(c)
                     [] c.op = "hyper" -> HyperVerdict(c)
                     [] c.op = "prog" -> ProgVerdict(c)
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo"
        /\ i' = i
        /\ st' = LET v == Verdict(Cases[i]) IN
                 IF v = {} THEN (IF PrintT("OK|" \o ToString(i)) THEN "ok" ELSE "ok")
                 ELSE (IF PrintT("FAIL|" \o ToString(i) \o "|" \o ToString(v)) THEN "bad" ELSE "bad")
=============================================================================
