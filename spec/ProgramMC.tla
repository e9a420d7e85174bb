------------------------------- MODULE ProgramMC --------------------------------
(***************************************************************************)
(* The program object with its incrementally maintained index by functor,    *)
(* its index of constant rules and its cached reads, next to the plain       *)
(* sequence of rules it stands for (abs).                                    *)
(***************************************************************************)
EXTENDS ProgramOps
CONSTANT MaxLen
S == [k |-> "sat", n |-> 2]
A == <<"a">>  FX == <<"f", VarT("X")>>  FC == <<"f", <<"c">>>>  B == <<"b">>
Heads == {A, FX, VarT("Z")}
Bodies == { <<>>, << <<"%", 0>> >>, << <<"%", 1>> >>, << <<"%", 2>> >>, << B >>, << <<"%", 2>>, B, <<"%", 1>> >>, << <<"%", 0>>, B >> }
Raw == { [h |-> h, b |-> b] : h \in Heads, b \in Bodies }
\* programs are also born with rules that were never folded or merged
Births == { <<>> } \cup { <<r>> : r \in Raw } \cup { <<[h |-> A, b |-> <<>>], [h |-> A, b |-> << <<"%", 2>> >>]>>, <<[h |-> FX, b |-> <<B>>], [h |-> FX, b |-> << <<"%", 1>>, <<"%", 1>> >>]>> }
Fs == {"a", "f", "?"}

VARIABLES rules, f2r, bucket, cache, abs
vars == <<rules, f2r, bucket, cache, abs>>
Off == [on |-> FALSE, v |-> <<>>]
Init == rules \in Births /\ abs = rules /\ f2r = Off /\ bucket = Off /\ cache = Off
Made(rs) == [h \in Heads |-> FirstConst(S, rs, h)]
Indexed(ix, i, h) == [f \in Fs |-> IF IsVar(h) \/ f = h[1] THEN Append(ix[f], i) ELSE ix[f]]
IxOf(rs) == [f \in Fs |-> ByFunctor(rs, f)]

Add(r, b) == /\ rules' = Append(rules, r)
             /\ f2r' = IF f2r.on THEN [f2r EXCEPT !.v = Indexed(f2r.v, Len(rules) + 1, r.h)] ELSE f2r
             /\ bucket' = [on |-> TRUE, v |-> b] /\ cache' = Off
Upd(r0) ==
  /\ Len(rules) < MaxLen
  /\ abs' = Update(S, abs, r0)
  /\ LET F == Folded(S, r0)  b == IF bucket.on THEN bucket.v ELSE Made(rules) IN
     IF F = {} THEN UNCHANGED <<rules, f2r, bucket, cache>> ELSE
     LET r == CHOOSE r \in F : TRUE  c == ConstRhs(S, r) IN
     IF c = <<>> THEN Add(r, b)
     ELSE IF b[r.h] = 0 THEN Add(r, [b EXCEPT ![r.h] = Len(rules) + 1])
     ELSE /\ rules' = [rules EXCEPT ![b[r.h]] = [h |-> @.h, b |-> << <<"%", Plus(S, ConstRhs(S, @)[1], c[1])>> >>]]
          /\ bucket' = [on |-> TRUE, v |-> b] /\ cache' = Off /\ UNCHANGED f2r
Pop(i) == /\ i \in 1..Len(rules) /\ rules' = DropAt(rules, i) /\ abs' = DropAt(abs, i) /\ f2r' = Off /\ bucket' = Off /\ cache' = Off
ReadIndex == f2r' = (IF f2r.on THEN f2r ELSE [on |-> TRUE, v |-> IxOf(rules)]) /\ UNCHANGED <<rules, bucket, cache, abs>>
ReadCached == cache' = (IF cache.on THEN cache ELSE [on |-> TRUE, v |-> rules]) /\ UNCHANGED <<rules, f2r, bucket, abs>>
Next == (\E r \in Raw : Upd(r)) \/ (\E i \in 1..MaxLen : Pop(i)) \/ ReadIndex \/ ReadCached
Spec == Init /\ [][Next]_vars

Coherent == rules = abs
IndexRight == f2r.on => f2r.v = IxOf(rules)
BucketRight == bucket.on => bucket.v = Made(rules)
CacheRight == cache.on => cache.v = rules
LookupByIndex == f2r.on => \A q \in {A, FX, FC, <<"g">>} :
   LET L == Lookup(rules, q) IN \A n \in 1..Len(L) : \E j \in 1..Len(f2r.v[IF q[1] \in Fs THEN q[1] ELSE "?"]) : f2r.v[IF q[1] \in Fs THEN q[1] ELSE "?"][j] = L[n].i + 1
=============================================================================
