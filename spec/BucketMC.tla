------------------------------- MODULE BucketMC --------------------------------
(* The concrete bucket machine (D, Q, N) refines the abstract map. *)
EXTENDS BucketQueue
Items == {"a", "b", "c"}
Pri == -2..2
VARIABLES D, Q, N, out, pre
vars == <<D, Q, N, out, pre>>
NoN == 99
Init == D = [x \in {} |-> 0] /\ Q = [p \in {} |-> {}] /\ N = NoN /\ out = <<"none">> /\ pre = D

DelQ(x) == LET b == Q[D[x]] \ {x} IN
           IF b = {} THEN [p \in DOMAIN Q \ {D[x]} |-> Q[p]] ELSE [Q EXCEPT ![D[x]] = b]
SetOp(x, p) ==
  LET Q1 == IF x \in DOMAIN D THEN DelQ(x) ELSE Q IN
  /\ N' = IF DOMAIN Q1 = {} \/ p < N THEN p ELSE N
  /\ Q' = [r \in DOMAIN Q1 \cup {p} |-> IF r = p THEN (IF p \in DOMAIN Q1 THEN Q1[p] ELSE {}) \cup {x} ELSE Q1[r]]
  /\ D' = Put(D, x, p) /\ out' = <<"set", x, p>> /\ pre' = D
DelOp(x) == /\ x \in DOMAIN D /\ Q' = DelQ(x) /\ D' = Drop(D, x) /\ UNCHANGED N /\ out' = <<"del", x>> /\ pre' = D
RECURSIVE Up(_)
Up(n) == IF n \in DOMAIN Q THEN n ELSE Up(n + 1)
PopOp == /\ DOMAIN Q # {}
         /\ \E x \in Q[Up(N)] : /\ Q' = DelQ(x) /\ D' = Drop(D, x) /\ N' = Up(N) /\ out' = <<"pop", x, Up(N)>> /\ pre' = D
Next == (\E x \in Items : (\E p \in Pri : SetOp(x, p)) \/ DelOp(x)) \/ PopOp
TypeOK == /\ \A x \in DOMAIN D : D[x] \in DOMAIN Q /\ x \in Q[D[x]]
          /\ \A p \in DOMAIN Q : Q[p] # {} /\ \A x \in Q[p] : x \in DOMAIN D /\ D[x] = p
LowerBound == DOMAIN Q # {} => \A p \in DOMAIN Q : N <= p
Refines == /\ out[1] = "pop" => Least(pre, out[2]) /\ out[3] = pre[out[2]] /\ D = Drop(pre, out[2])
           /\ out[1] = "set" => D = Put(pre, out[2], out[3])
=============================================================================
