------------------------------ MODULE ChargeMC ------------------------------
(* The laws of the charge group, exhaustively over small representatives,    *)
(* and the store of charges under every history of in-place operations.      *)
EXTENDS ChargeStore
CONSTANTS Sgs, W
Simple == {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>}
Products == {<<2, 0>>, <<2, 3>>}
Triples == {<<2, 0, 3>>}
VARIABLES g, a, b, c, st
vars == <<g, a, b, c, st>>
Tuples(n) == [1..n -> (-W)..W]
Init == g \in Sgs /\ a \in Tuples(Len(g)) /\ b \in Tuples(Len(g)) /\ c \in Tuples(Len(g)) /\ st = 0
Next == st = 0 /\ st' = 1 /\ UNCHANGED <<g, a, b, c>>
Spec == Init /\ [][Next]_vars
A == QNorm(g, a)  B == QNorm(g, b)  C == QNorm(g, c)
Group == /\ QIsCanon(g, A) /\ QIsCanon(g, QAdd(g, A, B)) /\ QIsCanon(g, QNeg(g, A))
         /\ QAdd(g, A, B) = QAdd(g, B, A)
         /\ QAdd(g, QAdd(g, A, B), C) = QAdd(g, A, QAdd(g, B, C))
         /\ QAdd(g, A, QZero(g)) = A /\ QAdd(g, A, QNeg(g, A)) = QZero(g)
         /\ QNeg(g, QAdd(g, A, B)) = QAdd(g, QNeg(g, A), QNeg(g, B))
         /\ QNorm(g, A) = A
\* normalisation is a morphism: the representative does not matter
Canonical == /\ QNorm(g, [i \in 1..Len(g) |-> a[i] + b[i]]) = QAdd(g, A, B)
             /\ QNorm(g, [i \in 1..Len(g) |-> -a[i]]) = QNeg(g, A)
             /\ (A = B) <=> (\A i \in 1..Len(g) : IF g[i] = 0 THEN a[i] = b[i] ELSE (a[i] - b[i]) % g[i] = 0)
Order == /\ ~QLess(A, A)
         /\ (QLess(A, B) /\ QLess(B, C)) => QLess(A, C)
         /\ Cardinality({x \in {"l", "e", "g"} : CASE x = "l" -> QLess(A, B) [] x = "e" -> A = B [] x = "g" -> QLess(B, A)}) = 1
Metric == LET d(x, y) == D2(Ch(g, x), Ch(g, y)) IN d(A, B) = d(B, A) /\ ((d(A, B) = 0) <=> (A = B))
=============================================================================
