------------------------------ MODULE Charges ------------------------------
(* Conserved charges.  A charge type is a signature: a sequence of moduli,   *)
(* 0 meaning the integers.  A charge is a sequence of integers of the same   *)
(* length, canonical when every component of modulus N > 0 is in 0..N-1.     *)
EXTENDS Integers, Sequences

QNorm(sg, q) == [i \in 1..Len(sg) |-> IF sg[i] = 0 THEN q[i] ELSE q[i] % sg[i]]
QZero(sg)    == [i \in 1..Len(sg) |-> 0]
QAdd(sg, a, b) == [i \in 1..Len(sg) |-> IF sg[i] = 0 THEN a[i] + b[i] ELSE (a[i] + b[i]) % sg[i]]
QNeg(sg, a)  == [i \in 1..Len(sg) |-> IF sg[i] = 0 THEN -a[i] ELSE (-a[i]) % sg[i]]
QSub(sg, a, b) == QAdd(sg, a, QNeg(sg, b))
QIsCanon(sg, q) == /\ Len(q) = Len(sg)
                   /\ \A i \in 1..Len(sg) : sg[i] = 0 \/ q[i] \in 0..(sg[i]-1)

RECURSIVE QLess(_, _)
\* lexicographic strict order
QLess(a, b) == IF a = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1]
               ELSE QLess(Tail(a), Tail(b))
=============================================================================
