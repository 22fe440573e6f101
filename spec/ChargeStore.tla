----------------------------- MODULE ChargeStore -----------------------------
(* A store of type-erased charges.  A charge is [g: signature, q: canonical  *)
(* value].  Outcome(reg, o) is the meaning of call o on store reg: the new   *)
(* store and the reported value, or a refusal.                               *)
EXTENDS Charges, FiniteSets, SequencesExt, TLC

NR == 5
Ch(g, q) == [g |-> g, q |-> q]
Trivial == Ch(<<1>>, <<0>>)
Lim == 32767
InRange(c) == \A i \in 1..Len(c.g) : c.g[i] # 0 \/ c.q[i] \in (-Lim)..Lim

B01(p) == IF p THEN 1 ELSE 0
\* squared distance; -1 stands for more than 4e8 (32 bit integers)
D2(a, b) == LET far == \E i \in 1..Len(a.q) : a.q[i] - b.q[i] \notin (-20000)..20000
                d == FoldLeftDomain(LAMBDA s, i : s + (a.q[i] - b.q[i]) * (a.q[i] - b.q[i]), 0, a.q)
            IN IF far THEN -1 ELSE IF d > 400000000 THEN -1 ELSE d
Rel(a, b) == <<B01(a.q = b.q), B01(a.q # b.q), B01(QLess(a.q, b.q)), B01(QLess(b.q, a.q))>>
Mul(a, b) == Ch(a.g, QAdd(a.g, a.q, b.q))
Inv(a) == Ch(a.g, QNeg(a.g, a.q))

Set1(reg, i, c) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = c], r |-> <<>>]
Val(reg, r) == [k |-> "ok", reg |-> reg, r |-> r]
Refused(reg) == [k |-> "ex", reg |-> reg, r |-> <<>>]

\* every public function of a concrete product, for the representatives p and q
PairRec(g, p, q) ==
  LET a == Ch(g, QNorm(g, p))  b == Ch(g, QNorm(g, q))  c == Mul(a, b).q IN
  [v |-> <<a.q, b.q>>, c |-> [i \in 1..13 |-> c], k |-> <<a.q>>, i |-> [i \in 1..4 |-> Inv(a).q],
   n |-> [i \in 1..2 |-> QZero(g)], s |-> <<a.q, b.q>>, r |-> Rel(a, b), d |-> [i \in 1..2 |-> D2(a, b)],
   z |-> <<c, a.q, Mul(a, a).q>>]
\* the same for the first simple group of the product alone
GrpRec(g0, p0, q0) ==
  LET g == <<g0[1]>>  a == Ch(g, QNorm(g, <<p0[1]>>))  b == Ch(g, QNorm(g, <<q0[1]>>))  c == Mul(a, b).q[1] IN
  [v |-> <<a.q[1], b.q[1]>>, c |-> [i \in 1..7 |-> c], k |-> <<a.q[1]>>, i |-> [i \in 1..2 |-> Inv(a).q[1]],
   n |-> <<0>>, s |-> <<b.q[1], a.q[1]>>, r |-> Rel(a, b), d |-> [i \in 1..4 |-> D2(a, b)],
   z |-> <<c, a.q[1], Mul(a, a).q[1]>>]

Outcome(reg, o) ==
  LET A == reg[o.a]  B == reg[o.b]  same == A.g = B.g IN
  CASE o.op = "make"    -> Set1(reg, o.dst, Ch(o.g, QNorm(o.g, o.r)))
    [] o.op = "trivial" -> Set1(reg, o.dst, Trivial)
    [] o.op = "copy"    -> Set1(reg, o.dst, A)
    [] o.op = "mul"     -> IF same THEN Set1(reg, o.dst, Mul(A, B)) ELSE Refused(reg)
    [] o.op = "mul_"    -> IF same THEN Set1(reg, o.a, Mul(A, B)) ELSE Refused(reg)
    [] o.op = "opif"    -> IF same THEN Set1(reg, o.a, IF o.x = 1 THEN Mul(A, B) ELSE A) ELSE Refused(reg)
    [] o.op = "inv"     -> Set1(reg, o.dst, Inv(A))
    [] o.op = "inv_"    -> Set1(reg, o.a, Inv(A))
    [] o.op = "neutral" -> Set1(reg, o.dst, Ch(A.g, QZero(A.g)))
    [] o.op = "swap"    -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = B, ![o.b] = A], r |-> <<>>]
    [] o.op = "swapref" -> IF same THEN [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = B, ![o.b] = A], r |-> <<>>] ELSE Refused(reg)
    [] o.op = "setref"  -> IF same THEN Set1(reg, o.a, B) ELSE Refused(reg)
    [] o.op = "rel"     -> IF same THEN Val(reg, Rel(A, B) \o [i \in 1..4 |-> D2(A, B)]) ELSE Refused(reg)
    [] o.op = "same"    -> Val(reg, <<B01(same), B01(same)>>)
    [] o.op = "vec"     -> Val(reg, [i \in 1..o.x |-> A.q])
    [] o.op = "pair"    -> Val(reg, PairRec(o.g, o.p, o.q))
    [] o.op = "grp"     -> Val(reg, GrpRec(o.g, o.p, o.q))
=============================================================================
