------------------------------ MODULE RandStore -----------------------------
(* What a random state must be: a well formed network on the given sites,     *)
(* with bonds no larger than asked for, not zero, within the sector asked for *)
EXTENDS Network
\* ph: the site spaces, in order
Spaces(o) == IF o.k = "op" THEN o.ph ELSE IF o.k = "one" THEN [i \in 1..o.l |-> o.ph[1]] ELSE o.ph
Charges1(dim) == {dim[i][2] : i \in {j \in 1..Len(dim) : dim[j][1] > 0}}
\* the charges that the configurations of the sites have
RECURSIVE Sums(_, _, _)
Sums(sg, phs, i) == IF i = 0 THEN {QZero(sg)} ELSE LET s == Sums(sg, phs, i - 1) IN {QAdd(sg, a, b) : a \in s, b \in Charges1(phs[i])}
Reachable(sg, phs, q) == q \in Sums(sg, phs, Len(phs))
\* sites all alike, whose charges are in regular steps, component by component
Comp(S, c) == {q[c] : q \in S}
Step1(S) == LET lo == CHOOSE x \in S : \A y \in S : x <= y  hi == CHOOSE x \in S : \A y \in S : y <= x IN
            Cardinality(S) = 1 \/ ((hi - lo) % (Cardinality(S) - 1) = 0 /\ \A k \in 0..(Cardinality(S) - 1) : lo + k * ((hi - lo) \div (Cardinality(S) - 1)) \in S)
RECURSIVE Cart(_, _)
Cart(S, c) == IF c = 0 THEN 1 ELSE Cart(S, c - 1) * Cardinality(Comp(S, c))
Regular(sg, phs) == LET S == Charges1(phs[1]) IN
  /\ \A i \in 1..Len(phs) : phs[i] = phs[1]
  /\ Cardinality(S) = Cart(S, Len(sg))
  /\ \A c \in 1..Len(sg) : IF sg[c] = 0 THEN Step1(Comp(S, c)) ELSE Cardinality(Comp(S, c)) = sg[c]
MustRefuse(sg, o) == LET phs == Spaces(o) IN Len(phs) = 0 \/ o.y = 0 \/ (o.pl = 0 /\ ~Reachable(sg, phs, o.q))
MayRefuse(sg, o) == o.pl = 0 /\ ~Regular(sg, Spaces(o))
Fails(sg, o, g) ==
  LET phs == Spaces(o)  n == Len(g.ts) IN
  IF n # Len(phs) THEN "length"
  ELSE IF \E i \in 1..n : g.ts[i].ck # 1 THEN "accessors disagree"
  ELSE IF ~Formed(sg, "S", g.ts) THEN "bonds do not fit"
  ELSE IF \E i \in 1..n : g.ts[i].d[2] # phs[i] THEN "site space"
  ELSE IF DimSize(g.ts[1].d[1]) # 1 \/ DimSize(g.ts[n].d[3]) # 1 THEN "open boundaries"
  ELSE IF \E i \in 1..n : DimSize(g.ts[i].d[3]) > o.y THEN "bond too large"
  ELSE IF \E i \in 1..n : g.ts[i].t # (IF o.c = 1 THEN "c" ELSE "d") THEN "type"
  ELSE IF g.nz # 1 THEN "zero"
  ELSE IF g.oc < 0 \/ g.oc >= n THEN "center"
  \* whatever configuration has a non-zero amplitude, its charge is this one
  ELSE IF o.pl = 0 /\ FoldLeft(LAMBDA acc, i : QAdd(sg, acc, g.ts[i].s), QZero(sg), [i \in 1..n |-> i])
             # QAdd(sg, o.q, QAdd(sg, g.ts[1].d[1][1][2], g.ts[n].d[3][1][2])) THEN "sector"
  ELSE ""
=============================================================================
