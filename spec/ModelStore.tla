----------------------------- MODULE ModelStore -----------------------------
(* The model hamiltonians, as operators on the configurations of the chain,   *)
(* and the local operators they are made of.  A configuration is a sequence   *)
(* of site states counted from 0: up, down for a spin; empty, up, down, both  *)
(* for a fermionic site.  Couplings are given in quarters.                    *)
EXTENDS Network
LocalDim(name) == IF name = "heis" THEN 2 ELSE 4
Same0(x, y, S) == \A i \in 1..Len(x) : i \in S \/ x[i] = y[i]
---------------------------------------------------------------------------
\* H = -J sum S_i . S_i+1,  times 16 with J = j / 4
Swapped(y, i) == [y EXCEPT ![i] = y[i + 1], ![i + 1] = y[i]]
SumOver(n, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
HeisElement(x, y, j) ==
  SumOver(Len(x) - 1, LAMBDA i : (IF x = y THEN (IF x[i] = x[i + 1] THEN -j ELSE j) ELSE 0)
                                 + (IF y[i] # y[i + 1] /\ x = Swapped(y, i) THEN -2 * j ELSE 0))
---------------------------------------------------------------------------
\* H = sum_{i,s} (c+_{i,s} c_{i+1,s} + h.c.) + U sum n_up n_dn - mu sum (n_up + n_dn),  times 4
\* modes in the order (1,up), (1,dn), (2,up) ...
Up(c) == c % 2
Dn(c) == c \div 2
Modes(y) == [m \in 1..(2 * Len(y)) |-> IF m % 2 = 1 THEN Up(y[(m + 1) \div 2]) ELSE Dn(y[m \div 2])]
Before(n, m) == FoldLeft(LAMBDA acc, k : acc + n[k], 0, [k \in 1..(m - 1) |-> k])
SignOf(k) == IF k % 2 = 0 THEN 1 ELSE -1
\* <x| c+_a c_b |y>, x and y given by their modes
Hop(x, y, a, b) ==
  IF y[b] = 0 THEN 0 ELSE
  LET y1 == [y EXCEPT ![b] = 0] IN
  IF y1[a] = 1 THEN 0 ELSE IF x # [y1 EXCEPT ![a] = 1] THEN 0 ELSE SignOf(Before(y, b)) * SignOf(Before(y1, a))
HubElement(x, y, u, mu) ==
  LET mx == Modes(x)  my == Modes(y) IN
  (IF x = y THEN SumOver(Len(x), LAMBDA i : u * Up(x[i]) * Dn(x[i]) - mu * (Up(x[i]) + Dn(x[i]))) ELSE 0)
  + 4 * SumOver(2 * Len(x) - 2, LAMBDA m : Hop(mx, my, m, m + 2) + Hop(mx, my, m + 2, m))
Element(o, x, y) == IF o.name = "heis" THEN HeisElement(x, y, o.p[1]) ELSE HubElement(x, y, o.p[1], o.p[2])
---------------------------------------------------------------------------
\* local operators, row major
Sx == <<0, 1, 1, 0>>
ISy == <<0, 1, -1, 0>>
Sz == <<1, 0, 0, -1>>
Lo == <<0, 1, 0, 0>>
Ident(n) == [k \in 1..(n * n) |-> IF ((k - 1) \div n) = ((k - 1) % n) THEN 1 ELSE 0]
\* the operators of the fermions on a site of their own
OneMode(f(_, _)) == [k \in 1..16 |-> f(Modes(<<(k - 1) \div 4>>), Modes(<<(k - 1) % 4>>))]
Lower(x, y, m) == IF y[m] = 1 /\ x = [y EXCEPT ![m] = 0] THEN SignOf(Before(y, m)) ELSE 0
CUp == OneMode(LAMBDA x, y : Lower(x, y, 1))
CDn == OneMode(LAMBDA x, y : Lower(x, y, 2))
Phase == OneMode(LAMBDA x, y : IF x = y THEN SignOf(x[1] + x[2]) ELSE 0)
Operators(o) == IF o.name = "heis" THEN (IF o.pl = 1 THEN <<Sx, ISy, Sz, Lo, Ident(2)>> ELSE <<Sz, Lo, Ident(2)>>)
                ELSE <<CUp, CDn, Phase, Ident(4)>>
---------------------------------------------------------------------------
Charge(ph, k) == ElemBlocks(<<ph>>)
\* the charge of every state of a site
RECURSIVE Spread(_)
Spread(ph) == IF ph = <<>> THEN <<>> ELSE [i \in 1..Head(ph)[1] |-> Head(ph)[2]] \o Spread(Tail(ph))
\* the one charge which all nonzero elements of an operator carry: out - in
CarriedBy(sg, q, v) == LET n == Len(q) IN {QSub(sg, q[1 + ((k - 1) \div n)], q[1 + ((k - 1) % n)]) : k \in {j \in 1..Len(v) : v[j] # 0}}
Definite(sg, ph, vs) == LET q == Spread(ph) IN Len(q) * Len(q) = Len(vs[1]) /\ \A i \in 1..Len(vs) : Cardinality(CarriedBy(sg, q, vs[i])) = 1
\* removing an electron takes away the same charge whether or not another one is there
HubCharges(sg, ph) == LET q == Spread(ph) IN QAdd(sg, q[4], q[1]) = QAdd(sg, q[2], q[3])
Refused(sg, o) ==
  \/ o.op = "model" /\ (o.l = 0 \/ (o.sc = 0 /\ o.rk > 0 /\ (o.name = "hub" \/ o.rk = 1)))
  \/ /\ o.pl = 0
     /\ \/ DimSize(o.ph) # LocalDim(o.name)
        \/ o.op = "model" /\ o.name = "hub" /\ o.l >= 2 /\ ~HubCharges(sg, o.ph)
        \/ o.op = "ops" /\ ~Definite(sg, o.ph, Operators(o))
Uncharged(sg, n) == << <<n, QZero(sg)>> >>
Site(sg, o) == IF o.pl = 1 THEN Uncharged(sg, LocalDim(o.name)) ELSE o.ph
\* what is wrong with the answer g to the call o
Fails(sg, o, g) ==
  LET ph == Site(sg, o)  n == Len(g.ts) IN
  IF \E i \in 1..n : g.ts[i].ck # 1 THEN "accessors disagree"
  ELSE IF o.op = "model" THEN
    IF n # o.l THEN "length"
    ELSE IF ~Formed(sg, "O", g.ts) THEN "bonds do not fit"
    ELSE IF \E i \in 1..n : g.ts[i].d[2] # ph \/ g.ts[i].d[4] # InvertDim(sg, ph) THEN "site space"
    ELSE IF DimSize(g.ts[1].d[1]) # 1 \/ DimSize(g.ts[n].d[3]) # 1 THEN "open boundaries"
    ELSE IF "me" \notin DOMAIN g THEN ""
    ELSE IF FoldLeft(LAMBDA acc, i : QAdd(sg, acc, g.ts[i].s), QZero(sg), [i \in 1..n |-> i]) # QAdd(sg, Spread(g.ts[1].d[1])[1], Spread(g.ts[n].d[3])[1]) THEN "total charge"
    ELSE IF Len(g.me) # Len(o.es) THEN "shape of the elements"
    ELSE LET bad == {i \in 1..Len(g.me) : g.me[i] # Element(o, o.es[i][1], o.es[i][2])} IN IF bad = {} THEN "" ELSE "element"
  ELSE LET vs == Operators(o)  q == Spread(ph) IN
    IF n # Len(vs) THEN "number of operators"
    ELSE IF \E i \in 1..n : g.ts[i].d # <<ph, InvertDim(sg, ph)>> THEN "space of the operators"
    ELSE IF o.pl = 0 /\ \E i \in 1..n : {g.ts[i].s} # CarriedBy(sg, q, vs[i]) THEN "charge of the operators"
    ELSE IF g.me # FoldLeft(LAMBDA acc, v : acc \o v, <<>>, vs) THEN "element" ELSE ""
=============================================================================
