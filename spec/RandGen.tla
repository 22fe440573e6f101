------------------------------ MODULE RandGen -------------------------------
(* Random requests for random states.                                         *)
EXTENDS RandStore, NetRand
VARIABLES sg, n, last
vars == <<sg, n, last>>
Init == n = 0 /\ sg = <<0>> /\ last = <<>>
Begin == \E s \in Rnd(Sigs) : sg' = s /\ n' = 1 /\ last' = [op |-> "begin", sg |-> s]
Do(oo) == \E o \in {oo} : n' = n + 1 /\ sg' = sg /\ last' = o
\* sections of charges in regular steps
RECURSIVE Grid(_, _)
Grid(axes, c) == IF c = 0 THEN << <<>> >> ELSE LET g == Grid(axes, c - 1)  a == axes[c] IN
   [k \in 1..(Len(g) * Len(a)) |-> Append(g[1 + ((k - 1) \div Len(a))], a[1 + ((k - 1) % Len(a))])]
Axis(m) == TLCEval(IF m > 0 THEN LET s == RandomElement(0..(m - 1)) IN [i \in 1..m |-> (s + i) % m]
           ELSE LET lo == RandomElement(-3..3)  st == RandomElement({1, 1, 2, 3})  k == RandomElement(1..3) IN
                IF Chance(50) THEN [i \in 1..k |-> lo + st * (i - 1)] ELSE [i \in 1..k |-> lo - st * (i - 1)])
RegularDim(x) == TLCEval(LET g == Grid([c \in 1..Len(sg) |-> Axis(sg[c])], Len(sg)) IN [i \in 1..Len(g) |-> <<RandomElement(1..2), g[i]>>])
IrregularDim(x) == TLCEval(LET m == RandomElement(1..4) IN [i \in 1..m |-> <<RandomElement(1..2), IF Chance(20) THEN [c \in 1..Len(sg) |-> IF sg[c] = 0 THEN RandomElement(-5..5) ELSE RandomElement(0..(sg[c] - 1))] ELSE RQ(sg)>>])
RDim1(x) == IF Chance(60) THEN RegularDim(0) ELSE IrregularDim(0)
RLen(x) == RS(<<0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 33>>)
RBig(x) == RS(<<0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 30>>)
\* the charge of some configuration, or any charge
RECURSIVE Pick(_, _)
Pick(phs, i) == IF i = 0 THEN QZero(sg) ELSE QAdd(sg, Pick(phs, i - 1), RS(phs[i])[2])
Extreme(phs) == TLCEval(LET d == phs[1]  e == RS(d)[2] IN FoldLeft(LAMBDA acc, i : QAdd(sg, acc, e), QZero(sg), [i \in 1..Len(phs) |-> i]))
Target(phs) == TLCEval(LET c == RandomElement(1..100) IN
   IF Len(phs) = 0 THEN RQ(sg) ELSE IF c <= 60 THEN Pick(phs, Len(phs)) ELSE IF c <= 75 THEN Extreme(phs) ELSE IF c <= 88 THEN QAdd(sg, Pick(phs, Len(phs)), RQ(sg)) ELSE QAdd(sg, Extreme(phs), RQ(sg)))
PlainSites(x) == TLCEval([i \in 1..x |-> PlainDim(sg, RandomElement(1..4))])
RPhys(k, pl, l) == TLCEval(IF pl = 1 THEN PlainSites(IF k = "one" THEN 1 ELSE l)
   ELSE IF k = "one" THEN <<RDim1(0)>>
   ELSE IF Chance(50) THEN LET d == RDim1(0) IN [i \in 1..l |-> d]
   ELSE LET d == RDim1(0)  e == RDim1(1) IN [i \in 1..l |-> IF Chance(50) THEN d ELSE IF Chance(70) THEN e ELSE RDim1(2)])
Go(k, pl, l, ph, ts) == \E q \in {IF pl = 1 THEN QZero(sg) ELSE Target(IF k = "one" THEN [i \in 1..l |-> ph[1]] ELSE ph)} : \E y \in {RBig(0)} :
   Do([op |-> "random", k |-> k, pl |-> pl, l |-> l, ph |-> ph, ts |-> ts, q |-> q, y |-> IF l > 12 THEN Min2(y, 8) ELSE y, c |-> RS(<<0, 0, 1>>), m |-> RandomElement(0..3), x |-> RandomElement(0..1000000)])
ERandom == \E k \in {RS(<<"one", "one", "list", "list", "op">>)} : \E pl \in {RS(<<0, 0, 0, 1>>)} : \E l \in {IF k = "op" THEN RS(<<0, 1, 2, 2, 3, 3, 4>>) ELSE RLen(0)} :
   IF k # "op" THEN \E ph \in {RPhys(k, pl, l)} : Go(k, pl, l, ph, <<>>)
   ELSE \E ph0 \in {TLCEval(LET d == RSiteDim(sg, pl, 3) IN [i \in 1..l |-> IF Chance(60) THEN d ELSE RSiteDim(sg, pl, 3)])} :
        \E ts \in {IF l = 0 THEN <<>> ELSE RNet("O", sg, pl, ph0, FALSE, 70, 2, 2, FALSE, FALSE)} : Go(k, pl, l, ph0, ts)
Step == /\ IF last = <<>> THEN TRUE ELSE PrintT(ToJson(last))
        /\ ERandom
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
