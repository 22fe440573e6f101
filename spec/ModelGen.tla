------------------------------ MODULE ModelGen ------------------------------
(* Random calls of the model and operator constructors.                       *)
EXTENDS ModelStore, NetRand
VARIABLES sg, n, last
vars == <<sg, n, last>>
Init == n = 0 /\ sg = <<0>> /\ last = <<>>
Begin == \E s \in Rnd(Sigs) : sg' = s /\ n' = 1 /\ last' = [op |-> "begin", sg |-> s]
Do(oo) == \E o \in {oo} : n' = n + 1 /\ sg' = sg /\ last' = o
\* neighbouring states of one charge are sometimes one section
Merged(qs, x) == FoldLeft(LAMBDA acc, q : IF acc # <<>> /\ acc[Len(acc)][2] = q /\ Chance(60) THEN [acc EXCEPT ![Len(acc)][1] = @ + 1] ELSE Append(acc, <<1, q>>), <<>>, qs)
Fermi(x) == TLCEval(LET e == RQ(sg)  u == RQ(sg)  d == IF Chance(50) THEN u ELSE RQ(sg) IN
   <<e, QAdd(sg, e, u), QAdd(sg, e, d), IF Chance(80) THEN QAdd(sg, QAdd(sg, e, u), d) ELSE RQ(sg)>>)
Phys(name) == TLCEval(LET c == RandomElement(1..100) IN
   IF c <= 6 THEN Merged([i \in 1..RandomElement(1..5) |-> RQ(sg)], 0)
   ELSE Merged(IF name = "heis" THEN <<RQ(sg), RQ(sg)>> ELSE Fermi(0), 0))
\* configurations
RConf(d, l) == TLCEval([i \in 1..l |-> RandomElement(0..(d - 1))])
HopSite(y, i, m) ==        \* an electron or a spin moves between i and i + 1
  TLCEval(LET c == Modes(y)  a == 2 * i - m  b == a + 2
              z == [c EXCEPT ![a] = c[b], ![b] = c[a]] IN [k \in 1..Len(y) |-> z[2 * k - 1] + 2 * z[2 * k]])
RECURSIVE Walk(_, _, _)
Walk(d, y, k) == IF k = 0 \/ Len(y) < 2 THEN y ELSE
  Walk(d, TLCEval(LET i == RandomElement(1..(Len(y) - 1)) IN IF d = 2 THEN Swapped(y, i) ELSE HopSite(y, i, RandomElement(0..1))), k - 1)
Changed(d, y) == TLCEval(LET i == RandomElement(1..Len(y)) IN [y EXCEPT ![i] = RandomElement(0..(d - 1))])
RElement(d, l) == TLCEval(LET y == RConf(d, l)  c == RandomElement(1..100) IN
   << IF c <= 20 THEN y ELSE IF c <= 75 THEN Walk(d, y, 1) ELSE IF c <= 85 THEN Walk(d, y, 2) ELSE IF c <= 93 THEN Changed(d, y) ELSE RConf(d, l), y >>)
Conf(k, d, l) == LET st == Strides([i \in 1..l |-> d]) IN [i \in 1..l |-> (k \div st[i]) % d]
\* short chains are seen completely
REs(d, l) == IF l = 0 THEN <<>> ELSE LET p == d ^ Min2(l, 4) IN
   IF (l <= 4 /\ p * p <= 64) \/ (l <= 4 /\ p * p <= 256 /\ Chance(50)) \/ (l <= 4 /\ p * p <= 4096 /\ Chance(5)) THEN [k \in 1..(p * p) |-> <<Conf((k - 1) \div p, d, l), Conf((k - 1) % p, d, l)>>]
   ELSE [k \in 1..60 |-> RElement(d, l)]
RLen(x) == RS(<<0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9, 12, 17, 26, 50>>)
RPar(x) == RS(<<0, 1, -1, 4, -4, 8, 2, RandomElement(-40..40), RandomElement(-400..400)>>)
EModel == \E nm \in {RS(<<"heis", "hub">>)} : \E pl \in {RS(<<0, 0, 1>>)} : \E l \in {RLen(0)} : \E rk \in {RS(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2>>)} : \E sc \in {RandomElement(0..1)} :
   \E o \in {[op |-> "model", name |-> nm, pl |-> pl, l |-> l, rk |-> rk, sc |-> sc, p |-> <<RPar(0), RPar(1)>>, ph |-> Phys(nm), s |-> IF Chance(80) THEN QZero(sg) ELSE RQ(sg)]} :
   \E w \in {IF Refused(sg, o) THEN 0 ELSE 1} :
   Do(o @@ [wf |-> w, es |-> IF w = 1 THEN REs(LocalDim(nm), l) ELSE <<>>])
EOps == \E nm \in {RS(<<"heis", "hub">>)} : \E pl \in {RS(<<0, 0, 0, 1>>)} :
   Do([op |-> "ops", name |-> nm, pl |-> pl, l |-> 0, rk |-> 0, sc |-> 0, p |-> <<0, 0>>, ph |-> Phys(nm), s |-> QZero(sg), wf |-> 0, es |-> <<>>])
Step == /\ IF last = <<>> THEN TRUE ELSE PrintT(ToJson(last))
        /\ (EModel \/ EModel \/ EOps)
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
