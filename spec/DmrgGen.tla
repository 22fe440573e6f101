------------------------------ MODULE DmrgGen --------------------------------
(* Random ground state searches.  Operators are sums of a neutral hermitian   *)
(* term on every site and of terms on two sites, with their conjugates, put   *)
(* in network form by an automaton: the bonds remember what is left to do.    *)
(* Kind: "protocol" (longer chains, all options) or "value" (small chains)    *)
EXTENDS DmrgStore, NetRand
CONSTANT Kind
VARIABLES sg, n, last
vars == <<sg, n, last>>
Init == n = 0 /\ sg = <<0>> /\ last = <<>>
Begin == \E s \in Rnd(Sigs) : sg' = s /\ n' = 1 /\ last' = [op |-> "begin", sg |-> s]
Do(oo) == \E o \in {oo} : n' = n + 1 /\ sg' = sg /\ last' = o
---------------------------------------------------------------------------
\* matrices on a site are sequences of complex entries, row (out) major
Size(dim) == DimSize(dim)
ZeroM(d) == [k \in 1..(d * d) |-> <<0, 0>>]
IdM(d) == [k \in 1..(d * d) |-> IF (k - 1) \div d = (k - 1) % d THEN <<1, 0>> ELSE <<0, 0>>]
Adj(m, d) == [k \in 1..(d * d) |-> CConj(m[((k - 1) % d) * d + ((k - 1) \div d) + 1])]
REnt(cx, mx) == <<REntry(mx), IF cx THEN RandomElement(-1..1) ELSE 0>>
\* elements with out charge - in charge = c
RMat(dim, c, cx, dens, mx) == TLCEval(LET q == ElemQ(dim)  d == Len(q) IN
   [k \in 1..(d * d) |-> IF QSub(sg, q[1 + ((k - 1) \div d)], q[1 + ((k - 1) % d)]) = c /\ Chance(dens) THEN REnt(cx, mx) ELSE <<0, 0>>])
RHerm(dim, cx, dens, mx) == TLCEval(LET m == RMat(dim, QZero(sg), cx, dens, mx)  d == Size(dim) IN
   [k \in 1..(d * d) |-> LET r == (k - 1) \div d  c == (k - 1) % d IN
        IF r = c THEN <<m[k][1], 0>> ELSE IF r < c THEN m[k] ELSE CConj(m[c * d + r + 1])])
\* a charge that can move from one site to another
RMove(d1, d2) == TLCEval(LET D(dim) == {QSub(sg, ElemQ(dim)[i], ElemQ(dim)[j]) : i, j \in 1..Size(dim)}
                             both == {c \in D(d1) : QNeg(sg, c) \in D(d2)} IN IF both = {} THEN QZero(sg) ELSE RandomElement(both))
\* a term: from site i to site j, and its conjugate
RTerm(ph, i, j, cx, mx) == TLCEval(LET c == RMove(ph[i], ph[j])  A == RMat(ph[i], c, cx, 70, mx)  B == RMat(ph[j], QNeg(sg, c), cx, 70, 1) IN
   IF c = QZero(sg) /\ Chance(50) THEN LET P == RHerm(ph[i], cx, 80, mx)  Q == RHerm(ph[j], cx, 80, 1) IN << [i |-> i, j |-> j, A |-> P, B |-> Q, c |-> c] >>
   ELSE << [i |-> i, j |-> j, A |-> A, B |-> B, c |-> c],
           [i |-> i, j |-> j, A |-> Adj(A, Size(ph[i])), B |-> Adj(B, Size(ph[j])), c |-> QNeg(sg, c)] >>)
RECURSIVE RTerms(_, _, _, _, _, _)
RTerms(ph, i, cx, p1, p2, mx) == IF i >= Len(ph) THEN <<>> ELSE
  (IF Chance(p1) THEN RTerm(ph, i, i + 1, cx, mx) ELSE <<>>) \o (IF i + 2 <= Len(ph) /\ Chance(p2) THEN RTerm(ph, i, i + 2, cx, mx) ELSE <<>>)
  \o RTerms(ph, i + 1, cx, p1, p2, mx)
\* what is left to do after k sites: 0 everything, -1 nothing, t: the second part of term t
Shuffled(s) == TLCEval(IF Len(s) < 2 THEN s ELSE LET p == RandomElement({f \in [1..Min2(Len(s), 4) -> 1..Min2(Len(s), 4)] : \A a, b \in 1..Min2(Len(s), 4) : a = b \/ f[a] # f[b]})
   IN [i \in 1..Len(s) |-> IF i <= Min2(Len(s), 4) THEN s[p[i]] ELSE s[i]])
BondStates(terms, L, k) == IF k = 0 THEN <<0>> ELSE IF k = L THEN <<-1>> ELSE
   TLCEval(Shuffled(<<0, -1>> \o SelectSeq([t \in 1..Len(terms) |-> t], LAMBDA t : terms[t].i <= k /\ k < terms[t].j)))
StateQ(terms, x) == IF x <= 0 THEN QZero(sg) ELSE QNeg(sg, terms[x].c)
Merged(qs, x) == FoldLeft(LAMBDA acc, q : IF acc # <<>> /\ acc[Len(acc)][2] = q /\ Chance(60) THEN [acc EXCEPT ![Len(acc)][1] = @ + 1] ELSE Append(acc, <<1, q>>), <<>>, qs)
\* the right bond's sections; a plain bond is one section
BondDim(pl, terms, bs) == IF pl = 1 THEN PlainDim(sg, Len(bs)) ELSE Merged([i \in 1..Len(bs) |-> StateQ(terms, bs[i])], 0)
Part(terms, loc, i, d, x, y) ==
   IF x = y THEN (IF x <= 0 \/ (terms[x].i < i /\ i < terms[x].j) THEN IdM(d) ELSE ZeroM(d))
   ELSE IF x = 0 /\ y = -1 THEN loc
   ELSE IF x = 0 /\ terms[y].i = i THEN terms[y].A
   ELSE IF y = -1 /\ x > 0 /\ terms[x].j = i THEN terms[x].B ELSE ZeroM(d)
\* the site tensor, between bond states bl and br
SiteT(pl, cx, terms, loc, i, ph, bl, br, ld, rd) ==
  LET d == Size(ph)
      m == [a \in 1..Len(bl) |-> [b \in 1..Len(br) |-> Part(terms, loc, i, d, bl[a], br[b])]]
      dd == <<ld, ph, rd, InvertDim(sg, ph)>>
      nb == Len(br)
      El(k) == m[1 + ((k - 1) \div (d * nb * d))][1 + (((k - 1) \div d) % nb)][(((k - 1) \div (nb * d)) % d) * d + ((k - 1) % d) + 1]
      N == Len(bl) * d * nb * d
      v == [k \in 1..N |-> El(k)[1]]
      w == IF cx THEN [k \in 1..N |-> El(k)[2]] ELSE <<>>
      eb == ElemBlocks(dd)
      nz == {eb[k] : k \in {k \in 1..N : ~CNil(El(k))}}
      bl0 == SelectSeq(AllowedBlocks(sg, dd, QZero(sg)), LAMBDA b : b \in nz \/ Chance(15))
  IN T(dd, QZero(sg), v, w, bl0, IF cx THEN "c" ELSE "d")
RECURSIVE SitesT(_, _, _, _, _, _, _, _)
SitesT(pl, cx, terms, locs, phs, i, bl, ld) ==
  IF i > Len(phs) THEN <<>> ELSE
  LET br == BondStates(terms, Len(phs), i)
      rd == TLCEval(BondDim(pl, terms, br)) IN
  LET t == TLCEval(SiteT(pl, cx, terms, locs[i], i, phs[i], bl, br, ld, rd)) IN
  <<t>> \o SitesT(pl, cx, terms, locs, phs, i + 1, br, InvertDim(sg, rd))
Chain(pl, cx, phs, terms, locs) == IF phs = <<>> THEN <<>> ELSE TLCEval(SitesT(pl, cx, terms, locs, phs, 1, <<0>>, PlainDim(sg, 1)))
RLocals(phs, cx, p, mx) == TLCEval([i \in 1..Len(phs) |-> IF Chance(p) THEN RHerm(phs[i], cx, 70, mx) ELSE ZeroM(Size(phs[i]))])
ROperator(pl, cx, phs, p1, p2, mx) == TLCEval(LET terms == RTerms(phs, 1, cx, p1, p2, mx) IN Chain(pl, cx, phs, terms, RLocals(phs, cx, 60, mx)))
---------------------------------------------------------------------------
\* site spaces: all alike, or not
RPhys(pl, l, mx) == TLCEval(LET d == RSiteDim(sg, pl, mx)  d2 == IF Size(d) < 2 /\ Chance(80) THEN RSiteDim(sg, pl, mx) ELSE d IN
   [i \in 1..l |-> IF Chance(75) THEN d2 ELSE RSiteDim(sg, pl, mx)])
Axis2(m) == TLCEval(IF m > 0 THEN LET s == RandomElement(0..(m - 1)) IN [i \in 1..m |-> (s + i) % m] ELSE LET lo == RandomElement(-1..1) IN <<lo, lo + 1>>)
\* charges in regular steps
RECURSIVE Grid(_, _)
Grid(axes, c) == IF c = 0 THEN << <<>> >> ELSE LET g == Grid(axes, c - 1)  a == axes[c] IN
   [k \in 1..(Len(g) * Len(a)) |-> Append(g[1 + ((k - 1) \div Len(a))], a[1 + ((k - 1) % Len(a))])]
RRegular(l) == TLCEval(LET g == Grid([c \in 1..Len(sg) |-> Axis2(sg[c])], Len(sg)) IN [i \in 1..l |-> [k \in 1..Len(g) |-> <<1, g[k]>>]])
RECURSIVE Pick(_, _)
Pick(phs, i) == IF i = 0 THEN QZero(sg) ELSE QAdd(sg, Pick(phs, i - 1), RS(phs[i])[2])
\* configurations of the sector of a starting state, or of all of it
Opts(x) == [cut |-> 0, crit |-> 0, maxb |-> 64, minb |-> 4, maxit |-> 3, m |-> RS(<<0, 0, 1, 2>>), x |-> RandomElement(0..1000000),
            val |-> 0, sec |-> <<>>, dm |-> 0, xe |-> 0, whole |-> 0, full |-> 0, canon |-> 0, oc |-> 0, q |-> QZero(sg), ss |-> <<>>]
RCrit(x) == RS(<<-1, 0, 0, 2, 10, 100, 1000, 1000000000>>)
---------------------------------------------------------------------------
\* longer chains: what is reported, where the network ends up
RLenP(x) == RS(<<0, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8>>)
EGiven == \E pl \in {RS(<<0, 0, 1>>)} : \E l \in {RLenP(0)} : \E cx \in {Chance(15)} :
   \E ph \in {RPhys(pl, l, IF l > 5 THEN 2 ELSE 3)} : \E mx \in {RandomElement(1..2)} :
   \E hs \in {ROperator(pl, cx, ph, 60, IF l > 6 THEN 0 ELSE 20, mx)} :
   \E l2 \in {IF Chance(95) THEN l ELSE RLenP(0)} :
   \E ph2 \in {TLCEval([i \in 1..l2 |-> IF i <= l /\ Chance(99) THEN ph[i] ELSE RSiteDim(sg, pl, 2)])} :
   \E ss \in {IF l2 = 0 THEN <<>> ELSE RNet("S", sg, pl, ph2, cx, 90, RandomElement(1..3), 2, FALSE, FALSE)} :
   \E minb \in {RandomElement(1..5)} : \E maxb \in {RS(<<minb, minb + 1, minb + 3, 64>>)} :
   Do([op |-> "dmrg", k |-> "given", pl |-> pl, hs |-> hs] @@ [ss |-> ss, canon |-> RS(<<0, 1, 1>>), oc |-> IF l2 = 0 THEN 0 ELSE RandomElement(0..(l2 - 1)),
        cut |-> RS(<<0, 2, 4, 6, 8, 12>>), crit |-> RCrit(0), maxb |-> maxb, minb |-> minb, maxit |-> RS(<<0, 1, 1, 2, 3, 3, 4, 6, 10>>)] @@ Opts(0))
ERandom == \E pl \in {RS(<<0, 0, 1>>)} : \E l \in {RLenP(0)} : \E cx \in {FALSE} :
   \E ph \in {IF pl = 0 /\ Chance(70) THEN RRegular(l) ELSE RPhys(pl, l, IF l > 5 THEN 2 ELSE 3)} : \E mx \in {RandomElement(1..2)} :
   \E hs \in {ROperator(pl, cx, ph, 60, IF l > 6 THEN 0 ELSE 20, mx)} :
   \E minb \in {RS(<<0, 1, 2, 3, 4, 5, 8>>)} : \E maxb \in {RS(<<Max2(1, minb), minb + 1, minb + 3, 64>>)} :
   Do([op |-> "dmrg", k |-> "random", pl |-> pl, hs |-> hs] @@ [q |-> IF pl = 1 THEN QZero(sg) ELSE IF Chance(90) THEN Pick(ph, l) ELSE RQ(sg),
        cut |-> RS(<<0, 2, 4, 6, 8, 12>>), crit |-> RCrit(0), maxb |-> maxb, minb |-> minb, maxit |-> RS(<<0, 1, 1, 2, 3, 3, 4, 6, 10>>)] @@ Opts(0))
\* independent pairs
Unit1(d, r, c) == [k \in 1..(d * d) |-> IF (k - 1) \div d = r /\ (k - 1) % d = c THEN <<1, 0>> ELSE <<0, 0>>]
PairTerm(i, J, q) == << [i |-> i, j |-> i + 1, A |-> [k \in 1..4 |-> <<J * Unit1(2, 0, 1)[k][1], 0>>], B |-> Unit1(2, 1, 0), c |-> QSub(sg, q[1], q[2])],
                        [i |-> i, j |-> i + 1, A |-> [k \in 1..4 |-> <<J * Unit1(2, 1, 0)[k][1], 0>>], B |-> Unit1(2, 0, 1), c |-> QSub(sg, q[2], q[1])] >>
RECURSIVE RPairs(_, _)
RPairs(i, L) == IF i >= L THEN <<>> ELSE IF Chance(70) THEN <<i>> \o RPairs(i + 2, L) ELSE RPairs(i + 1, L)
Product0(pl, ph, conf) ==        \* the state that is one configuration
  LET l == Len(conf) IN
  LET left == [i \in 1..(l + 1) |-> IF pl = 1 THEN QZero(sg) ELSE FoldLeft(LAMBDA acc, j : IF j < i THEN QAdd(sg, acc, QNeg(sg, ElemQ(ph[j])[conf[j] + 1])) ELSE acc, QZero(sg), [j \in 1..l |-> j])] IN
  [i \in 1..l |-> LET dd == << << <<1, QNeg(sg, left[i])>> >>, ph[i], << <<1, left[i + 1]>> >> >> IN
     LET v == [k \in 1..2 |-> IF k = conf[i] + 1 THEN 1 ELSE 0]  eb == ElemBlocks(dd) IN
     T(dd, QZero(sg), v, <<>>, <<eb[conf[i] + 1]>>, "d")]
EDimers == \E pl \in {RS(<<0, 0, 1>>)} : \E l \in {RandomElement(2..10)} :
   \E q \in {TLCEval(IF pl = 1 THEN <<QZero(sg), QZero(sg)>> ELSE <<RQ(sg), RQ(sg)>>)} :
   \E d \in {IF pl = 1 THEN PlainDim(sg, 2) ELSE Merged(q, 0)} : \E ph \in {[i \in 1..l |-> d]} :
   \E pairs \in {TLCEval(RPairs(1, l))} : \E js \in {TLCEval([k \in 1..Len(pairs) |-> RS(<<1, -1>>) * RandomElement(1..4)])} :
   \E terms \in {FoldLeft(LAMBDA acc, k : acc \o PairTerm(pairs[k], js[k], q), <<>>, [k \in 1..Len(pairs) |-> k])} :
   \E c0 \in {TLCEval([i \in 1..l |-> RandomElement(0..1)])} :
   \E conf \in {[i \in 1..l |-> IF i > 1 /\ (i - 1) \in ToSet(pairs) THEN 1 - c0[i - 1] ELSE c0[i]]} :
   Do([op |-> "dmrg", k |-> "given", pl |-> pl, hs |-> Chain(pl, FALSE, ph, terms, [i \in 1..l |-> ZeroM(2)])] @@
      [ss |-> Product0(pl, ph, conf), canon |-> 1, oc |-> RandomElement(0..(l - 1)), cut |-> RS(<<8, 10>>), crit |-> RCrit(0), minb |-> 1, maxb |-> RS(<<4, 64>>),
       maxit |-> RS(<<1, 1, 1, 2, 3>>), dm |-> 1, xe |-> -FoldLeft(LAMBDA acc, j : acc + Abs(j), 0, js)] @@ Opts(0))
---------------------------------------------------------------------------
\* small chains: what the energies mean
States(ph) == Prod([i \in 1..Len(ph) |-> Size(ph[i])])
MaxSector == 14
RSmall(pl, l) == TLCEval(LET p == RPhys(pl, l, IF l <= 2 THEN 4 ELSE IF l = 3 THEN 3 ELSE 2) IN
   IF States(p) <= (IF pl = 1 THEN MaxSector ELSE 48) THEN p ELSE RPhys(pl, l, 2))
EValue == \E pl \in {RS(<<0, 0, 1, 1>>)} : \E l \in {RS(<<2, 2, 2, 3, 3, 4, 5>>)} : \E cx \in {Chance(15)} :
   \E ph \in {IF pl = 0 /\ Chance(40) /\ l <= 4 THEN RRegular(l) ELSE RSmall(pl, l)} : \E mx \in {RandomElement(1..3)} :
   \E hs \in {ROperator(pl, cx, ph, 90, 30, mx)} :
   \E k \in {IF cx THEN "given" ELSE RS(<<"given", "random", "random">>)} :
   \E ss \in {IF k = "random" THEN <<>> ELSE RNet("S", sg, pl, ph, cx, 95, RandomElement(1..3), 2, FALSE, FALSE)} :
   \E q \in {IF k = "given" THEN (IF pl = 1 THEN QZero(sg) ELSE Total(sg, ss)) ELSE IF pl = 1 THEN QZero(sg) ELSE Pick(ph, l)} :
   \E sec \in {TLCEval(Sector(sg, ph, q))} :
   \E whole \in {RS(<<1, 1, 1, 0>>)} :
   \E crit \in {RS(<<1000000000, 1000000000, 1000000000, 100, 1000, 0>>)} :
   Do([op |-> "dmrg", k |-> k, pl |-> pl, hs |-> hs] @@ [ss |-> ss, q |-> q, canon |-> RS(<<0, 1, 1>>), oc |-> RandomElement(0..(l - 1)),
        cut |-> IF whole = 1 THEN 0 ELSE RS(<<1, 2, 4, 6>>), crit |-> crit, minb |-> IF whole = 1 THEN RS(<<4, 10>>) ELSE RandomElement(1..3), maxb |-> IF whole = 1 THEN 64 ELSE RandomElement(3..5),
        maxit |-> IF crit > 1000 THEN RS(<<3, 60, 60, 60, 60>>) ELSE RS(<<1, 2, 5, 60>>), whole |-> whole, val |-> IF Len(sec) \in 1..MaxSector /\ States(ph) <= 64 THEN 1 ELSE 0, sec |-> IF Len(sec) \in 1..MaxSector THEN sec ELSE <<>>,
        full |-> IF whole = 1 /\ k = "random" /\ crit >= 1000000 /\ (pl = 1 \/ l = 2) THEN 1 ELSE 0] @@ Opts(0))
Step == /\ IF last = <<>> THEN TRUE ELSE PrintT(ToJson(last))
        /\ IF Kind = "value" THEN EValue ELSE (EGiven \/ ERandom \/ EDimers)
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
