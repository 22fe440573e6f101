------------------------------ MODULE NetRand ------------------------------
(* Random networks of small integer tensors, as literals for the drivers.     *)
EXTENDS Network, Json
Rnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
Sigs == {<<0>>, <<2>>, <<3>>, <<0, 0>>, <<2, 0>>}
RQ1(m) == IF m = 0 THEN RandomElement(-1..1) ELSE RandomElement(0..(m-1))
RQ(s) == TLCEval([i \in 1..Len(s) |-> RQ1(s[i])])
PlainDim(s, n) == << <<n, QZero(s)>> >>
\* site space of n sections at most
RSiteDim(s, pl, n) == TLCEval(IF pl = 1 THEN PlainDim(s, RandomElement(1..n)) ELSE
   LET m == RandomElement(1..n) IN [i \in 1..m |-> << IF m = 1 THEN RandomElement(1..2) ELSE RS(<<1, 1, 1, 1, 1, 2>>), RQ(s) >>])
\* a bond on the right of a tensor with these dimensions on the left: charges such that blocks exist,
\* the first section continues the first one on the left, so that something goes all the way
Onward(s, left, ph, sel, i, keep) == LET a == IF i = 1 THEN left[1][2] ELSE RS(left)[2] IN
   QAdd(s, sel, QNeg(s, IF keep /\ i = 1 THEN a ELSE QAdd(s, a, RS(ph)[2])))
RBond(s, pl, left, ph, sel, big, keep) == TLCEval(IF pl = 1 THEN PlainDim(s, RandomElement(1..big)) ELSE
   LET m == RandomElement(1..2) IN
   [i \in 1..m |-> << RS(<<1, 1, 2>>), IF Chance(93) THEN Onward(s, left, ph, sel, i, keep) ELSE RQ(s) >>])
RUnitBond(s, pl, left, ph, sel, keep) == TLCEval(IF pl = 1 THEN PlainDim(s, 1) ELSE
   << <<1, IF Chance(90) THEN Onward(s, left, ph, sel, IF Chance(80) THEN 1 ELSE 2, keep) ELSE RQ(s)>> >>)
REntry(mx) == IF Chance(15) THEN 0 ELSE RS(<<-1, 1>>) * RandomElement(1..mx)
RFill(s, d, sel, cx, dens, mx) ==
  TLCEval(LET ab == AllowedBlocks(s, d, sel)
              \* (a plain tensor is a single block)
              bl == SelectSeq(ab, LAMBDA b : Chance(IF Len(ab) = 1 THEN Max2(dens, Min2(97, 50 * dens)) ELSE dens))
              bs == ToSet(bl)  eb == ElemBlocks(d)
              v == [k \in 1..Len(eb) |-> IF eb[k] \in bs THEN REntry(mx) ELSE 0]
              w == IF cx THEN [k \in 1..Len(eb) |-> IF eb[k] \in bs THEN REntry(mx) ELSE 0] ELSE <<>>
          IN T(d, sel, v, w, bl, IF cx THEN "c" ELSE "d"))
\* an operator's site: the out space is the state's, the in space its inverse
OpSel(s, pl) == IF pl = 1 \/ Chance(80) THEN QZero(s) ELSE RQ(s)
RSite(k, s, pl, left, ph, last, cx, dens, big, mx) ==
  TLCEval(LET sel == OpSel(s, pl)
              keep == k = "O" /\ Chance(80)          \* out and in of an operator alike
              x == IF k = "S" \/ keep THEN sel ELSE QAdd(s, sel, RS(ph)[2])
              rb == IF last THEN RUnitBond(s, pl, left, ph, x, keep) ELSE RBond(s, pl, left, ph, x, big, keep)
              d == IF k = "S" THEN <<left, ph, rb>> ELSE <<left, ph, rb, InvertDim(s, ph)>>
          IN RFill(s, d, sel, cx, dens, mx))
RECURSIVE Sites(_, _, _, _, _, _, _, _, _, _, _)
Sites(k, s, pl, left, phs, i, cx, dens, big, mx, wide) ==
  IF i > Len(phs) THEN <<>> ELSE
  LET t == RSite(k, s, pl, left, phs[i], i = Len(phs) /\ ~wide, cx, dens, big, mx) IN
  <<t>> \o Sites(k, s, pl, InvertDim(s, t.d[3]), phs, i + 1, cx, dens, big, mx, wide)
RLeft(s, pl, wide) == TLCEval(IF pl = 1 THEN PlainDim(s, IF wide THEN 2 ELSE 1)
                      ELSE IF wide THEN << <<1, RQ(s)>>, <<1, RQ(s)>> >> ELSE << <<1, IF Chance(70) THEN QZero(s) ELSE RQ(s)>> >>)
RNet(k, s, pl, phs, cx, dens, big, mx, wl, wr) == TLCEval(Sites(k, s, pl, RLeft(s, pl, wl), phs, 1, cx, dens, big, mx, wr))
\* a charge that some block of these dimensions has
QSumDims(s, d) == TLCEval(FoldLeft(LAMBDA acc, x : QAdd(s, acc, RS(x)[2]), QZero(s), d))
MaxEntry(v) == MaxAbs(v)
=============================================================================
