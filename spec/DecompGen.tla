----------------------------- MODULE DecompGen ------------------------------
EXTENDS DecompStore, Json
CONSTANT Kind      \* "svd", "trunc" or "eigh"
VARIABLES reg, n, last, sg, pl, sp
vars == <<reg, n, last, sg, pl, sp>>     \* sp: a split at which register 1 is Hermitian (0: none)
None == <<>>
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
Sgs == << <<0>>, <<0>>, <<2>>, <<3>>, <<0, 0>>, <<2, 0>> >>
RQ(g) == TLCEval([i \in 1..Len(g) |-> IF g[i] = 0 THEN RS(<<-2, -1, -1, 0, 0, 0, 1, 1, 2>>) ELSE RandomElement(0..(g[i]-1))])
RDim(g, p) == TLCEval(IF p THEN << <<RS(<<1, 2, 2, 3, 4>>), QZero(g)>> >>
                      ELSE IF Chance(25) THEN LET q == TLCEval(RQ(g)) IN \* many sections, few charges: sectors of many blocks
                           [i \in 1..RS(<<4, 5, 6, 7>>) |-> <<1, IF Chance(70) THEN q ELSE IF Chance(50) THEN QZero(g) ELSE RQ(g)>>]
                      ELSE [i \in 1..RS(<<1, 2, 2, 3, 3, 4>>) |-> <<RS(<<1, 1, 1, 2, 2, 3>>), RQ(g)>>])
Ext(ds) == Prod([i \in 1..Len(ds) |-> DimSize(ds[i])])
Val(u) == RS(<<-3, -2, -1, -1, 0, 0, 1, 1, 2, 3>>)
Mask(d, bl) == LET bs == ToSet(bl)  eb == ElemBlocks(d) IN TLCEval([k \in 1..Len(eb) |-> eb[k] \in bs])
Pick(p, s) == TLCEval(SelectSeq(s, LAMBDA x : Chance(p)))
DT(ty) == IF ty = "c" THEN 1 ELSE IF Chance(12) THEN 2 ELSE 0
\* weights of 1..6 on a random partial matching of rows and columns of the same block
RECURSIVE Matched(_, _, _)
Matched(P, c, acc) == IF P = {} THEN acc ELSE LET k == TLCEval(RandomElement(P)) IN
   TLCEval(Matched({x \in P : (x - 1) \div c # (k - 1) \div c /\ (x - 1) % c # (k - 1) % c}, c, Append(acc, k)))
Sparse(mask, c) == TLCEval(LET ks == Matched({k \in 1..Len(mask) : mask[k]}, c, <<>>)  kset == ToSet(ks)
                   IN [k \in 1..Len(mask) |-> IF k \in kset /\ Chance(90) THEN RS(<<1, 2, 3, 4, 5, 6, -1, -2, -3, 2, 1>>) ELSE 0])
Do(oo) == \E o \in {oo} : last' = o /\ reg' = After(reg, o) /\ n' = n + 1 /\ sg' = sg /\ pl' = pl
NewAny(r) ==
  \E L \in {TLCEval([i \in 1..RS(<<1, 1, 2>>) |-> RDim(sg, pl)])} : \E K \in {TLCEval([i \in 1..RS(<<1, 1, 2>>) |-> RDim(sg, pl)])} :
   LET d == L \o K IN
   /\ Ext(L) <= 9 /\ Ext(K) <= 9 /\ Numel(d) <= 60
   /\ \E s \in {IF pl THEN QZero(sg) ELSE BlockQ(sg, d, RS(AllIx(SecCounts(d))))} :
      \E bl \in {Pick(RS(<<100, 90, 90, 60, 5>>), AllowedBlocks(sg, d, s))} :
      \E ty \in {RS(<<"d", "d", "d", "c">>)} :
      \E mask \in {Mask(d, bl)} :
      \E v \in {IF Chance(40) THEN Sparse(mask, Ext(K)) ELSE TLCEval([k \in 1..Len(mask) |-> IF mask[k] THEN Val(0) ELSE 0])} :
      \E w \in {IF ty = "c" THEN TLCEval([k \in 1..Len(mask) |-> IF mask[k] THEN Val(0) ELSE 0]) ELSE <<>>} :
      /\ (pl => bl # <<>>)
      /\ Do([op |-> "new", r |-> r, d |-> d, s |-> s, v |-> v, w |-> w, bl |-> bl, t |-> ty, dt |-> DT(ty), f |-> RandomElement(0..3)])
      /\ sp' = IF r = 1 THEN 0 ELSE sp
\* Hermitian: right dimensions are the inverse of the left ones, possibly with the charge moved around
NewHerm ==
  \E L \in {TLCEval([i \in 1..RS(<<1, 1, 2>>) |-> RDim(sg, pl)])} :
   LET K == InvDims(sg, L)  m == Len(L)  d0 == L \o K  z == QZero(sg) IN
   /\ Ext(L) <= 8
   /\ \E al \in {AllowedBlocks(sg, d0, z)} : \E p \in {RS(<<100, 90, 60, 30>>)} :
      \E up \in {Pick(p, SelectSeq(al, LAMBDA b : ~LexLess(SubSeq(b, m + 1, 2 * m), SubSeq(b, 1, m))))} :
      \E bl \in {LET us == ToSet(up)  tr(b) == SubSeq(b, m + 1, 2 * m) \o SubSeq(b, 1, m) IN TLCEval(SelectSeq(al, LAMBDA b : b \in us \/ tr(b) \in us))} :
      \E ty \in {RS(<<"d", "d", "d", "c">>)} :
      \E q \in {IF pl \/ Chance(75) THEN z ELSE RQ(sg)} : \E mask \in {Mask(d0, bl)} :
      \E x \in {IF Chance(35) THEN Sparse(mask, Ext(L)) ELSE TLCEval([k \in 1..Len(mask) |-> IF mask[k] THEN Val(0) ELSE 0])} :
      \E y \in {TLCEval([k \in 1..Len(mask) |-> IF mask[k] THEN Val(0) ELSE 0])} :
      LET r == Ext(L)  d == [d0 EXCEPT ![2 * m] = ShiftDim(sg, d0[2 * m], q)]
          at(k) == LET i == (k - 1) \div r  j == (k - 1) % r IN IF i <= j THEN k ELSE j * r + i + 1
          sgn(k) == LET i == (k - 1) \div r  j == (k - 1) % r IN IF i < j THEN 1 ELSE IF i = j THEN 0 ELSE -1 IN
      /\ (pl => bl # <<>>)
      /\ Do([op |-> "new", r |-> 1, d |-> d, s |-> q, v |-> TLCEval([k \in 1..Len(x) |-> x[at(k)]]),
             w |-> IF ty = "c" THEN TLCEval([k \in 1..Len(x) |-> sgn(k) * y[at(k)]]) ELSE <<>>, bl |-> bl, t |-> ty, dt |-> DT(ty), f |-> RandomElement(0..3)])
      /\ sp' = m
Splits(x) == 1..(Len(x.d) - 1)
Args(op, r, split) == [op |-> op, r |-> r, split |-> split, tol2 |-> RS(<<0, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20>>),
   mn |-> RS(<<1, 1, 1, 2, 3, 5>>), mx |-> RS(<<0, 0, 1, 2, 3, 4, 5, 7>>), pow |-> RS(<<1, 2>>), f |-> RandomElement(0..3)]
\* calls which leave the counts or the power to their default value
Call(a) == IF a.f = 1 THEN [a EXCEPT !.mn = 1, !.mx = 0] ELSE IF a.f = 2 THEN [a EXCEPT !.pow = IF a.op \in {"svdt", "trunc"} THEN 2 ELSE 1]
           ELSE IF a.f = 3 THEN [a EXCEPT !.mn = 1, !.mx = 0, !.pow = IF a.op \in {"svdt", "trunc"} THEN 2 ELSE 1] ELSE a
Ready(r) == Len(reg[r].d) >= 2
Decompose(ops) == \E r \in {RandomElement(1..NR)} : Ready(r) /\ (\E s \in {RandomElement(Splits(reg[r]))} : Do(Call(Args(RS(ops), r, s)))) /\ sp' = sp
Eig(ops) == sp # 0 /\ Do(Call(Args(RS(ops), 1, sp))) /\ sp' = sp
\* lists of values to cut
Row(k) == LET r == TLCEval([i \in 1..k |-> RS(<<0, 0, 1, 1, 2, 3, 4, 6>>)]) IN
          TLCEval([i \in 1..k |-> SortSeq(r, LAMBDA x, y : x > y)[i] * RS(<<1, 1, -1>>)])
CutList == \E k \in {RandomElement(0..6)} : \E rows \in {TLCEval([i \in 1..RS(<<1, 1, 2, 3>>) |-> Row(k)])} : \E a \in {Args("cut", 1, 1)} :
           Do([a EXCEPT !.mn = RS(<<0, @, @>>)] @@ [rows |-> rows]) /\ sp' = sp
Gen == CASE Kind = "svd" -> (IF Chance(35) THEN NewAny(RandomElement(1..NR)) ELSE Decompose(<<"svd">>))
         [] Kind = "trunc" -> (IF Chance(8) THEN CutList ELSE IF Chance(30) THEN NewAny(RandomElement(1..NR)) ELSE Decompose(<<"svdt", "svdt", "trunc">>))
         [] Kind = "eigh" -> (IF Chance(30) THEN NewHerm ELSE Eig(<<"eigh", "eight", "eight", "etrunc">>))
Init == n = 0 /\ pl \in {Chance(30)} /\ sg \in {RS(Sgs)} /\ reg = [i \in 1..NR |-> Zero(sg)] /\ last = None /\ sp = 0
Begin == \E g \in {RS(Sgs)} : \E p \in {Chance(25)} : n' = 1 /\ sg' = g /\ pl' = p /\ sp' = 0 /\ reg' = [i \in 1..NR |-> Zero(g)]
             /\ last' = [op |-> "begin", sg |-> g, pl |-> IF p THEN 1 ELSE 0]
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ \E j \in 1..2 : Gen
           \/ n' = n + 1 /\ last' = None /\ UNCHANGED <<reg, sg, pl, sp>>
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
