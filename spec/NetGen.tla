------------------------------ MODULE NetGen -------------------------------
(* Random sequences of calls on networks.  Profile "edit": construction,      *)
(* conversions, edits of the sequence; profile "value": contractions.         *)
EXTENDS NetStore, NetRand
CONSTANT Profile
VARIABLES reg, sg, pl, phs, cxs, n, last
vars == <<reg, sg, pl, phs, cxs, n, last>>
\* torch refuses products of plain tensors of different types: there, one type for everything
Cplx(p) == IF pl = 1 /\ Profile = "value" THEN cxs ELSE Chance(p)
NoneE == <<>>
Init == cxs = FALSE /\ n = 0 /\ reg = [i \in 1..NR |-> Null] /\ sg = <<0>> /\ pl = 0 /\ phs = <<>> /\ last = NoneE
ValueLen(x) == RS(<<1, 2, 2, 2, 3, 3, 3, 4>>)
Small(p) == Prod([i \in 1..Len(p) |-> DimSize(p[i])]) <= 12
Begin == /\ \E s \in Rnd(Sigs) : \E p \in {RS(<<0, 0, 1>>)} : \E len \in {IF Profile = "value" THEN ValueLen(0) ELSE 5} :
            \E ph \in {TLCEval([i \in 1..len |-> RSiteDim(IF p = 1 THEN <<0>> ELSE s, p, IF len <= 2 THEN 3 ELSE 2)])} :
            /\ (Profile = "value" => Small(ph))
            /\ sg' = (IF p = 1 THEN <<0>> ELSE s) /\ pl' = p /\ phs' = ph
         /\ cxs' = Chance(30) /\ n' = 1 /\ reg' = reg
         /\ last' = [op |-> "begin", sg |-> sg', pl |-> pl', ob |-> "all", dst |-> 1, a |-> 1, b |-> 1]
Live == {i \in 1..NR : reg[i].k # "0"}
Of(k) == {i \in Live : reg[i].k = k}
O(op, dst, a, b, x) == [op |-> op, dst |-> dst, a |-> a, b |-> b, x |-> x, m |-> RandomElement(0..3)]
Keep(oo, r) == \E o \in {oo} : n' = n + 1 /\ UNCHANGED <<sg, pl, phs, cxs>> /\ reg' = r /\ last' = o
Do(oo) == \E o \in {oo} : Keep(o, TLCEval(Outcome(sg, reg, o).reg))
Len5 == <<0, 1, 1, 2, 2, 3, 3, 4>>
---------------------------------------------------------------------------
\* any tensor
RDimAny(x) == TLCEval(IF pl = 1 THEN PlainDim(sg, RandomElement(1..3)) ELSE [i \in 1..RandomElement(1..2) |-> <<RandomElement(1..2), RQ(sg)>>])
RAny(r) == RFill(sg, TLCEval([i \in 1..r |-> RDimAny(i)]), IF pl = 1 THEN QZero(sg) ELSE RQ(sg), Chance(15), 80, 3)
\* a tensor that can follow itself: right bond inverse to the left one
RLoop(k) == TLCEval(LET l == RDimAny(0)  ph == RSiteDim(sg, pl, 2) IN
   RFill(sg, IF k = "S" THEN <<l, ph, InvertDim(sg, l)>> ELSE <<l, ph, InvertDim(sg, l), InvertDim(sg, ph)>>, QZero(sg), Chance(15), 90, 3))
RTensor(k) == TLCEval(LET c == RandomElement(1..100) IN IF k # "T" /\ c <= 60 THEN RLoop(k) ELSE RAny(RS(<<1, 2, 3, 3, 4, 4>>)))
\* a network, sometimes spoilt: a tensor of another order, a bond that does not fit
Spoilt(k, ts) == TLCEval(IF Len(ts) = 0 THEN ts ELSE
   LET j == RandomElement(1..Len(ts))  t == ts[j]  c == RandomElement(1..5) IN
   CASE c = 1 -> [ts EXCEPT ![j] = RAny(RandomElement(1..4))]
     [] c = 2 -> [ts EXCEPT ![j] = RFill(sg, [t.d EXCEPT ![1] = RDimAny(0)], t.s, FALSE, 80, 3)]
     [] c = 3 -> [ts EXCEPT ![j] = RFill(sg, [t.d EXCEPT ![3] = RDimAny(0)], t.s, FALSE, 80, 3)]
     [] c = 4 -> [ts EXCEPT ![j] = RFill(sg, [t.d EXCEPT ![3] = InvertDim(sg, t.d[3])], t.s, FALSE, 80, 3)]
     [] OTHER -> [ts EXCEPT ![j] = RFill(sg, Append(t.d, RDimAny(0)), t.s, FALSE, 80, 3)])
RList(k, len) == TLCEval(IF k = "T" THEN [i \in 1..len |-> RAny(RandomElement(1..4))]
   ELSE LET ts == IF len = 0 THEN <<>> ELSE RNet(k, sg, pl, SubSeq(phs, 1, len), Chance(15), 80, 3, 3, Chance(30), Chance(30)) IN
        IF Chance(25) THEN Spoilt(k, ts) ELSE ts)
RCenter(k, len) == IF k # "S" THEN 0 ELSE IF Chance(85) /\ len > 0 THEN RandomElement(0..(len - 1)) ELSE RandomElement({-1, 0, len, len + 1})
EMake == \E i \in Rnd(1..NR) : \E k \in {RS(<<"T", "S", "O">>)} : \E len \in {RS(Len5)} : \E ts \in {RList(k, len)} : \E x \in {RCenter(k, len)} :
   \* several constructors have no center to be told
   \E m \in {RandomElement(0..4)} : Do([O("make", i, i, i, IF m = 4 THEN 0 ELSE x) EXCEPT !.m = m] @@ [k |-> k, ts |-> ts])
EFill == \E i \in Rnd(1..NR) : \E k \in {RS(<<"T", "S", "O">>)} : \E y \in {RandomElement(0..3)} : \E t \in {RTensor(k)} : \E x \in {RCenter(k, y)} :
   Do(O("fill", i, i, i, x) @@ [k |-> k, y |-> y, t |-> t])
ECopy == \E a \in Rnd(Live) : \E i \in Rnd(1..NR) : Do(O("copy", i, a, a, 0))
ESwap == \E a \in Rnd({i \in Live : \E j \in Live : j # i /\ reg[j].k = reg[i].k}) : \E b \in Rnd({j \in Live : j # a /\ reg[j].k = reg[a].k}) : Do(O("swap", a, a, b, 0))
EConv == \E k \in {RS(<<"T", "S", "O">>)} : \E a \in Rnd(IF k = "T" THEN Live ELSE Of("T")) : \E i \in Rnd(1..NR) :
   \E x \in {RCenter(k, Len(reg[a].ts))} : Do(O("conv", i, a, a, x) @@ [k |-> k])
ECheck == \E a \in Rnd(Of("S") \cup Of("O")) : Do(O("check", a, a, a, 0))
\* a tensor taken from the networks, or a new one
RSome(a) == TLCEval(LET A == reg[a].ts IN IF Len(A) > 0 /\ Chance(40) THEN RS(A) ELSE RTensor(reg[a].k))
EEdit == \E a \in Rnd(Live) : \E len \in {Len(reg[a].ts)} : \E t \in {RSome(a)} : \E c \in {RandomElement(1..9)} : \E i \in Rnd(1..NR) :
   CASE c = 1 /\ len > 0 -> \E x \in {RandomElement(0..(len - 1))} : Do(O("put", a, a, a, x) @@ [t |-> t])
     [] c = 2 /\ len < 5 -> \E x \in {RandomElement(0..len)} : Do(O("insert", a, a, a, x) @@ [t |-> t])
     [] c = 3 /\ len < 5 -> \E x \in {RandomElement(0..len)} : Do(O("inserts", a, a, a, x) @@ [t |-> t, y |-> RandomElement(0..2)])
     [] c = 4 /\ len > 0 -> \E x \in {RandomElement(0..(len - 1))} : Do(O("erase", a, a, a, x))
     [] c = 5 -> \E x \in {RandomElement(0..len)} : Do(O("erases", a, a, a, x) @@ [y |-> RandomElement(x..len)])
     [] c = 6 /\ len < 5 -> Do(O("push", a, a, a, 0) @@ [t |-> t])
     [] c = 7 /\ len > 0 -> Do(O("pop", a, a, a, 0))
     [] c = 8 -> Do(O("resize", a, a, a, 0) @@ [t |-> t, y |-> RandomElement(0..5)])
     [] c = 9 /\ Chance(30) -> Do(O("clear", a, a, a, 0))
     [] OTHER -> Do(O("reserve", a, a, a, 0) @@ [y |-> RandomElement(0..20)])
\* converting the elements keeps them only towards the richer type
ETo == \E a \in Rnd({i \in Live : Len(reg[i].ts) > 0}) : \E i \in Rnd(1..NR) :
   \E y \in {IF \E j \in 1..Len(reg[a].ts) : reg[a].ts[j].t = "c" THEN 1 ELSE RandomElement(0..1)} : Do(O("to", i, a, a, 0) @@ [y |-> y])
Edits == IF Live = {} THEN EMake
         ELSE \E k \in {RandomElement(1..100)} :
              CASE k <= 22 -> EMake [] k <= 30 -> EFill [] k <= 38 -> ECopy [] k <= 44 -> ESwap [] k <= 55 -> EConv
                [] k <= 63 -> ECheck [] k <= 93 -> EEdit [] OTHER -> ETo
---------------------------------------------------------------------------
\* a network between the ends of another one
RLast(k, left, ph, right, cx) == TLCEval(LET d == IF k = "S" THEN <<left, ph, right>> ELSE <<left, ph, right, InvertDim(sg, ph)>>
   IN RFill(sg, d, IF pl = 1 \/ Chance(15) THEN QZero(sg) ELSE QSumDims(sg, d), cx, 90, 2))
RBetween(k, l, r) == TLCEval(LET len == Len(phs)  cx == Cplx(25)
      init == Sites(k, sg, pl, l, SubSeq(phs, 1, len - 1), 1, cx, 90, 3, 2, TRUE)
      left == IF len = 1 THEN l ELSE InvertDim(sg, init[len - 1].d[3]) IN
   Append(init, RLast(k, left, phs[len], r, cx)))
\* the same spaces and charges with the sections of inner bonds listed in another order
RECURSIVE Shuffled(_, _)
Turn(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
Shuffled(ts, i) == IF i >= Len(ts) THEN ts ELSE
   LET c == Chance(50) IN Shuffled(IF c THEN [ts EXCEPT ![i].d[3] = Turn(@), ![i + 1].d[1] = Turn(@)] ELSE ts, i + 1)
RVariant(ts) == TLCEval(LET s == TLCEval(Shuffled(ts, 1))  cx == Cplx(25) IN [i \in 1..Len(s) |-> RFill(sg, s[i].d, s[i].s, cx, 95, 2)])
VMake == \E i \in Rnd(1..NR) : \E k \in {IF Of("O") = {} THEN RS(<<"S", "O">>) ELSE RS(<<"S", "S", "S", "O">>)} : \E like \in {IF Chance(70) THEN Of(k) \ {i} ELSE {}} :
   \E ts \in {IF like # {} THEN LET a == reg[RandomElement(like)].ts IN IF Chance(60) THEN RVariant(a) ELSE RBetween(k, a[1].d[1], a[Len(a)].d[3])
              ELSE RNet(k, sg, pl, phs, Cplx(25), 90, 3, 2, Chance(35), Chance(35))} :
   Do([O("make", i, i, i, IF k = "S" THEN RandomElement(0..(Len(ts) - 1)) ELSE 0) EXCEPT !.m = RandomElement(0..3)] @@ [k |-> k, ts |-> ts])
REdge(d, cx) == RFill(sg, d, IF pl = 1 \/ Chance(10) THEN QZero(sg) ELSE QSumDims(sg, d), cx, 85, 2)
OneCharge(d) == \A i \in 1..Len(d) : d[i][2] = d[1][2]
VContract == \E a \in Rnd(Of("S")) : \E b \in Rnd(Of("S")) : \E c \in {IF Of("O") = {} \/ Chance(30) THEN 0 ELSE RandomElement(Of("O"))} :
   LET A == reg[a].ts  B == reg[b].ts  C == IF c = 0 THEN <<>> ELSE reg[c].ts  z == Len(A)
       same == A[1].d[1] = B[1].d[1] /\ A[z].d[3] = B[z].d[3]
       ones == c = 0 \/ (OneCharge(C[1].d[1]) /\ OneCharge(C[z].d[3]))
       ed(x, y) == IF c = 0 THEN <<InvertDim(sg, A[x].d[y]), B[x].d[y]>> ELSE <<InvertDim(sg, A[x].d[y]), InvertDim(sg, C[x].d[y]), B[x].d[y]>>
       o == O("contract", a, a, b, 0) @@ [c |-> c] IN
   IF same /\ ones /\ Chance(60) THEN Keep(o, reg)
   ELSE \E le \in {REdge(ed(1, 1), Cplx(20))} : \E re \in {REdge(ed(z, 3), Cplx(20))} : Keep(o @@ [le |-> le, re |-> re], reg)
VTwo == \E a \in Rnd({i \in Of("O") : Len(reg[i].ts) > 0}) : \E i \in Rnd((1..NR) \ {a}) : Keep(O("two", i, a, a, 0), [reg EXCEPT ![i] = Net("T", <<>>, 0)])
RFew(x) == TLCEval(IF pl = 1 THEN PlainDim(sg, RandomElement(1..3)) ELSE [i \in 1..RandomElement(1..2) |-> <<RS(<<1, 1, 2>>), RQ(sg)>>])
RConj(d) == REdge(d, Cplx(15))
VH2S == IF \E i \in Of("T") : Len(reg[i].ts) = 4
        THEN \E a \in Rnd({i \in Of("T") : Len(reg[i].ts) = 4}) : \E i \in Rnd(1..NR) : Keep(O("h2s", i, a, a, 0), [reg EXCEPT ![i] = Net("T", <<>>, 0)])
        ELSE \E i \in Rnd(1..NR) : \E a \in {RFew(0)} : \E b \in {RFew(1)} : \E p \in {RSiteDim(sg, pl, 2)} : \E q \in {RSiteDim(sg, pl, 2)} : \E l \in {RFew(2)} : \E r \in {RFew(3)} :
             \E a2 \in {RFew(4)} : \E b2 \in {RFew(5)} :
             \E x \in {RConj(<<a, p, q, b>>)} : \E h \in {RConj(<<l, p, q, r, InvertDim(sg, p), InvertDim(sg, q)>>)} :
             \E le \in {RConj(<<InvertDim(sg, a), InvertDim(sg, l), a2>>)} : \E re \in {RConj(<<InvertDim(sg, b), InvertDim(sg, r), b2>>)} :
             Do([O("make", i, i, i, 0) EXCEPT !.m = 0] @@ [k |-> "T", ts |-> <<x, h, le, re>>])
Values == IF Of("S") = {} THEN VMake
          ELSE \E k \in {RandomElement(1..100)} :
               CASE k <= 30 -> VMake [] k <= 75 -> VContract [] k <= 83 -> VTwo [] k <= 95 -> VH2S [] OTHER -> ECopy
---------------------------------------------------------------------------
Skip == n' = n + 1 /\ last' = NoneE /\ UNCHANGED <<reg, sg, pl, phs, cxs>>
Step == /\ IF last = NoneE THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ IF Profile = "edit" THEN Edits ELSE Values
           \/ Live # {} /\ Skip
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
