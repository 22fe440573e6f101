----------------------------- MODULE TensorGen -----------------------------
(* Random behaviours of TensorStore, printed as scripts of calls (one JSON   *)
(* record per step) for replay on the real library.                          *)
EXTENDS TensorStore, Json

CONSTANT Profile
VARIABLES reg, sg, voc, n, last
vars == <<reg, sg, voc, n, last>>
None == <<>>

Sigs == {<<0>>, <<2>>, <<3>>, <<5>>, <<0, 0>>, <<2, 0>>, <<3, 0>>}
Rnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p

RQ1(m) == IF m = 0 THEN RandomElement(-2..2) ELSE RandomElement(0..(m-1))
RQ(s) == TLCEval([i \in 1..Len(s) |-> RQ1(s[i])])
\* half of the dimensions repeat few charges, so that tensors have many blocks
RDim(s) == TLCEval(LET few == Chance(50)  q == TLCEval(IF Chance(50) THEN QZero(s) ELSE RQ(s))
                       m == RS(IF few THEN <<1, 2, 3, 4, 5, 6>> ELSE <<1, 1, 2, 2, 2, 3, 3, 3, 4, 5>>) IN
   [i \in 1..m |-> << RS(IF few /\ m > 3 THEN <<1, 1, 1, 1, 2>> ELSE <<1, 1, 1, 2, 2, 2, 3>>), IF few /\ Chance(70) THEN q ELSE IF few /\ Chance(60) THEN QZero(s) ELSE RQ(s) >>])
RUnit(s) == << <<1, RQ(s)>> >>
RVoc(s) == TLCEval(<<RDim(s), RDim(s), RDim(s), RUnit(s), RUnit(s), << <<2, QZero(s)>> >> >>)

Live == {i \in 1..NR : IsT(reg[i])}
LiveN == {i \in Live : reg[i].t \in {"d", "f", "c"}}
LiveD == {i \in Live : reg[i].t \in {"d", "f"}}
LiveE == {i \in LiveN : reg[i].b = <<>>}
CxOk == Profile \in {"T01", "T03", "T04", "T05", "T07"}

MaxEl == 64
RECURSIVE TakeDims(_, _)
TakeDims(ds, lim) == IF ds = <<>> THEN <<>>
                     ELSE LET m == DimSize(Head(ds)) IN
                          IF m > lim THEN <<>> ELSE <<Head(ds)>> \o TakeDims(Tail(ds), lim \div m)
\* at most two sections of one element: tensors of many dimensions
Narrow(d) == [x \in 1..Min2(2, Len(d)) |-> <<1, d[x][2]>>]
RDimsMany(s) == TLCEval(LET r == RandomElement({5, 5, 6}) IN
  TakeDims([i \in 1..r |-> LET k == RandomElement({1,1,2,2,3,3,4,5,6}) IN
                           Narrow(IF Chance(50) THEN voc[k] ELSE InvDim(s, voc[k]))], MaxEl))
RDims(s) == IF Profile \in {"T01", "T03", "T04", "T05"} /\ Chance(12) THEN RDimsMany(s) ELSE TLCEval(LET r == RandomElement({0,1,2,2,2,3,3,3,4}) IN
  TakeDims([i \in 1..r |-> LET k == RandomElement({1,1,2,2,3,3,4,5,6}) IN
                           IF Chance(50) THEN voc[k] ELSE InvDim(s, voc[k])], MaxEl))
RSel(s, d) == TLCEval(IF Chance(88) THEN BlockQ(s, d, [i \in 1..Len(d) |-> RandomElement(0..(Len(d[i])-1))])
                      ELSE RQ(s))

RVal(kind) == CASE kind = "int" -> RandomElement(-3..3)
                [] kind = "sq"  -> RandomElement({0, 1, 4, 9, 16})
                [] kind = "expo" -> RandomElement(0..3)
                [] kind = "big" -> 12 * RandomElement(-2..2)
                [] kind = "div" -> RandomElement({-4,-3,-2,-1,1,2,3,4})
Kinds == CASE Profile = "T02" -> <<"int","int","int","sq","expo","big","div">> [] OTHER -> <<"int">>

\* fill a random subset of the allowed blocks
Fill(s, d, sel, kind, ty, dens) ==
  TLCEval(LET bl == SelectSeq(AllowedBlocks(s, d, sel), LAMBDA b : Chance(dens))
              bs == ToSet(bl)  eb == ElemBlocks(d)
          IN [bl |-> bl,
              v |-> [k \in 1..Len(eb) |-> IF eb[k] \in bs THEN RVal(kind) ELSE 0],
              w |-> IF ty = "c" THEN [k \in 1..Len(eb) |-> IF eb[k] \in bs THEN RVal(kind) ELSE 0] ELSE <<>>])

O(op, dst, a, b) == [op |-> op, dst |-> dst, a |-> a, b |-> b, m |-> RandomElement(0..3)]
Dst(u) == RandomElement(1..NR)
DstFor(op, a) == IF op \in InPlace THEN a ELSE Dst(0)

\* the call of a step is printed by the step after it, so that only steps which are taken are printed
Emit(o) == last' = o
Small(t) == ~IsT(t) \/ (Numel(t.d) <= 81 /\ MaxAbs(t.v) <= 400 /\ MaxAbs(t.w) <= 400 /\ Len(t.d) <= 6)
Do(oo) == \E o \in {oo} :
  LET out == Outcome(sg, reg, o) IN
  /\ n' = n + 1 /\ UNCHANGED <<sg, voc>>
  /\ CASE out.k = "ok" -> IF Small(out.t) THEN Emit(o) /\ reg' = [reg EXCEPT ![o.dst] = out.t]
                          ELSE FALSE
       [] out.k = "any" -> FALSE
       [] OTHER -> Emit(o) /\ UNCHANGED reg

NewRec(s, i, d, sel, ty, f) == O("new", i, 1, 1) @@ [d |-> d, s |-> sel, v |-> f.v, w |-> f.w, bl |-> f.bl, t |-> ty]
RType(u) == IF CxOk /\ Chance(25) THEN "c" ELSE IF Chance(15) THEN "f" ELSE "d"
GenNew == \E i \in Rnd(1..NR) : \E d \in {RDims(sg)} : \E sel \in {RSel(sg, d)} : \E k \in {RS(Kinds)} : \E ty \in {RType(0)} :
          \E dens \in {RS(<<0, 50, 75, 75, 100>>)} :
          \E f \in {Fill(sg, d, sel, k, ty, dens)} : Do(NewRec(sg, i, d, sel, ty, f))
\* a tensor with the shape of a live one but its own sparsity
GenLike == \E a \in Rnd(LiveN) : \E i \in Rnd((1..NR) \ {a}) : \E k \in {RS(Kinds)} : \E dens \in {RS(<<0, 30, 60, 100>>)} :
           \E f \in {Fill(sg, reg[a].d, reg[a].s, k, reg[a].t, dens)} : Do(NewRec(sg, i, reg[a].d, reg[a].s, reg[a].t, f))
\* a tensor broadcastable with a live one
GenBc == \E a \in Rnd(LiveN) : \E i \in Rnd((1..NR) \ {a}) : \E k \in {RS(Kinds)} :
         \E d0 \in {TLCEval([j \in 1..Len(reg[a].d) |->
              IF Chance(25) THEN RUnit(sg)
              ELSE [x \in 1..Len(reg[a].d[j]) |-> <<reg[a].d[j][x][1], IF Chance(50) THEN reg[a].d[j][x][2] ELSE RQ(sg)>>]])} :
         \E cut \in {RandomElement(0..Len(d0))} :
         \E d1 \in {SubSeq(d0, (IF Chance(70) THEN 0 ELSE cut) + 1, Len(d0))} :
         \E d \in {TLCEval(IF Chance(15) /\ Numel(d1) <= 20 THEN <<RDim(sg)>> \o d1 ELSE d1)} :
         \E sel \in {RSel(sg, d)} : \E ty \in {IF reg[a].t = "f" /\ Chance(70) THEN "f" ELSE "d"} : \E f \in {Fill(sg, d, sel, k, ty, 80)} :
         Do(NewRec(sg, i, d, sel, ty, f))
\* a tensor contractible with a live one: some of its dimensions are inverses of the other's
GenCo == \E a \in Rnd(LiveN) : \E i \in Rnd((1..NR) \ {a}) :
         \E d0 \in {TLCEval(TakeDims(
               SelectSeq([j \in 1..Len(reg[a].d) |-> InvDim(sg, reg[a].d[j])], LAMBDA z : Chance(IF Len(reg[a].d) >= 5 THEN 92 ELSE 70))
               \o (IF Chance(60) THEN <<RS(voc)>> ELSE <<>>), MaxEl))} :
         \E d \in {TLCEval(IF Chance(50) THEN Rev(d0) ELSE d0)} :
         \E sel \in {RSel(sg, d)} : \E ty \in {RType(0)} : \E f \in {Fill(sg, d, sel, "int", ty, 75)} :
         Do(NewRec(sg, i, d, sel, ty, f))
\* a batch-compatible right factor for a live tensor of rank >= 2
GenBm == \E a \in Rnd({i \in LiveN : Len(reg[i].d) >= 2}) : \E i \in Rnd((1..NR) \ {a}) :
         \E d \in {TLCEval(LET r == Len(reg[a].d) IN [j \in 1..r |->
              IF j <= r - 2 THEN [x \in 1..Len(reg[a].d[j]) |-> <<reg[a].d[j][x][1], RQ(sg)>>]
              ELSE IF j = r - 1 THEN InvDim(sg, reg[a].d[r]) ELSE RS(voc)])} :
         \E sel \in {RSel(sg, d)} : \E f \in {Fill(sg, d, sel, "int", reg[a].t, 80)} :
         Numel(d) <= 81 /\ Do(NewRec(sg, i, d, sel, reg[a].t, f))

SameAs(a, S) == {b \in S : SameShape(reg[a], reg[b])}
Or(S, D) == IF S = {} THEN D ELSE S
BcAs(a, S) == {b \in S : BOk(reg[a], reg[b])}

Extra(a, S) == {b \in S : ToSet(reg[b].b) \ ToSet(reg[a].b) # {}}     \* those which store a block that a does not
GenBin(op) == \E a \in Rnd(LiveN) :
     IF Chance(60) /\ Extra(a, SameAs(a, LiveN)) = {} THEN GenLike
     ELSE
     \E b \in {IF Chance(85) THEN RandomElement(IF Chance(85) THEN Or(Extra(a, SameAs(a, LiveN)), Or(SameAs(a, LiveN) \ {a}, {a})) ELSE SameAs(a, LiveN)) ELSE RandomElement(LiveN)} :
     \E x \in {RS(<<1, 1, 2, -1, -3, 0>>)} :
     (op \in InPlace => reg[a].t = Promote(reg[a].t, reg[b].t)) /\
     Do([O(op, DstFor(op, a), a, b) EXCEPT !.m = RS(<<0, 1, 2, 2, 2, 3>>)] @@ [x |-> x])
Larger(x, y) == IF x > y THEN x ELSE y
BSmall(a, b) == LET x == reg[a].d  y == reg[b].d  r == Larger(Len(x), Len(y))
                    S(d, i) == IF i <= r - Len(d) THEN 1 ELSE DimSize(d[i - r + Len(d)])
                    RECURSIVE M(_) M(i) == IF i > r THEN 1 ELSE Larger(S(x, i), S(y, i)) * M(i + 1)
                IN M(1) <= 81
GenScal(op) == \E a \in Rnd(LiveN) : \E x \in {RandomElement({-2, -1, 0, 1, 2, 3})} : \E y \in {RS(<<1, 1, 2, -1>>)} :
     Do(O(op, DstFor(op, a), a, a) @@ [x |-> x, y |-> y])
GenBcast(op) ==
   LET L == IF op \in {"mul", "mul_"} THEN LiveN ELSE LiveD IN
   \E a \in Rnd(L) : \E b \in {IF Chance(90) THEN RandomElement(IF Chance(75) THEN Or(BcAs(a, L) \ {a}, {a}) ELSE BcAs(a, L)) ELSE RandomElement(L)} :
     (op \in InPlace => reg[a].t = PromoteB(reg[a], reg[b])) /\ BSmall(a, b) /\
     Do(O(op, DstFor(op, a), a, b))
Exact(op) ==   \* choose operands for which the result is an integer when there are some
   {p \in LiveD \X LiveD : (op \in InPlace => Len(reg[p[1]].d) >= Len(reg[p[2]].d) /\ reg[p[1]].t = PromoteB(reg[p[1]], reg[p[2]])) /\ BOk(reg[p[1]], reg[p[2]]) /\ BSmall(p[1], p[2]) /\
        Outcome(sg, reg, O(op, p[1], p[1], p[2])).k = "ok"}
GenExact(op) == \E p \in Rnd(Exact(op)) : Do(O(op, DstFor(op, p[1]), p[1], p[2]))
GenUn(op) == \E a \in Rnd(LiveN) : Do(O(op, DstFor(op, a), a, a))
GenUnD(op) == \E a \in Rnd(LiveD) : Do(O(op, DstFor(op, a), a, a))
GenSqrt(op) == \E a \in Rnd({i \in LiveD : \A k \in 1..Len(reg[i].v) : reg[i].v[k] \in {0,1,4,9,16}}) :
     Do(O(op, DstFor(op, a), a, a))
GenPows(op) == \E a \in Rnd(LiveD) : \E x \in {RandomElement(0..3)} : Do(O(op, DstFor(op, a), a, a) @@ [x |-> x])
GenCmps == \E a \in Rnd(LiveD) : \E c \in Rnd({"ge", "le", "less", "greater", "eq", "not_equal"}) : \E x \in Rnd(-1..1) :
     Do(O("cmps", Dst(0), a, a) @@ [c |-> c, x |-> x])
GenRdiv == \E a \in Rnd(LET S == {i \in LiveD : RdivOut(reg[i], 12).k = "ok"} IN S) : \E x \in {RS(<<12, -12, 24>>)} :
     Do(O("rdivs", Dst(0), a, a) @@ [x |-> x])
GenFac == \E d \in {RDims(sg)} : \E sel \in {RSel(sg, d)} : \E c \in {RS(<<"empty", "rand", "randn", "randint", "randint", "randint">>)} :
     \E lo \in {RS(<<0, 0, -3, 2>>)} : \E w \in {RandomElement(1..4)} :
     Do(O("fac", Dst(0), 1, 1) @@ [d |-> d, s |-> sel, c |-> c, x |-> CASE c = "empty" -> 0 [] c = "rand" -> 0 [] c = "randn" -> -90 [] OTHER -> lo,
                                y |-> CASE c = "empty" -> 1 [] c = "rand" -> 1000 [] c = "randn" -> 90 [] OTHER -> lo + w])
GenT(op) == \E a \in Rnd(IF Profile = "T07" THEN Or({i \in LiveN : Len(reg[i].d) < 2}, LiveN) ELSE {i \in LiveN : Len(reg[i].d) >= 2}) : Do(O(op, DstFor(op, a), a, a))
GenSum == \E a \in Rnd(LiveN) : Do(O("sum", Dst(0), a, a))

Pairs(a, b) == {<<i, j>> \in (0..(Len(reg[a].d)-1)) \X (0..(Len(reg[b].d)-1)) : reg[b].d[j+1] = InvDim(sg, reg[a].d[i+1])}
RECURSIVE Match(_, _)
Match(P, c) == IF P = {} \/ ~Chance(c) THEN <<>>
               ELSE LET p == TLCEval(RandomElement(P)) IN
                    TLCEval(<<p>> \o Match({q \in P : q[1] # p[1] /\ q[2] # p[2]}, c))
\* evaluating the product of large tensors isn't worth the time: Small would refuse it
DotSmall(a, b, p) == Len(reg[a].d) + Len(reg[b].d) - 2 * Len(p) <= 6 /\
    LET RECURSIVE M(_) M(k) == IF k = 0 THEN 1 ELSE DimSize(reg[a].d[p[k] + 1]) * M(k - 1)
        c == M(Len(p)) IN (Numel(reg[a].d) \div c) * (Numel(reg[b].d) \div c) <= 81
BestPartners(a) == LET S == {b \in LiveN : Pairs(a, b) # {}} IN IF S = {} THEN LiveN ELSE S
GenDot == \E a \in Rnd(LiveN) : \E b \in Rnd(IF Chance(85) THEN BestPartners(a) ELSE LiveN) :
          \E mt \in {Match(Pairs(a, b), RS(<<100, 90, 60>>))} :
          DotSmall(a, b, [i \in 1..Len(mt) |-> mt[i][1]]) /\
          Do(O("tensordot", Dst(0), a, b) @@ [p |-> [i \in 1..Len(mt) |-> mt[i][1]], q |-> [i \in 1..Len(mt) |-> mt[i][2]]])
\* arbitrary index lists: mostly to be refused
GenDotBad == \E a \in Rnd({i \in LiveN : Len(reg[i].d) > 0}) : \E b \in Rnd({i \in LiveN : Len(reg[i].d) > 0}) :
          \E i \in Rnd(0..(Len(reg[a].d)-1)) : \E j \in Rnd(0..(Len(reg[b].d)-1)) :
          Len(reg[a].d) + Len(reg[b].d) <= 8 /\
          Do(O("tensordot", Dst(0), a, b) @@ [p |-> IF Chance(85) THEN <<i>> ELSE <<i, i>>, q |-> IF Chance(90) THEN <<j>> ELSE <<>>])
BmmAs(a) == {b \in LiveN : reg[b].t = reg[a].t /\ BmmOut(sg, reg[a], reg[b]).k = "ok"}
GenBmm == \E a \in Rnd({i \in LiveN : Len(reg[i].d) >= 2}) :
          \E b \in Rnd(LET S == {i \in LiveN : reg[i].t = reg[a].t} IN IF Chance(90) THEN Or(BmmAs(a), {i \in S : Len(reg[i].d) = Len(reg[a].d)}) ELSE S) :
          Do(O("bmm", Dst(0), a, b))

RPerm(r) == LET RECURSIVE P(_) P(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN TLCEval(<<x>> \o P(S \ {x}))
            IN P(0..(r-1))
GenPerm(op) == \E a \in Rnd(LiveN) : \E p \in {TLCEval(RPerm(Len(reg[a].d)))} : \E neg \in {RandomElement(1..5)} :
          Do(O(op, DstFor(op, a), a, a) @@ [p |-> [i \in 1..Len(p) |-> IF neg = 1 /\ i % 2 = 1 THEN p[i] - Len(p) ELSE p[i]]])
\* lists that are no permutation: too short, too long, repetitions, out of range
GenPermBad(op) == \E a \in Rnd(LiveN) : \E r \in {Len(reg[a].d)} : \E l \in Rnd({r, r, r, r, r + 1} \cup (IF r > 0 THEN {r - 1} ELSE {})) :
          \E p \in {TLCEval([i \in 1..l |-> RandomElement((-r-1)..r)])} :
          Do(O(op, DstFor(op, a), a, a) @@ [p |-> p])
GenTr(op) == \E a \in Rnd({i \in LiveN : Len(reg[i].d) >= 2}) : \E x \in Rnd((-Len(reg[a].d))..(Len(reg[a].d)-1)) :
             \E y \in Rnd((-Len(reg[a].d))..(Len(reg[a].d)-1)) :
             Do(O(op, DstFor(op, a), a, a) @@ [x |-> x, y |-> y])
GenTrBad(op) == \E a \in Rnd(LiveN) : \E r \in {Len(reg[a].d)} : \E x \in Rnd((-r-1)..r) : \E y \in Rnd({-r-1, r, r + 1}) : \E sw \in {Chance(50)} :
             Do(O(op, DstFor(op, a), a, a) @@ [x |-> IF sw THEN x ELSE y, y |-> IF sw THEN y ELSE x])
GenSqdBad(op) == \E a \in Rnd(LiveN) : \E x \in Rnd({-2, -1, Len(reg[a].d), Len(reg[a].d) + 1}) :
          Do(O(op, DstFor(op, a), a, a) @@ [x |-> x])
\* groups that can be empty (a neutral unit dimension), or invalid
RECURSIVE RGroups(_, _, _)
RGroups(x, r, l) == IF l = 0 THEN <<>> ELSE \* non-decreasing
          LET y == TLCEval(RandomElement(x..r)) IN TLCEval(<<y>> \o RGroups(y, r, l - 1))
GenReshEmpty == \E a \in Rnd({i \in LiveN : Len(reg[i].d) <= 3}) : \E l \in Rnd(0..4) :
           \E g \in {TLCEval(RGroups(0, Len(reg[a].d), l))} : Do(O("reshape", Dst(0), a, a) @@ [p |-> g])
GenReshBad == \E a \in Rnd(LiveN) : \E l \in Rnd(1..3) : \E g \in {TLCEval([i \in 1..l |-> RandomElement((-1)..(Len(reg[a].d)+1))])} :
           Do(O("reshape", Dst(0), a, a) @@ [p |-> g])
GenResh == \E a \in Rnd({i \in LiveN : Len(reg[i].d) >= 1}) :
           \E g \in {TLCEval(SelectSeq([i \in 1..(Len(reg[a].d)-1) |-> i], LAMBDA z : Chance(50)))} :
           Do(O("reshape", Dst(0), a, a) @@ [p |-> g])
ReshAs(a) == {b \in LiveN : ReshapeAsOut(sg, reg[a], reg[b]).k = "ok"}
GenReshAs(op) == \E a \in Rnd(LiveN) :
           \E b \in Rnd(IF Chance(85) THEN Or(ReshAs(a) \ {a}, {a}) ELSE LiveN) :
           Do(O(op, Dst(0), a, b))
\* the same partition with other charges: those of a section changed (which forbids some blocks), or those of a dimension with the rule
GenOverShape == \E a \in Rnd(Or({i \in LiveN : Len(reg[i].d) >= 1 /\ Len(reg[i].b) >= 2}, {i \in LiveN : Len(reg[i].d) >= 1})) : \E i \in Rnd((1..NR) \ {a}) :
           \E j \in Rnd(1..Len(reg[a].d)) : \E k \in Rnd(1..Len(reg[a].d[j])) : \E q \in {RQ(sg)} : \E all \in {Chance(50)} :
           \E d \in {TLCEval([reg[a].d EXCEPT ![j] = [x \in 1..Len(@) |-> IF all \/ x = k THEN <<@[x][1], QAdd(sg, @[x][2], q)>> ELSE @[x]]])} :
           \E sel \in {IF all THEN QAdd(sg, reg[a].s, q) ELSE reg[a].s} : \E f \in {Fill(sg, d, sel, "int", reg[a].t, RS(<<0, 50>>))} :
           Do(NewRec(sg, i, d, sel, reg[a].t, f))
OverAs(a) == {b \in LiveN \ {a} : ReshapeCompat(sg, reg[a].d, reg[b].d) /\ (reg[a].d # reg[b].d \/ reg[a].s # reg[b].s)}
GenOver == LET S == {i \in LiveN : reg[i].b # <<>> /\ OverAs(i) # {}} IN
           IF S = {} THEN GenOverShape
           ELSE \E a \in Rnd(S) : \E b \in Rnd(OverAs(a)) : Do(O("reshape_over", Dst(0), a, b))
RFix(d, big) == TLCEval([i \in 1..Len(d) |-> IF Chance(50) THEN -1
                         ELSE IF big /\ Chance(25) THEN RandomElement({-2, -3, -4}) ELSE RandomElement(0..(DimSize(d[i]) - 1 + (IF big THEN 1 ELSE 0)))])
GenView == \E a \in Rnd(LiveN) : \E f \in {RFix(reg[a].d, Profile = "T07" /\ Chance(40))} : \E y \in Rnd({0, 0, 1}) :
           Do(O("view", Dst(0), a, a) @@ [p |-> f, y |-> y])
GenShapeFrom == \E a \in Rnd(LiveN) : \E f \in {RFix(reg[a].d, Profile = "T07" /\ Chance(40))} :
           Do(O("shape_from", Dst(0), a, a) @@ [p |-> f])
\* write: first build a fitting source tensor, then put it
GenPutSrc == \E a \in Rnd(LiveN) : \E i \in Rnd((1..NR) \ {a}) : \E f \in {RFix(reg[a].d, FALSE)} :
           LET d == FixDims(reg[a].d, f)  s == QSub(sg, reg[a].s, FixQ(sg, reg[a].d, f)) IN
           \E z \in {Fill(sg, d, s, "int", reg[a].t, 65)} : Do(NewRec(sg, i, d, s, reg[a].t, z))
PutPos(a, b) == \* all positions where b fits into a
   {f \in [1..Len(reg[a].d) -> -1..2] : FixOk(reg[a].d, f) /\ PutOut(sg, reg[a], f, reg[b]).k = "ok"}
PutPairs == {p \in LiveN \X LiveN : Len(reg[p[1]].d) <= 3 /\ Len(reg[p[2]].d) <= Len(reg[p[1]].d) /\ reg[p[2]].t = reg[p[1]].t}
GenPut == \E p \in Rnd(PutPairs) :
          \E f \in {TLCEval(IF PutPos(p[1], p[2]) # {} /\ Chance(90) THEN RandomElement(PutPos(p[1], p[2]))
                    ELSE RFix(reg[p[1]].d, FALSE))} :
          Do(O("put", p[1], p[1], p[2]) @@ [p |-> f])
GenPutD == \E a \in Rnd(LiveD) : \E f \in {RFix(reg[a].d, FALSE)} :
          LET sh == Shape(FixDims(reg[a].d, f)) IN
          \E v \in {TLCEval([k \in 1..Prod(sh) |-> RandomElement({-2,-1,0,0,0,1,2})])} :
          Do(O("putd", a, a, a) @@ [p |-> f, q |-> sh, v |-> v])
GenSetBlock == \E a \in Rnd(LiveD) :
          \E b0 \in {TLCEval([i \in 1..Len(reg[a].d) |-> RandomElement(0..(Len(reg[a].d[i])-1))])} :
          \E i \in {IF b0 = <<>> THEN 0 ELSE RandomElement(1..Len(b0))} :
          \E bi \in {IF Profile \in {"T01", "T07"} /\ Chance(10) THEN b0 \o <<0>>
                    ELSE IF Profile \in {"T01", "T07"} /\ b0 # <<>> /\ Chance(20)
                         THEN [b0 EXCEPT ![i] = RandomElement({-1, Len(reg[a].d[i]), Len(reg[a].d[i]) + 1})] ELSE b0} :
          \E v \in {TLCEval([k \in 1..BlockNumel(reg[a].d, b0) |-> RandomElement(-3..3)])} :
          Do(O("setblock", a, a, a) @@ [p |-> bi, v |-> v])
GenSq(op) == \E a \in Rnd(LET S == {i \in LiveN : \E j \in 1..Len(reg[i].d) : IsUnit(reg[i].d[j])} IN IF Chance(80) THEN Or(S, LiveN) ELSE LiveN) :
          Do(O(op, DstFor(op, a), a, a))
GenSqd(op) == \E a \in Rnd({i \in LiveN : Len(reg[i].d) > 0}) :
          LET U == {j \in 0..(Len(reg[a].d)-1) : IsUnit(reg[a].d[j+1])} IN
          \E x \in Rnd(IF Chance(80) THEN Or(U, 0..(Len(reg[a].d)-1)) ELSE 0..(Len(reg[a].d)-1)) :
          Do(O(op, DstFor(op, a), a, a) @@ [x |-> x])
GenShift(op) == \E a \in Rnd({i \in (IF op = "ncshift_" /\ Chance(80) THEN Or(LiveE, LiveN) ELSE LiveN) : Len(reg[i].d) > 0}) :
          \E x \in Rnd(0..(Len(reg[a].d)-1 + (IF Profile = "T07" /\ Chance(10) THEN 1 ELSE 0))) : \E q \in {RQ(sg)} :
          Do(O(op, DstFor(op, a), a, a) @@ [x |-> x, q |-> q])
\* the charge that is passed is one of the tensor's own
GenOwn == \E op \in {RS(<<"cvshift_", "cvshift_", "cvshift", "ncshift_", "shiftsel_", "setsel_">>)} :
          \E a \in Rnd({i \in (IF op \in {"cvshift", "cvshift_"} THEN LiveN ELSE LiveE) : Len(reg[i].d) > 0}) : \E x \in Rnd(0..(Len(reg[a].d)-1)) :
          \E y \in Rnd(IF Chance(60) THEN {x} ELSE 0..(Len(reg[a].d)-1)) : \E k \in Rnd(0..(Len(reg[a].d[y+1])-1)) :
          IF Chance(20) THEN Do(O(op, DstFor(op, a), a, a) @@ [x |-> x, q |-> reg[a].s, al |-> <<>>])
          ELSE Do(O(op, DstFor(op, a), a, a) @@ [x |-> x, q |-> reg[a].d[y+1][k+1][2], al |-> <<y, k>>])
GenSel(op) == \E a \in Rnd(IF Chance(75) THEN Or(LiveE, LiveN) ELSE LiveN) : \E q \in {RQ(sg)} :
          Do(O(op, DstFor(op, a), a, a) @@ [q |-> q])
GenNs(op) == \E a \in Rnd(IF Chance(75) THEN Or(LiveE, LiveN) ELSE LiveN) : Do(O(op, DstFor(op, a), a, a))
GenProd == \E a \in Rnd(LiveN) : \E b \in Rnd(LiveN) : DotSmall(a, b, <<>>) /\ Do(O("shape_prod", Dst(0), a, b))

GenFromDense == \E d \in {RDims(sg)} : \E sel \in {RSel(sg, d)} : \E x \in {RS(<<0, 0, 1, 2>>)} :
          \E dens \in {RS(<<20, 50, 100>>)} :
          \E v \in {TLCEval([k \in 1..Numel(d) |-> IF Chance(dens) THEN RandomElement(-3..3) ELSE 0])} :
          \E sh \in {IF Profile = "T07" /\ Chance(30) THEN Shape(RDims(sg)) ELSE Shape(d)} :
          \E vv \in {IF sh = Shape(d) THEN v ELSE Zeros(Prod(sh))} :
          \E ty \in {IF vv = <<>> THEN "d" ELSE RS(<<"d", "d", "f", "c">>)} : \E y \in {RS(<<0, 0, 1>>)} :
          \E ww \in {IF ty = "c" /\ y = 0 THEN TLCEval([k \in 1..Len(vv) |-> IF Chance(dens) THEN RandomElement(-3..3) ELSE 0]) ELSE <<>>} :
          Do(O("fromdense", Dst(0), 1, 1) @@ [d |-> d, s |-> sel, p |-> sh, v |-> vv, w |-> ww, x |-> x, t |-> ty, y |-> y])
GenFull == \E d \in {RDims(sg)} : \E sel \in {RSel(sg, d)} : \E x \in Rnd(-3..3) :
          Do(O("full", Dst(0), 1, 1) @@ [d |-> d, s |-> sel, x |-> x])
GenFullLike == \E a \in Rnd(LiveD) : \E x \in Rnd(-3..3) : Do(O("full_like", Dst(0), a, a) @@ [x |-> x])
GenEye == \E d \in {LET e == RDim(sg) IN TLCEval(<<e, IF Chance(70) THEN InvDim(sg, e) ELSE RDim(sg)>>)} :
          Do(O("eye", Dst(0), 1, 1) @@ [d |-> d])
GenEyeLike == \E a \in Rnd(LET S == {i \in LiveD : Len(reg[i].d) = 2} IN IF Profile = "T07" THEN LiveD ELSE S) :
          Do(O("eye_like", Dst(0), a, a))
GenFindRule == \E a \in Rnd({i \in LiveD : Len(reg[i].d) = 2}) :
          \E sh \in {IF Chance(92) THEN Shape(reg[a].d) ELSE <<RandomElement(1..5), RandomElement(1..5)>>} :
          \E v \in {TLCEval(IF Chance(70) /\ sh = Shape(reg[a].d) THEN reg[a].v ELSE [k \in 1..Prod(sh) |-> IF Chance(10) THEN RandomElement({-3, -2, -1, 1, 2}) ELSE 0])} : \E x \in {RS(<<0, 0, 1, 2>>)} :
          Do(O("findrule", Dst(0), a, a) @@ [v |-> v, p |-> sh, x |-> x])
GenItem == \E a \in Rnd(LET S == {i \in LiveD : Len(reg[i].v) = 1} IN Or(S, LiveD)) : Do(O("item", Dst(0), a, a))
GenAllClose == \E a \in Rnd(LiveD) : \E b \in {RandomElement(IF Chance(50) THEN Or(Extra(a, SameAs(a, LiveD)), Or(SameAs(a, LiveD) \ {a}, {a})) ELSE IF Chance(60) THEN SameAs(a, LiveD) ELSE LiveD)} :
  IF Chance(30) \/ reg[a].t # "d" \/ reg[b].t # "d" THEN Do(O("allclose", Dst(0), a, b))
  ELSE \E x \in {RS(<<0, 0, 1, 2, 3, 4, 6>>)} : \E y \in {RS(<<0, 0, 1, 2, 3, 4>>)} : Do(O("allclosetol", Dst(0), a, b) @@ [x |-> x, y |-> y])

Elementwise == <<"add", "add", "add_", "sub", "sub_", "adds", "adds_", "subs", "muls", "muls_", "mul", "mul", "mul", "mul_", "mul_", "div", "div", "div_",
                 "divs", "divs_", "rdivs", "pow", "pow_", "pows", "pows_", "abs", "abs_", "sqrt", "sqrt_", "sum", "ge", "le", "less", "greater", "eq", "not_equal", "cmps",
                 "like", "like", "bc", "bc", "bc", "bc">>
Contraction == <<"tensordot", "tensordot", "tensordot", "tensordot", "tensordot", "bmm", "bmm", "co", "co", "co", "bm", "bm", "permute">>
Layout == <<"t", "t_", "permute", "permute", "permute_", "transpose", "transpose_", "reshape", "reshape", "reshape", "reshape_as", "reshape_as", "reshape_as", "reshape_over", "reshape_over",
            "view", "view", "view", "shape_from", "squeeze", "squeeze_", "squeezed", "squeezed_", "reshempty", "putsrc", "putsrc", "put", "put", "put", "putd">>
ChargeOps == <<"own", "own", "conj", "conj_only", "inverse", "inverse_", "cvshift", "cvshift_", "cvshift_", "ncshift_", "shiftsel_", "setsel_", "neutralsel", "neutralshape", "neutralshape_",
               "shape_from", "shape_prod", "likeshape">>
Conversion == <<"fac", "fac", "fac", "any", "anynan", "isnan", "fromdense", "fromdense", "full", "full_like", "eye", "eye_like", "findrule", "item", "allclose", "allclose", "setblock", "putd", "likeshape", "like">>
Refusals == <<"permbad", "permbad", "trbad", "sqdbad", "reshbad", "reshbad", "dotbad", "dotbad", "add", "add_", "mul", "mul_", "bmm", "reshape_as", "reshape_over", "view", "shape_from", "put", "putd", "setblock", "setblock", "setblock", "fromdense", "eye_like",
              "setsel_", "shiftsel_", "ncshift_", "neutralshape", "cvshift", "div", "pow_", "eq", "copy", "like", "add", "add_", "sub", "sub_">>
Ops == CASE Profile = "T02" -> Elementwise \o <<"new", "new", "new">>
         [] Profile = "T03" -> Contraction \o <<"new", "new">>
         [] Profile = "T04" -> Layout \o <<"new", "new", "new", "mul">>
         [] Profile = "T05" -> ChargeOps \o <<"new", "new", "new", "tensordot", "permute">>
         [] Profile = "T06" -> Conversion \o <<"new", "new">>
         [] Profile = "T07" -> Refusals \o Refusals \o Elementwise \o Contraction \o Layout \o ChargeOps \o <<"new", "new", "new", "new", "new", "new", "new", "new">>
         [] OTHER -> Elementwise \o Contraction \o Contraction \o Layout \o Layout \o ChargeOps \o ChargeOps \o Conversion
                     \o <<"new", "new", "new", "new", "new", "new", "new", "new">>

Gen(k) ==
  CASE k = "new" -> GenNew [] k = "like" -> GenLike [] k = "bc" -> GenBc [] k = "co" -> GenCo [] k = "bm" -> GenBm
    [] k \in {"add", "add_", "sub", "sub_"} -> GenBin(k)
    [] k \in {"adds", "adds_", "subs", "subs_", "muls", "muls_", "divs", "divs_"} -> GenScal(k)
    [] k \in {"mul", "mul_", "ge", "le", "less", "greater", "eq", "not_equal"} -> GenBcast(k)
    [] k \in {"div", "div_", "pow", "pow_"} -> GenExact(k)
    [] k \in {"pows", "pows_"} -> GenPows(k)
    [] k \in {"abs", "abs_"} -> GenUnD(k)
    [] k \in {"sqrt", "sqrt_"} -> GenSqrt(k)
    [] k = "sum" -> GenSum [] k = "cmps" -> GenCmps
    [] k = "tensordot" -> GenDot [] k = "dotbad" -> GenDotBad [] k = "bmm" -> GenBmm
    [] k \in {"permute", "permute_"} -> GenPerm(k)
    [] k \in {"transpose", "transpose_"} -> GenTr(k)
    [] k = "permbad" -> GenPermBad(RS(<<"permute", "permute_">>)) [] k = "trbad" -> GenTrBad(RS(<<"transpose", "transpose_">>))
    [] k = "sqdbad" -> GenSqdBad(RS(<<"squeezed", "squeezed_">>)) [] k = "reshbad" -> GenReshBad [] k = "reshempty" -> GenReshEmpty
    [] k = "reshape" -> GenResh [] k = "reshape_as" -> GenReshAs(k)
    [] k = "reshape_over" -> IF Chance(70) THEN GenOver ELSE GenReshAs(k)
    [] k = "view" -> GenView [] k = "shape_from" -> GenShapeFrom
    [] k \in {"squeeze", "squeeze_"} -> GenSq(k) [] k \in {"squeezed", "squeezed_"} -> GenSqd(k)
    [] k = "putsrc" -> GenPutSrc [] k = "put" -> GenPut [] k = "putd" -> GenPutD [] k = "setblock" -> GenSetBlock
    [] k \in {"conj", "conj_only", "inverse", "inverse_", "copy"} -> GenUn(k)
    [] k \in {"cvshift", "cvshift_", "ncshift_"} -> GenShift(k)
    [] k = "own" -> GenOwn
    [] k \in {"shiftsel_", "setsel_"} -> GenSel(k)
    [] k \in {"neutralsel", "neutralshape", "neutralshape_"} -> GenNs(k)
    [] k = "shape_prod" -> GenProd [] k = "likeshape" -> GenUn("like")
    [] k = "fromdense" -> GenFromDense [] k = "full" -> GenFull [] k = "full_like" -> GenFullLike
    [] k = "eye" -> GenEye [] k = "eye_like" -> GenEyeLike [] k = "findrule" -> GenFindRule
    [] k = "rdivs" -> GenRdiv [] k = "fac" -> GenFac [] k \in {"t", "t_"} -> GenT(k) [] k \in {"any", "anynan", "isnan"} -> GenUn(k)
    [] k = "item" -> GenItem [] k = "allclose" -> GenAllClose

Init == n = 0 /\ reg = [i \in 1..NR |-> Null] /\ sg = <<0>> /\ voc = <<>> /\ last = None
Begin == /\ \E s \in Rnd(Sigs) : sg' = s /\ voc' = RVoc(s)
         /\ n' = 1 /\ reg' = reg
         /\ last' = [op |-> "begin", sg |-> sg', dst |-> 1, a |-> 1, b |-> 1]
Skip == n' = n + 1 /\ last' = None /\ UNCHANGED <<reg, sg, voc>>
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ IF Cardinality(Live) < 3 THEN GenNew ELSE \E j \in 1..3 : \E k \in {RS(Ops)} : Gen(k)
           \/ Cardinality(Live) >= 3 /\ Skip
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
