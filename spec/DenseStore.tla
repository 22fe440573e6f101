----------------------------- MODULE DenseStore -----------------------------
(* Plain tensors (shape, row-major content, imaginary part) and the           *)
(* generalized contraction; tools on lists of dimensions.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NR == 4
Prod(s)   == FoldLeft(LAMBDA a, c : a * c, 1, s)
SumS(s)   == FoldLeft(LAMBDA a, c : a + c, 0, s)
Strides(sh)  == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, i+1, Len(sh)))]
Unravel(k, sh, st) == [i \in 1..Len(sh) |-> (k \div st[i]) % sh[i]]
Ravel(ix, st) == FoldLeftDomain(LAMBDA a, i : a + ix[i] * st[i], 0, ix)
B01(p) == IF p THEN 1 ELSE 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
D(sh, v, w) == [sh |-> sh, v |-> v, w |-> w]
Zero(ty) == D(<<>>, <<0>>, IF ty = 1 THEN <<0>> ELSE <<>>)
Wrap(l, r) == [i \in 1..Len(l) |-> IF l[i] < 0 THEN l[i] + r ELSE l[i]]
InRange(l, r) == \A i \in 1..Len(l) : l[i] \in (-r)..(r - 1)
NoRepeat(l) == Cardinality({l[i] : i \in 1..Len(l)}) = Len(l)
Free(l, r) == SelectSeq([i \in 1..r |-> i - 1], LAMBDA x : \A j \in 1..Len(l) : l[j] # x)
Larger(a, b) == IF a > b THEN a ELSE b
\* lists d1, d2 of the same length, in range
Listed(A, B, d1, d2) == Len(d1) = Len(d2) /\ InRange(d1, Len(A.sh)) /\ InRange(d2, Len(B.sh))
   /\ NoRepeat(Wrap(d1, Len(A.sh))) /\ NoRepeat(Wrap(d2, Len(B.sh)))
\* paired extents are equal, or one of them is one
Paired(A, B, d1, d2) == \A i \in 1..Len(d1) : LET x == A.sh[d1[i] + 1]  y == B.sh[d2[i] + 1] IN x = y \/ x = 1 \/ y = 1
ShapeOf(A, B, d1, d2) == LET f1 == Free(d1, Len(A.sh))  f2 == Free(d2, Len(B.sh)) IN
   [i \in 1..Len(f1) |-> A.sh[f1[i] + 1]] \o [i \in 1..Len(f2) |-> B.sh[f2[i] + 1]]
\* d1, d2 in 0.. ; position k (from 0) of the contraction
Gdot(C, A, B, d1, d2, be, al) ==
  LET f1 == Free(d1, Len(A.sh))  f2 == Free(d2, Len(B.sh))
      osh == ShapeOf(A, B, d1, d2)  ost == Strides(osh)
      csh == [i \in 1..Len(d1) |-> Larger(A.sh[d1[i] + 1], B.sh[d2[i] + 1])]  cst == Strides(csh)
      ast == Strides(A.sh)  bst == Strides(B.sh)
      cn == IF \E i \in 1..Len(d1) : A.sh[d1[i] + 1] = 0 \/ B.sh[d2[i] + 1] = 0 THEN 0 ELSE Prod(csh)
      ca == [c \in 1..cn |-> LET u == Unravel(c - 1, csh, cst) IN FoldLeftDomain(LAMBDA acc, i : acc + (IF A.sh[d1[i] + 1] = 1 THEN 0 ELSE u[i] * ast[d1[i] + 1]), 0, d1)]
      cb == [c \in 1..cn |-> LET u == Unravel(c - 1, csh, cst) IN FoldLeftDomain(LAMBDA acc, i : acc + (IF B.sh[d2[i] + 1] = 1 THEN 0 ELSE u[i] * bst[d2[i] + 1]), 0, d2)]
      fa(u) == FoldLeftDomain(LAMBDA acc, i : acc + u[i] * ast[f1[i] + 1], 0, f1)
      fb(u) == FoldLeftDomain(LAMBDA acc, i : acc + u[Len(f1) + i] * bst[f2[i] + 1], 0, f2)
      re(k) == LET u == Unravel(k, osh, ost)  x == fa(u)  y == fb(u) IN
               FoldLeftDomain(LAMBDA acc, c : acc + A.v[x + ca[c] + 1] * B.v[y + cb[c] + 1] - (IF A.w = <<>> THEN 0 ELSE A.w[x + ca[c] + 1] * B.w[y + cb[c] + 1]), 0, ca)
      im(k) == LET u == Unravel(k, osh, ost)  x == fa(u)  y == fb(u) IN
               FoldLeftDomain(LAMBDA acc, c : acc + A.v[x + ca[c] + 1] * B.w[y + cb[c] + 1] + A.w[x + ca[c] + 1] * B.v[y + cb[c] + 1], 0, ca)
  IN D(osh, [k \in 1..Prod(osh) |-> be * C.v[k] + al * re(k - 1)], IF C.w = <<>> THEN <<>> ELSE [k \in 1..Prod(osh) |-> be * C.w[k] + al * im(k - 1)])
Set1(reg, i, v, r) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = v], r |-> r]
Val(reg, r) == [k |-> "ok", reg |-> reg, r |-> r]
Refused(reg) == [k |-> "ex", reg |-> reg, r |-> <<>>]
GdotOut(reg, o, target) ==
  LET A == reg[o.a]  B == reg[o.b]  C == reg[o.c]  d1 == Wrap(o.d1, Len(A.sh))  d2 == Wrap(o.d2, Len(B.sh)) IN
  IF ~Listed(A, B, o.d1, o.d2) \/ ~Paired(A, B, d1, d2) \/ ShapeOf(A, B, d1, d2) # C.sh THEN Refused(reg)
  ELSE Set1(reg, target, Gdot(C, A, B, d1, d2, o.be, o.al), <<1>>)
\* precision and real type of the element types, in the order of the driver
Prec == <<52, 23, 10, 7, 52, 23, 0, 0>>
RealOf == <<0, 1, 2, 3, 0, 1, 6, 7>>
Outcome(reg, o) ==
  CASE o.op = "new" -> Set1(reg, o.dst, D(o.sh, o.v, o.w), <<>>)
    [] o.op = "gdot" -> GdotOut(reg, o, o.dst)
    [] o.op = "gdot_" -> GdotOut(reg, o, o.c)
    [] o.op = "gdoto" -> LET w == GdotOut(reg, o, o.dst) IN
          IF w.k = "ex" THEN w ELSE IF o.x = 1 THEN [w EXCEPT !.reg[o.c] = w.reg[o.dst]] ELSE w
    [] o.op = "gdotn" -> LET ra == Len(reg[o.a].sh)  rb == Len(reg[o.b].sh) IN
          IF o.x < 0 \/ o.x > ra \/ o.x > rb THEN Refused(reg)
          ELSE IF \E i \in 1..o.x : reg[o.a].sh[ra - o.x + i] # reg[o.b].sh[i] THEN Refused(reg)
          ELSE GdotOut(reg, o @@ [d1 |-> [i \in 1..o.x |-> ra - o.x + i - 1], d2 |-> [i \in 1..o.x |-> i - 1]], o.c)
    [] o.op = "concat" -> Val(reg, FlattenSeq(o.ls))
    [] o.op = "reverse" -> Val(reg, Rev(o.l))
    [] o.op = "slice" -> IF o.x + o.y > Len(o.l) THEN Refused(reg) ELSE Val(reg, SubSeq(o.l, o.x + 1, o.x + o.y))
    [] o.op = "prod" -> Val(reg, <<Prod(o.l)>>)
    [] o.op = "prodn" -> IF o.x + o.y > Len(o.l) THEN Refused(reg) ELSE Val(reg, <<Prod(SubSeq(o.l, o.x + 1, o.x + o.y))>>)
    [] o.op = "num" -> Val(reg, <<Prec[o.x + 1], RealOf[o.x + 1]>>)
=============================================================================
