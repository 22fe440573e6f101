------------------------------ MODULE Decomp --------------------------------
(* Decompositions of block tensors (and of plain ones, which are tensors with *)
(* one neutral section per dimension): what a result must satisfy.            *)
(* Results are in fixed point: S stands for one.                              *)
EXTENDS QTensor
S == 4096
Re(t, k) == t.v[k]
ImOf(t, k) == IF t.w = <<>> THEN 0 ELSE t.w[k]
\* the matrix of a tensor, rows = dimensions before split; row-major, from 0
Rows(t, split) == Prod([i \in 1..split |-> DimSize(t.d[i])])
Cols(t, split) == Prod([i \in 1..(Len(t.d) - split) |-> DimSize(t.d[split + i])])
InvDims(sg, ds) == [i \in 1..Len(ds) |-> InvDim(sg, ds[i])]
Rnd(x) == IF x >= 0 THEN (x + S \div 2) \div S ELSE -((-x + S \div 2) \div S)   \* x / S
\* columns of the bond which are really there: their section has weights stored
Kept(d) == LET bs == ToSet(d.b)  es == ElemSec(d.d[1]) IN SelectSeq([k \in 1..Len(es) |-> k], LAMBDA k : <<es[k]>> \in bs)
\* the same with the charge of the bond section
WeightsQ(d, bond) == LET q == ElemQ(bond)  ks == Kept(d) IN [i \in 1..Len(ks) |-> <<d.v[ks[i]], q[ks[i]]>>]
Near(x, y, e) == x - y <= e /\ y - x <= e
\* columns ks of U (n columns, r rows) are orthonormal, the other columns zero
Isometric(U, r, n, ks) ==
  LET kset == ToSet(ks)
      dot(a, b) == FoldLeft(LAMBDA acc, i : <<acc[1] + U.v[i * n + a] * U.v[i * n + b] + ImOf(U, i * n + a) * ImOf(U, i * n + b),
                                              acc[2] + U.v[i * n + a] * ImOf(U, i * n + b) - ImOf(U, i * n + a) * U.v[i * n + b]>>, <<0, 0>>, [i \in 1..r |-> i - 1])
  IN /\ \A i \in 1..Len(ks) : \A j \in i..Len(ks) : LET z == dot(ks[i], ks[j]) IN
          Near(Rnd(z[1]), IF i = j THEN S ELSE 0, 12) /\ Near(Rnd(z[2]), 0, 12)
     /\ \A c \in 1..n \ kset : \A i \in 0..(r-1) : U.v[i * n + c] = 0 /\ ImOf(U, i * n + c) = 0
\* element (i, j), from 0, of U diag(w) V^dagger
Rebuilt(U, w, V, n, ks, i, j) ==
  FoldLeft(LAMBDA acc, k : LET x == i * n + k  y == j * n + k
                               a == Rnd(U.v[x] * w[k])  ai == Rnd(ImOf(U, x) * w[k]) IN
      <<acc[1] + a * V.v[y] + ai * ImOf(V, y), acc[2] + ai * V.v[y] - a * ImOf(V, y)>>, <<0, 0>>, ks)
\* X - U diag(w) V^dagger, element by element
Rest(X, split, U, w, V, ks) ==
  LET r == Rows(X, split)  c == Cols(X, split)  n == Len(w) IN
  [k \in 1..(r * c) |-> LET z == Rebuilt(U, w, V, n, ks, (k - 1) \div c, (k - 1) % c) IN
      <<X.v[k] * S - Rnd(z[1]), ImOf(X, k) * S - Rnd(z[2])>>]
\* squared norm, 65536 for one
Norm2(z) == FoldLeft(LAMBDA acc, x : acc + (x[1] \div 16) * (x[1] \div 16) + (x[2] \div 16) * (x[2] \div 16), 0, z)
Sqr(x) == (x \div 16) * (x \div 16)
Structure(sg, X, split, U, d, V) ==
  LET bond == U.d[split + 1]  rd == SubSeq(X.d, split + 1, Len(X.d)) IN
  /\ Len(U.d) = split + 1 /\ SubSeq(U.d, 1, split) = SubSeq(X.d, 1, split)
  /\ Len(V.d) = Len(rd) + 1 /\ SubSeq(V.d, 1, Len(rd)) = InvDims(sg, rd)
  /\ V.d[Len(rd) + 1] = bond
  /\ d.d = << [i \in 1..Len(bond) |-> <<bond[i][1], QZero(sg)>>] >>
  /\ U.s = X.s /\ d.s = QZero(sg) /\ V.s = QZero(sg)
SameType(X, U, d, V) == U.dt = X.dt /\ V.dt = X.dt /\ d.w = <<>>
Descending(d) == \A k \in 1..(Len(d.v) - 1) : LET es == ElemSec(d.d[1]) IN es[k] = es[k + 1] => d.v[k + 1] <= d.v[k] + 1
Sound(sg, t) == t.ck = 1 /\ WellFormed(sg, t)
\* untruncated singular value decomposition
SvdFails(sg, X, split, U, d, V) ==
  IF ~(Sound(sg, U) /\ Sound(sg, d) /\ Sound(sg, V)) THEN "malformed"
  ELSE IF ~Structure(sg, X, split, U, d, V) THEN "structure"
  ELSE IF ~SameType(X, U, d, V) THEN "type"
  ELSE LET ks == Kept(d)  n == Len(d.v)  z == Rest(X, split, U, d.v, V, ks) IN
  IF ~(\A k \in 1..n : d.v[k] >= 0) \/ ~Descending(d) THEN "weights"
  ELSE IF ~Isometric(U, Rows(X, split), n, ks) THEN "left isometry"
  ELSE IF ~Isometric(V, Cols(X, split), n, ks) THEN "right isometry"
  ELSE IF ~(\A k \in 1..Len(z) : Near(z[k][1], 0, 120) /\ Near(z[k][2], 0, 120)) THEN "product" ELSE ""
\* untruncated eigendecomposition; the new bond is the last of U
EighFails(sg, X, split, e, U) ==
  IF ~(Sound(sg, U) /\ Sound(sg, e)) THEN "malformed"
  ELSE IF ~(Len(U.d) = split + 1 /\ SubSeq(U.d, 1, split) = SubSeq(X.d, 1, split) /\ e.s = QZero(sg)
            /\ e.d = << [i \in 1..Len(U.d[split + 1]) |-> <<U.d[split + 1][i][1], QZero(sg)>>] >>) THEN "structure"
  ELSE IF ~(U.dt = X.dt /\ e.w = <<>>) THEN "type"
  ELSE LET ks == Kept(e)  n == Len(e.v)  z == Rest(X, split, U, e.v, U, ks) IN
  IF ~Isometric(U, Rows(X, split), n, ks) THEN "isometry"
  ELSE IF ~(\A k \in 1..Len(z) : Near(z[k][1], 0, 120) /\ Near(z[k][2], 0, 120)) THEN "product" ELSE ""
---------------------------------------------------------------------------
(* Truncation.  all, kept: sequences of <<value, sector>>; values in fixed    *)
(* point with unit one; the weight of x is |x|^pow and tol2 = twice the        *)
(* tolerance.  mx = 0 stands for no maximum.  e: precision of the values.      *)
Sort(s) == SortSeq(s, LAMBDA x, y : x > y)
Mag(ws) == [i \in 1..Len(ws) |-> Abs(ws[i][1])]
OfSector(ws, q) == SelectSeq(ws, LAMBDA x : x[2] = q)
Pow(x, p) == IF p = 1 THEN x ELSE x * x
Total(xs, p) == FoldLeft(LAMBDA a, x : a + Pow(x, p), 0, xs)
\* values (with sign) of kept are, sector by sector, the largest of all
LargestOfSector(all, kept, e) ==
  \A q \in {x[2] : x \in ToSet(all) \cup ToSet(kept)} :
    LET a == Sort(Mag(OfSector(all, q)))  k == Sort(Mag(OfSector(kept, q)))
        sa == Sort([i \in 1..Len(OfSector(all, q)) |-> OfSector(all, q)[i][1]])
        sk == [i \in 1..Len(OfSector(kept, q)) |-> OfSector(kept, q)[i][1]] IN
    /\ Len(k) <= Len(a) /\ \A i \in 1..Len(k) : Near(a[i], k[i], e)
    /\ \A i \in 1..Len(sk) : \E j \in 1..Len(sa) : Near(sa[j], sk[i], e)
\* what was left out: the smallest magnitudes, sector by sector
LeftOut(all, kept) ==
  LET qs == SetToSeq({x[2] : x \in ToSet(all)}) IN
  FoldLeft(LAMBDA acc, q : LET a == Sort(Mag(OfSector(all, q))) IN acc \o SubSeq(a, Len(OfSector(kept, q)) + 1, Len(a)), <<>>, qs)
\* how many values must be kept when the allowed weight is tolw, the weight of a list
\* being w(list); a: magnitudes, decreasing
Least(a, lo, tolw, w(_)) == LET n == Len(a)  ok(c) == w(SubSeq(a, c + 1, n)) <= tolw IN
  IF ok(lo) THEN lo ELSE CHOOSE c \in (lo + 1)..n : ok(c) /\ ~ok(c - 1)
Needed(a, tolw, mn, mx, w(_)) ==
  LET lo == Min2(Len(a), Max2(mn, 1))  c == Least(a, lo, tolw, w) IN
  IF mx = 0 THEN c ELSE Min2(c, Max2(mx, lo))
TruncFails(all, kept, tol2, mn, mx, p, one, e) ==
  LET n == Len(all)  k == Len(kept)  km == Sort(Mag(kept))  out == LeftOut(all, kept)
      a == Sort(Mag(all))
      least == km[k]
      above == Len(SelectSeq(km, LAMBDA x : x > least + e))     \* kept, without the smallest group of equal values
      tolw == Pow((tol2 * one) \div 2, p)
      slack(xs) == IF e = 0 THEN 0 ELSE IF p = 1 THEN 2 + e * Len(xs) ELSE 2 + FoldLeft(LAMBDA acc, x : acc + 2 * e * x + e * e, 0, xs)
      most == Needed(a, tolw, mn, mx, LAMBDA xs : IF xs = <<>> THEN 0 ELSE Total(xs, p) + slack(xs))
      fewest == Needed(a, tolw, mn, mx, LAMBDA xs : IF xs = <<>> THEN 0 ELSE Max2(Total(xs, p) - slack(xs), 0))
  IN IF n = 0 THEN (IF k = 0 THEN "" ELSE "count")
     ELSE IF k = 0 THEN "nothing kept"
     ELSE IF ~LargestOfSector(all, kept, e) THEN "not the largest of its sector"
     ELSE IF \E i \in 1..Len(out) : out[i] > least + e THEN "a larger value was discarded"
     ELSE IF k < fewest THEN "too few kept"
     ELSE IF above >= most THEN "too many kept"
     ELSE ""
\* the truncated factors are a selection of the columns of the full ones
Column(U, n, c) == LET r == Len(U.v) \div Max2(n, 1) IN [i \in 1..r |-> <<U.v[(i - 1) * n + c], ImOf(U, (i - 1) * n + c)>>]
SameColumn(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i][1], y[i][1], 2) /\ Near(x[i][2], y[i][2], 2)
ColumnsFrom(full, fd, fq, part, pd, pq) ==
  LET kf == Kept(fd)  kp == Kept(pd)  nf == Len(fd.v)  np == Len(pd.v) IN
  \A i \in ToSet(kp) : \E j \in ToSet(kf) : /\ Near(pd.v[i], fd.v[j], 2) /\ pq[i] = fq[j]
     /\ \A m \in 1..Len(full) : SameColumn(Column(part[m], np, i), Column(full[m], nf, j))
---------------------------------------------------------------------------
Down(ws) == [i \in 1..Len(ws) |-> <<(IF ws[i][1] >= 0 THEN 1 ELSE -1) * ((Abs(ws[i][1]) + 2) \div 4), ws[i][2]>>]
One == 1024
\* truncated decompositions, given the untruncated one of the same tensor
DiscardedWeight(X, split, U, w, V, ks, out) ==
  LET z == Rest(X, split, U, w, V, ks)  got == Norm2(z)  want == FoldLeft(LAMBDA acc, x : acc + Sqr(4 * x), 0, out)
  IN Near(got, want, 4000 + want \div 50)
SvdtFails(sg, X, split, fU, fd, fV, U, d, V, o, select) ==
  IF ~(Sound(sg, U) /\ Sound(sg, d) /\ Sound(sg, V)) THEN "malformed"
  ELSE IF ~Structure(sg, X, split, U, d, V) THEN "structure"
  ELSE IF ~SameType(X, U, d, V) THEN "type"
  ELSE LET ks == Kept(d)  n == Len(d.v)
           all == Down(WeightsQ(fd, fU.d[split + 1]))  kept == Down(WeightsQ(d, U.d[split + 1]))
           tf == TruncFails(all, kept, o.tol2, o.mn, o.mx, o.pow, One, 2)
       IN IF tf # "" THEN tf
  ELSE IF ~Isometric(U, Rows(X, split), n, ks) THEN "left isometry"
  ELSE IF ~Isometric(V, Cols(X, split), n, ks) THEN "right isometry"
  ELSE IF ~DiscardedWeight(X, split, U, d.v, V, ks, LeftOut(all, kept)) THEN "error differs from the discarded weight"
  ELSE IF select /\ ~ColumnsFrom(<<fU, fV>>, fd, ElemQ(fU.d[split + 1]), <<U, V>>, d, ElemQ(U.d[split + 1])) THEN "columns" ELSE ""
EightFails(sg, X, split, fe, fU, e, U, o, select) ==
  IF ~(Sound(sg, U) /\ Sound(sg, e)) THEN "malformed"
  ELSE IF ~(Len(U.d) = split + 1 /\ SubSeq(U.d, 1, split) = SubSeq(X.d, 1, split) /\ e.s = QZero(sg)
            /\ e.d = << [i \in 1..Len(U.d[split + 1]) |-> <<U.d[split + 1][i][1], QZero(sg)>>] >>) THEN "structure"
  ELSE IF ~(U.dt = X.dt /\ e.w = <<>>) THEN "type"
  ELSE LET ks == Kept(e)  n == Len(e.v)
           all == Down(WeightsQ(fe, fU.d[split + 1]))  kept == Down(WeightsQ(e, U.d[split + 1]))
           tf == TruncFails(all, kept, o.tol2, o.mn, o.mx, o.pow, One, 2)
       IN IF tf # "" THEN tf
  ELSE IF ~Isometric(U, Rows(X, split), n, ks) THEN "isometry"
  ELSE IF ~DiscardedWeight(X, split, U, e.v, U, ks, LeftOut(all, kept)) THEN "error differs from the discarded weight"
  ELSE IF select /\ ~ColumnsFrom(<<fU>>, fe, ElemQ(fU.d[split + 1]), <<U>>, e, ElemQ(U.d[split + 1])) THEN "columns" ELSE ""
=============================================================================
