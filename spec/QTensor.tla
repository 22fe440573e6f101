------------------------------ MODULE QTensor ------------------------------
(* Abstract block tensors and the denotation of every public operation.      *)
(* A tensor is a record                                                      *)
(*   d : sequence of dimensions; a dimension is a sequence of sections       *)
(*       <<extent, charge>>                                                  *)
(*   s : selection rule (a charge)                                           *)
(*   v : real part of the dense form, row-major sequence of integers         *)
(*   w : imaginary part (<<>> for a real tensor)                             *)
(*   b : stored block indices, as a sequence in increasing order             *)
(*   t : element type "d" (real), "f" (real, single precision), "c" (complex)*)
(*       or "b" (truth values)                                               *)
(* Section, block and dimension numbers start at 0 as in the implementation. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Charges

Prod(s)   == FoldLeft(LAMBDA a, c : a * c, 1, s)
SumS(s)   == FoldLeft(LAMBDA a, c : a + c, 0, s)
Abs(x)    == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Rev(s)    == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MaxAbs(s) == FoldLeft(LAMBDA a, c : Max2(a, Abs(c)), 0, s)
Zeros(n)  == [i \in 1..n |-> 0]

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN b # <<>>
                 ELSE IF b = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))

---------------------------------------------------------------------------
\* dimensions and positions
DimSize(dim) == FoldLeft(LAMBDA a, c : a + c[1], 0, dim)
Shape(d)     == [i \in 1..Len(d) |-> DimSize(d[i])]
SecCounts(d) == [i \in 1..Len(d) |-> Len(d[i])]
Numel(d)     == Prod(Shape(d))
Strides(sh)  == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, i+1, Len(sh)))]
Unravel(k, sh, st) == [i \in 1..Len(sh) |-> (k \div st[i]) % sh[i]]     \* k from 0
Ravel(ix, st) == FoldLeftDomain(LAMBDA a, i : a + ix[i] * st[i], 0, ix)
Start(dim, s) == FoldLeft(LAMBDA a, c : a + c[1], 0, SubSeq(dim, 1, s))   \* first element of section s
ElemSec(dim) == FoldLeftDomain(LAMBDA a, i : a \o [x \in 1..dim[i][1] |-> i - 1], <<>>, dim)
ElemQ(dim)   == LET es == ElemSec(dim) IN [i \in 1..Len(es) |-> dim[es[i] + 1][2]]
SectionOf(dim, e) == ElemSec(dim)[e + 1]

RECURSIVE AllIx(_)
\* all block indices of a shape in increasing (row-major) order
AllIx(cnt) == IF cnt = <<>> THEN << <<>> >>
              ELSE LET r == TLCEval(AllIx(Tail(cnt)))
                       m == Len(r)
                   IN TLCEval([k \in 1..(cnt[1] * m) |-> << (k-1) \div m >> \o r[((k-1) % m) + 1]])

BlockQ(sg, d, b) == FoldLeftDomain(LAMBDA a, i : QAdd(sg, a, d[i][b[i] + 1][2]), QZero(sg), d)
BlockAllowed(sg, d, s, b) == BlockQ(sg, d, b) = s
AllowedBlocks(sg, d, s) == SelectSeq(AllIx(SecCounts(d)), LAMBDA b : BlockAllowed(sg, d, s, b))
BlockShape(d, b) == [i \in 1..Len(d) |-> d[i][b[i] + 1][1]]

\* block index of every element, row-major
ElemBlocks(d) ==
  LET sh == Shape(d)  st == Strides(sh)  es == [i \in 1..Len(d) |-> ElemSec(d[i])]
  IN [k \in 1..Prod(sh) |-> [i \in 1..Len(d) |-> es[i][(((k-1) \div st[i]) % sh[i]) + 1]]]

InvDim(sg, dim) == [i \in 1..Len(dim) |-> <<dim[i][1], QNeg(sg, dim[i][2])>>]
ShiftDim(sg, dim, q) == [i \in 1..Len(dim) |-> <<dim[i][1], QAdd(sg, dim[i][2], q)>>]
IsUnit(dim) == Len(dim) = 1 /\ dim[1][1] = 1

IsCplx(t) == t.t = "c"
T(d, s, v, w, b, t) == [d |-> d, s |-> s, v |-> v, w |-> w, b |-> b, t |-> t]

---------------------------------------------------------------------------
\* Well-formedness: what must hold of every tensor the system ever exposes.
StrictlyIncreasing(bs) == \A i \in 1..(Len(bs) - 1) : LexLess(bs[i], bs[i+1])
WellFormed(sg, t) ==
  /\ \A i \in 1..Len(t.d) : \A j \in 1..Len(t.d[i]) : t.d[i][j][1] >= 0 /\ QIsCanon(sg, t.d[i][j][2])
  /\ QIsCanon(sg, t.s)
  /\ Len(t.v) = Numel(t.d)
  /\ Len(t.w) \in {0, Len(t.v)}
  /\ (t.t = "c") <=> (Len(t.w) = Len(t.v) /\ Len(t.v) > 0)
  /\ \A i \in 1..Len(t.b) : /\ Len(t.b[i]) = Len(t.d)
                            /\ \A j \in 1..Len(t.d) : t.b[i][j] \in 0..(Len(t.d[j]) - 1)
                            /\ BlockAllowed(sg, t.d, t.s, t.b[i])
  /\ StrictlyIncreasing(t.b)
  /\ LET bs == ToSet(t.b)  eb == ElemBlocks(t.d)
     IN \A k \in 1..Len(t.v) : (t.v[k] # 0 \/ (t.w # <<>> /\ t.w[k] # 0)) => eb[k] \in bs

\* which elements lie in stored blocks
StoredMask(t) == LET bs == ToSet(t.b)  eb == ElemBlocks(t.d) IN [k \in 1..Len(t.v) |-> eb[k] \in bs]
EmptyT(sg, d, s, ty) == T(d, s, Zeros(Numel(d)), IF ty = "c" THEN Zeros(Numel(d)) ELSE <<>>, <<>>, ty)

---------------------------------------------------------------------------
\* Outcomes: [k |-> "ok", t |-> tensor] | [k |-> "ex"] (must be refused)
\*           | [k |-> "sc", x |-> value] | [k |-> "any"] (unspecified here)
Ok(t) == [k |-> "ok", t |-> t]
Ex    == [k |-> "ex"]
AnyO  == [k |-> "any"]
Sc(x) == [k |-> "sc", x |-> x]

Promote(a, b) == IF a = "c" \/ b = "c" THEN "c" ELSE IF a = "f" /\ b = "f" THEN "f" ELSE "d"
\* a rank 0 tensor doesn't change the precision of the other operand of a broadcast
PromoteB(a, b) == IF a.t = "c" \/ b.t = "c" THEN "c"
                  ELSE IF a.d = <<>> /\ b.d # <<>> THEN b.t
                  ELSE IF b.d = <<>> /\ a.d # <<>> THEN a.t
                  ELSE Promote(a.t, b.t)
\* single precision complex results aren't specified
NarrowC(a, b) == {a.t, b.t} = {"c", "f"} /\ ((a.t = "c" /\ a.d = <<>>) \/ (b.t = "c" /\ b.d = <<>>)) /\ a.d # b.d
Map1(f(_), v) == [k \in 1..Len(v) |-> f(v[k])]
Im(t) == IF t.w = <<>> THEN Zeros(Len(t.v)) ELSE t.w
MergeBlocks(sg, d, bs) == SelectSeq(AllIx(SecCounts(d)), LAMBDA b : b \in bs)

SameShape(a, b) == a.d = b.d /\ a.s = b.s

\* a + alpha b
AddOut(sg, a, b, al) ==
  IF ~SameShape(a, b) THEN Ex
  ELSE LET ty == Promote(a.t, b.t) IN
       Ok(T(a.d, a.s, [k \in 1..Len(a.v) |-> a.v[k] + al * b.v[k]],
            IF ty = "c" THEN LET ia == Im(a) ib == Im(b) IN [k \in 1..Len(a.v) |-> ia[k] + al * ib[k]] ELSE <<>>,
            MergeBlocks(sg, a.d, ToSet(a.b) \cup ToSet(b.b)), ty))

AddScalarOut(sg, a, c) ==
  LET ab == AllowedBlocks(sg, a.d, a.s)  abs == ToSet(ab)  eb == ElemBlocks(a.d)
  IN Ok(T(a.d, a.s, [k \in 1..Len(a.v) |-> IF eb[k] \in abs THEN a.v[k] + c ELSE 0], a.w, ab, a.t))

MulScalarOut(a, c) == Ok([a EXCEPT !.v = Map1(LAMBDA x : c * x, a.v), !.w = Map1(LAMBDA x : c * x, a.w)])
DivScalarOut(a, c) ==
  IF c = 0 \/ (\E k \in 1..Len(a.v) : a.v[k] % Abs(c) # 0) \/ (\E k \in 1..Len(a.w) : a.w[k] % Abs(c) # 0) THEN AnyO
  ELSE LET sgn == IF c < 0 THEN -1 ELSE 1
           D(x) == sgn * (IF x < 0 THEN -((-x) \div Abs(c)) ELSE x \div Abs(c))
       IN Ok([a EXCEPT !.v = Map1(D, a.v), !.w = Map1(D, a.w)])

\* broadcasting, right aligned; a dimension of extent one matches anything
BDim(sg, x, y) ==
  IF IsUnit(x) THEN ShiftDim(sg, y, x[1][2])
  ELSE IF IsUnit(y) THEN ShiftDim(sg, x, y[1][2])
  ELSE [i \in 1..Len(x) |-> <<x[i][1], QAdd(sg, x[i][2], y[i][2])>>]
BDimOk(x, y) == \/ IsUnit(x) \/ IsUnit(y)
                \/ Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i][1] = y[i][1]
BOk(a, b) == LET n == Min2(Len(a.d), Len(b.d)) IN
             \A i \in 0..(n-1) : BDimOk(a.d[Len(a.d) - i], b.d[Len(b.d) - i])
BDims(sg, a, b) ==
  LET ra == Len(a.d)  rb == Len(b.d)  r == Max2(ra, rb)
  IN [i \in 1..r |-> LET ja == i - (r - ra)  jb == i - (r - rb)
                     IN IF ja < 1 THEN b.d[jb] ELSE IF jb < 1 THEN a.d[ja]
                        ELSE BDim(sg, a.d[ja], b.d[jb])]
\* for every element of the broadcast result, the element (from 1) of operand x it reads
BIndex(x, rd) ==
  LET sh == Shape(rd)  st == Strides(sh)  r == Len(rd)  rx == Len(x.d)
      xsh == Shape(x.d)  xst == Strides(xsh)
      eff == [i \in 1..rx |-> IF IsUnit(x.d[i]) THEN 0 ELSE xst[i]]
  IN [k \in 1..Prod(sh) |->
        1 + FoldLeftDomain(LAMBDA acc, i : acc + eff[i] * (((k-1) \div st[i + (r - rx)]) % sh[i + (r - rx)]), 0, eff)]

\* generic element-wise operation defined on positions stored in both operands;
\* F(x, y) gives the value there, everything else is zero
Bcast(sg, a, b, F(_, _), ty) ==
  IF ~BOk(a, b) THEN Ex
  ELSE LET rd == BDims(sg, a, b)  rs == QAdd(sg, a.s, b.s)
           ia == BIndex(a, rd)  ib == BIndex(b, rd)
           ma == StoredMask(a)  mb == StoredMask(b)
           eb == ElemBlocks(rd)
           n == Numel(rd)
           both == {k \in 1..n : ma[ia[k]] /\ mb[ib[k]]}
       IN Ok(T(rd, rs, [k \in 1..n |-> IF k \in both THEN F(a.v[ia[k]], b.v[ib[k]]) ELSE 0], <<>>,
               MergeBlocks(sg, rd, {eb[k] : k \in both}), ty))

MulOut(sg, a, b) ==
  IF a.t # "c" /\ b.t # "c" THEN Bcast(sg, a, b, LAMBDA x, y : x * y, PromoteB(a, b))
  ELSE IF ~BOk(a, b) THEN Ex
  ELSE IF NarrowC(a, b) THEN AnyO
  ELSE LET rd == BDims(sg, a, b)  ia == BIndex(a, rd)  ib == BIndex(b, rd)
           aw == Im(a)  bw == Im(b)  n == Numel(rd)
           ma == StoredMask(a)  mb == StoredMask(b)  eb == ElemBlocks(rd)
       IN Ok(T(rd, QAdd(sg, a.s, b.s),
               [k \in 1..n |-> a.v[ia[k]] * b.v[ib[k]] - aw[ia[k]] * bw[ib[k]]],
               [k \in 1..n |-> a.v[ia[k]] * bw[ib[k]] + aw[ia[k]] * b.v[ib[k]]],
               MergeBlocks(sg, rd, {eb[k] : k \in {j \in 1..n : ma[ia[j]] /\ mb[ib[j]]}}), "c"))

RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)

\* guards: does the real-number result stay an integer?
BothAll(sg, a, b, P(_, _)) ==
  BOk(a, b) => LET rd == BDims(sg, a, b)  ia == BIndex(a, rd)  ib == BIndex(b, rd)
                   ma == StoredMask(a)  mb == StoredMask(b)
               IN \A k \in 1..Numel(rd) : (ma[ia[k]] /\ mb[ib[k]]) => P(a.v[ia[k]], b.v[ib[k]])
ExactDiv(x, y) == (IF (x < 0) # (y < 0) THEN -1 ELSE 1) * (Abs(x) \div Abs(y))
DivOut(sg, a, b) ==
  IF ~BothAll(sg, a, b, LAMBDA x, y : y # 0 /\ Abs(x) % Abs(y) = 0) THEN AnyO
  ELSE Bcast(sg, a, b, ExactDiv, PromoteB(a, b))
PowOut(sg, a, b) ==
  IF ~BothAll(sg, a, b, LAMBDA x, y : y \in 0..3 /\ Abs(x) <= 40) THEN AnyO
  ELSE Bcast(sg, a, b, IPow, PromoteB(a, b))
PowScalarOut(a, n) ==
  IF MaxAbs(a.v) > 40 THEN AnyO
  ELSE LET m == StoredMask(a) IN
       Ok([a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF m[k] THEN IPow(a.v[k], n) ELSE 0]])
Bool(p) == IF p THEN 1 ELSE 0
CmpF(c, x, y) == Bool(CASE c = "ge" -> x >= y [] c = "le" -> x <= y [] c = "less" -> x < y
                        [] c = "greater" -> x > y [] c = "eq" -> x = y [] c = "not_equal" -> x # y)
CmpOut(sg, c, a, b) == Bcast(sg, a, b, LAMBDA x, y : CmpF(c, x, y), "b")
CmpScalarOut(c, a, x) ==
  LET m == StoredMask(a) IN
  Ok([a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF m[k] THEN CmpF(c, a.v[k], x) ELSE 0], !.t = "b"])
AbsOut(a) == Ok([a EXCEPT !.v = Map1(Abs, a.v)])
IsSquare(x) == \E r \in 0..40 : r * r = x
Root(x) == CHOOSE r \in 0..40 : r * r = x
SqrtOut(a) == IF \E k \in 1..Len(a.v) : ~IsSquare(a.v[k]) THEN AnyO
              ELSE Ok([a EXCEPT !.v = Map1(Root, a.v)])
SumOut(sg, a) == Ok(T(<<>>, QZero(sg), << SumS(a.v) >>, IF a.t = "c" THEN << SumS(a.w) >> ELSE <<>>, << <<>> >>, a.t))

---------------------------------------------------------------------------
\* contraction
Free(n, da) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..Len(da) : da[j] + 1 # i)
Offsets(sh, st, ds) ==   \* offsets, row-major over the dimensions listed in ds (from 1)
  LET s == [i \in 1..Len(ds) |-> sh[ds[i]]]  rst == Strides(s)
  IN [k \in 1..Prod(s) |-> FoldLeftDomain(LAMBDA a, i : a + st[ds[i]] * (((k-1) \div rst[i]) % s[i]), 0, s)]
PlusOne(da) == [i \in 1..Len(da) |-> da[i] + 1]
DotCompat(sg, a, b, da, db) ==
  /\ Len(da) = Len(db)
  /\ \A i \in 1..Len(da) : da[i] \in 0..(Len(a.d)-1) /\ db[i] \in 0..(Len(b.d)-1)
  /\ \A i, j \in 1..Len(da) : i # j => da[i] # da[j] /\ db[i] # db[j]
  /\ \A i \in 1..Len(da) : b.d[db[i] + 1] = InvDim(sg, a.d[da[i] + 1])
DotV(av, bv, oa, ob, ca, cb) ==
  LET nb == Len(ob) IN
  [n \in 1..(Len(oa) * nb) |->
     LET x == oa[((n-1) \div nb) + 1]  y == ob[((n-1) % nb) + 1]
     IN FoldLeftDomain(LAMBDA acc, c : acc + av[x + ca[c] + 1] * bv[y + cb[c] + 1], 0, ca)]
TensordotOut(sg, a, b, da, db) ==
  IF ~DotCompat(sg, a, b, da, db) THEN Ex
  ELSE LET fa == Free(Len(a.d), da)  fb == Free(Len(b.d), db)
           sha == Shape(a.d)  shb == Shape(b.d)  sta == Strides(sha)  stb == Strides(shb)
           oa == Offsets(sha, sta, fa)  ob == Offsets(shb, stb, fb)
           ca == Offsets(sha, sta, PlusOne(da))  cb == Offsets(shb, stb, PlusOne(db))
           rd == [i \in 1..(Len(fa) + Len(fb)) |-> IF i <= Len(fa) THEN a.d[fa[i]] ELSE b.d[fb[i - Len(fa)]]]
           rs == QAdd(sg, a.s, b.s)
           cplx == a.t = "c" \/ b.t = "c"
           aw == Im(a)  bw == Im(b)
           rr == DotV(a.v, b.v, oa, ob, ca, cb)
           ii == DotV(aw, bw, oa, ob, ca, cb)
           ri == DotV(a.v, bw, oa, ob, ca, cb)
           ir == DotV(aw, b.v, oa, ob, ca, cb)
           bl == {  [i \in 1..Len(rd) |-> IF i <= Len(fa) THEN p[1][fa[i]] ELSE p[2][fb[i - Len(fa)]]] :
                      p \in {q \in ToSet(a.b) \X ToSet(b.b) :
                               \A j \in 1..Len(da) : q[1][da[j] + 1] = q[2][db[j] + 1]} }
       IN Ok(T(rd, rs,
               IF cplx THEN [n \in 1..Len(rr) |-> rr[n] - ii[n]] ELSE rr,
               IF cplx THEN [n \in 1..Len(rr) |-> ri[n] + ir[n]] ELSE <<>>,
               MergeBlocks(sg, rd, bl), Promote(a.t, b.t)))

\* batched matrix product: leading dimensions are multiplied element-wise
BmmOut(sg, a, b) ==
  LET r == Len(a.d) IN
  IF r # Len(b.d) \/ r < 2 THEN Ex
  ELSE IF \E i \in 1..(r-2) : ~(Len(a.d[i]) = Len(b.d[i]) /\ \A j \in 1..Len(a.d[i]) : a.d[i][j][1] = b.d[i][j][1]) THEN Ex
  ELSE IF b.d[r-1] # InvDim(sg, a.d[r]) THEN Ex
  ELSE LET rd == [i \in 1..r |-> IF i <= r - 2
                                 THEN [j \in 1..Len(a.d[i]) |-> <<a.d[i][j][1], QAdd(sg, a.d[i][j][2], b.d[i][j][2])>>]
                                 ELSE IF i = r - 1 THEN a.d[r-1] ELSE b.d[r]]
           sha == Shape(a.d)  shb == Shape(b.d)
           m == sha[r-1]  p == sha[r]  q == shb[r]
           n == Numel(rd)
           V(x, y) == [k \in 1..n |->
                 LET bt == (k-1) \div (m*q)  i == ((k-1) \div q) % m  j == (k-1) % q
                 IN FoldLeft(LAMBDA acc, c : acc + x[bt*m*p + i*p + c] * y[bt*p*q + (c-1)*q + j + 1], 0, [c \in 1..p |-> c])]
           bl == { [i \in 1..r |-> IF i < r THEN z[1][i] ELSE z[2][i]] :
                     z \in {y \in ToSet(a.b) \X ToSet(b.b) :
                              (\A j \in 1..(r-2) : y[1][j] = y[2][j]) /\ y[1][r] = y[2][r-1]} }
           cplx == a.t = "c" \/ b.t = "c"
           Add(x, y, k) == [i \in 1..Len(x) |-> x[i] + k * y[i]]
       IN Ok(T(rd, QAdd(sg, a.s, b.s), IF cplx THEN Add(V(a.v, b.v), V(Im(a), Im(b)), -1) ELSE V(a.v, b.v),
               IF cplx THEN Add(V(a.v, Im(b)), V(Im(a), b.v), 1) ELSE <<>>, MergeBlocks(sg, rd, bl), Promote(a.t, b.t)))

---------------------------------------------------------------------------
\* layout
PermV(v, sh, p) ==    \* p from 1
  IF v = <<>> THEN <<>> ELSE
  LET nsh == [i \in 1..Len(p) |-> sh[p[i]]]  nst == Strides(nsh)  st == Strides(sh)
  IN [k \in 1..Prod(nsh) |-> v[1 + FoldLeftDomain(LAMBDA a, i : a + st[p[i]] * (((k-1) \div nst[i]) % nsh[i]), 0, p)]]
IsPerm(p, r) == Len(p) = r /\ {IF p[i] < 0 THEN p[i] + r ELSE p[i] : i \in 1..Len(p)} = 0..(r-1)
PermuteOut(sg, a, p0) ==
  IF ~IsPerm(p0, Len(a.d)) THEN Ex ELSE
  LET r == Len(a.d)  p == [i \in 1..r |-> IF p0[i] < 0 THEN p0[i] + r + 1 ELSE p0[i] + 1]
      sh == Shape(a.d)
      rd == [i \in 1..r |-> a.d[p[i]]]
  IN Ok(T(rd, a.s, PermV(a.v, sh, p), PermV(a.w, sh, p),
          MergeBlocks(sg, rd, {[i \in 1..r |-> b[p[i]]] : b \in ToSet(a.b)}), a.t))
TransposeOut(sg, a, i0, j0) ==
  LET r == Len(a.d)  i == IF i0 < 0 THEN i0 + r ELSE i0   j == IF j0 < 0 THEN j0 + r ELSE j0
  IN IF ~(i \in 0..(r-1) /\ j \in 0..(r-1)) THEN Ex
     ELSE PermuteOut(sg, a, [k \in 1..r |-> IF k = i + 1 THEN j ELSE IF k = j + 1 THEN i ELSE k - 1])

\* block-wise reshape: blocks correspond by row-major rank of their index, elements
\* inside a block by row-major rank
BlockPos(d) ==  \* element (from 1) -> <<block rank, rank inside the block>>
  LET sh == Shape(d)  st == Strides(sh)  es == [i \in 1..Len(d) |-> ElemSec(d[i])]
      cs == Strides(SecCounts(d))
  IN [k \in 1..Prod(sh) |->
        LET e == Unravel(k-1, sh, st)
            b == [i \in 1..Len(d) |-> es[i][e[i] + 1]]
            bs == BlockShape(d, b)
            inner == [i \in 1..Len(d) |-> e[i] - Start(d[i], b[i])]
        IN << Ravel(b, cs), Ravel(inner, Strides(bs)) >>]
PosOf(d, lb, o) ==  \* inverse of the above, result from 1
  LET cnt == SecCounts(d)  b == Unravel(lb, cnt, Strides(cnt))  bs == BlockShape(d, b)
      inner == Unravel(o, bs, Strides(bs))
      st == Strides(Shape(d))
  IN 1 + Ravel([i \in 1..Len(d) |-> Start(d[i], b[i]) + inner[i]], st)
BlockNumel(d, b) == Prod(BlockShape(d, b))
\* can a be seen with dimensions d2 ?
ReshapeCompat(sg, d1, d2) ==
  /\ Prod(SecCounts(d1)) = Prod(SecCounts(d2))
  /\ LET x == TLCEval(AllIx(SecCounts(d1)))  y == TLCEval(AllIx(SecCounts(d2)))
     IN \A k \in 1..Len(x) : BlockNumel(d1, x[k]) = BlockNumel(d2, y[k])
ReshapeCharges(sg, d1, d2) ==
  LET x == TLCEval(AllIx(SecCounts(d1)))  y == TLCEval(AllIx(SecCounts(d2)))
  IN \A k \in 1..Len(x) : BlockQ(sg, d1, x[k]) = BlockQ(sg, d2, y[k])
ReshapeV(v, d1, d2) == IF v = <<>> THEN <<>> ELSE
  LET bp == TLCEval(BlockPos(d2)) IN [k \in 1..Len(bp) |-> v[PosOf(d1, bp[k][1], bp[k][2])]]
ReshapeB(bs, d1, d2) ==
  LET c1 == SecCounts(d1)  c2 == SecCounts(d2)
  IN [i \in 1..Len(bs) |-> Unravel(Ravel(bs[i], Strides(c1)), c2, Strides(c2))]
GroupDim(sg, ds) ==   \* one dimension made of the dimensions ds: sections are all combinations
  LET ix == TLCEval(AllIx(SecCounts(ds)))
  IN [k \in 1..Len(ix) |-> << BlockNumel(ds, ix[k]), BlockQ(sg, ds, ix[k]) >>]
GroupDims(sg, d, g) ==    \* g: where the groups start, the first one excepted; an empty group is a neutral unit dimension
  LET cut == <<0>> \o g \o <<Len(d)>>
  IN [i \in 1..(Len(g) + 1) |-> GroupDim(sg, SubSeq(d, cut[i] + 1, cut[i+1]))]
ReshapeOut(sg, a, g) ==
  IF ~(\A i \in 1..Len(g) : g[i] \in 0..Len(a.d) /\ (i > 1 => g[i-1] <= g[i])) THEN Ex
  ELSE LET rd == GroupDims(sg, a.d, g)
       IN Ok(T(rd, a.s, ReshapeV(a.v, a.d, rd), ReshapeV(a.w, a.d, rd), ReshapeB(a.b, a.d, rd), a.t))
ReshapeAsOut(sg, a, b) ==
  IF ~ReshapeCompat(sg, a.d, b.d) \/ ~ReshapeCharges(sg, a.d, b.d) THEN Ex
  ELSE Ok(T(b.d, a.s, ReshapeV(a.v, a.d, b.d), ReshapeV(a.w, a.d, b.d), ReshapeB(a.b, a.d, b.d), a.t))
ReshapeOverOut(sg, a, b) ==   \* same, but takes the charges and selection rule of b
  IF ~ReshapeCompat(sg, a.d, b.d) THEN Ex
  ELSE LET nb == ReshapeB(a.b, a.d, b.d) IN
       IF \E i \in 1..Len(nb) : ~BlockAllowed(sg, b.d, b.s, nb[i]) THEN Ex
       ELSE Ok(T(b.d, b.s, ReshapeV(a.v, a.d, b.d), ReshapeV(a.w, a.d, b.d), nb, a.t))

\* fixing element positions: f[i] = -1 keeps dimension i, otherwise the element kept
FixOk(d, f) == Len(f) = Len(d) /\ \A i \in 1..Len(d) : f[i] >= -1 /\ f[i] < DimSize(d[i])
FixSlots(f, keep) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : (f[i] = -1) = keep)
FixSec(d, f) == [i \in 1..Len(d) |-> IF f[i] = -1 THEN -1 ELSE SectionOf(d[i], f[i])]
FixQ(sg, d, f) == FoldLeftDomain(LAMBDA a, i : IF f[i] = -1 THEN a ELSE QAdd(sg, a, ElemQ(d[i])[f[i] + 1]), QZero(sg), d)
FixDims(d, f) == LET k == FixSlots(f, TRUE) IN [i \in 1..Len(k) |-> d[k[i]]]
FixPos(d, f) ==   \* positions (from 1) of the selected elements, row-major over kept dimensions
  LET sh == Shape(d)  st == Strides(sh)  o == Offsets(sh, st, FixSlots(f, TRUE))
      base == FoldLeftDomain(LAMBDA a, i : IF f[i] = -1 THEN a ELSE a + st[i] * f[i], 0, d)
  IN [k \in 1..Len(o) |-> 1 + base + o[k]]
FixBlocks(a, f) == LET k == FixSlots(f, TRUE)  fs == FixSec(a.d, f) IN
  { [i \in 1..Len(k) |-> b[k[i]]] : b \in {c \in ToSet(a.b) : \A i \in 1..Len(f) : fs[i] = -1 \/ c[i] = fs[i]} }
ViewOut(sg, a, f, keep) ==
  IF ~FixOk(a.d, f) THEN Ex
  ELSE LET ps == FixPos(a.d, f)
           rd == FixDims(a.d, f)
           rk == [i \in 1..Len(a.d) |-> IF f[i] = -1 THEN a.d[i] ELSE << <<1, ElemQ(a.d[i])[f[i] + 1]>> >>]
           bl == MergeBlocks(sg, rd, FixBlocks(a, f))
           V(x) == IF x = <<>> THEN <<>> ELSE [k \in 1..Len(ps) |-> x[ps[k]]]
       IN Ok(IF keep THEN T(rk, a.s, V(a.v), V(a.w), ReshapeB(bl, rd, rk), a.t)
                     ELSE T(rd, QSub(sg, a.s, FixQ(sg, a.d, f)), V(a.v), V(a.w), bl, a.t))
ShapeFromOut(sg, a, f) ==
  IF ~FixOk(a.d, f) THEN Ex
  ELSE Ok(EmptyT(sg, FixDims(a.d, f), QSub(sg, a.s, FixQ(sg, a.d, f)), a.t))
SqueezeDimOut(sg, a, i) ==
  IF ~(i \in 0..(Len(a.d)-1)) THEN Ex
  ELSE IF IsUnit(a.d[i+1]) THEN ViewOut(sg, a, [j \in 1..Len(a.d) |-> IF j = i + 1 THEN 0 ELSE -1], FALSE)
  ELSE Ok(a)
SqueezeOut(sg, a) == ViewOut(sg, a, [j \in 1..Len(a.d) |-> IF IsUnit(a.d[j]) THEN 0 ELSE -1], FALSE)

\* writing a sub-tensor
PutV(v, ps, x) == IF v = <<>> THEN <<>> ELSE
  LET S == ToSet(ps)
      inv == [p \in S |-> CHOOSE k \in 1..Len(ps) : ps[k] = p]
  IN [p \in 1..Len(v) |-> IF p \in S THEN x[inv[p]] ELSE v[p]]
PutBlocks(sg, a, f, bs) ==
  LET k == FixSlots(f, TRUE)  fs == FixSec(a.d, f)
  IN ToSet(a.b) \cup { [i \in 1..Len(f) |-> IF f[i] # -1 THEN fs[i]
                                           ELSE b[CHOOSE j \in 1..Len(k) : k[j] = i]] : b \in bs }
PutOut(sg, a, f, x) ==
  IF ~FixOk(a.d, f) THEN Ex
  ELSE IF x.d # FixDims(a.d, f) \/ x.s # QSub(sg, a.s, FixQ(sg, a.d, f)) THEN Ex
  ELSE Ok([a EXCEPT !.v = PutV(a.v, FixPos(a.d, f), x.v),
                    !.w = IF a.t = "c" THEN PutV(a.w, FixPos(a.d, f), Im(x)) ELSE <<>>,
                    !.b = MergeBlocks(sg, a.d, PutBlocks(sg, a, f, ToSet(x.b)))])

\* the elements of a dense array which conservation allows in shape (d, s)
Filter(sg, d, s, v) == LET ab == ToSet(AllowedBlocks(sg, d, s))  eb == ElemBlocks(d)
                       IN [k \in 1..Len(v) |-> IF eb[k] \in ab THEN v[k] ELSE 0]
\* blocks of a dense array whose squared norm exceeds the squared cutoff
BigBlocks(sg, d, s, v, w, c2) ==
  LET ab == AllowedBlocks(sg, d, s)  eb == ElemBlocks(d)
      Sq(k) == v[k] * v[k] + IF w = <<>> THEN 0 ELSE w[k] * w[k]
  IN SelectSeq(ab, LAMBDA b : FoldLeftDomain(LAMBDA a, k : IF eb[k] = b THEN a + Sq(k) ELSE a, 0, v) > c2)
\* ty: the element type asked for, or else that of the values; the result is of that type, blocks and announcement alike
FromDenseOut(sg, d, s, sh, v, w, c2, ty) ==
  IF Len(sh) # Len(d) THEN Ex
  ELSE IF sh # Shape(d) THEN Ex
  ELSE LET bb == BigBlocks(sg, d, s, v, w, c2)  bs == ToSet(bb)  eb == ElemBlocks(d)
           Keep(x) == [k \in 1..Len(x) |-> IF eb[k] \in bs THEN x[k] ELSE 0]
       IN Ok(T(d, s, Keep(v), IF ty # "c" THEN <<>> ELSE IF w = <<>> THEN Zeros(Len(v)) ELSE Keep(w), bb, ty))
PutDenseOut(sg, a, f, sh, v) ==
  IF ~FixOk(a.d, f) THEN Ex
  ELSE LET rd == FixDims(a.d, f)  rs == QSub(sg, a.s, FixQ(sg, a.d, f)) IN
       IF sh # Shape(rd) THEN Ex
       ELSE PutOut(sg, a, f, FromDenseOut(sg, rd, rs, sh, v, <<>>, 0, "d").t)

---------------------------------------------------------------------------
\* charge bookkeeping
Neg1(v) == Map1(LAMBDA x : -x, v)
ConjOnlyOut(a) == Ok([a EXCEPT !.w = Neg1(a.w)])
InverseOut(sg, a) == Ok([a EXCEPT !.d = [i \in 1..Len(a.d) |-> InvDim(sg, a.d[i])], !.s = QNeg(sg, a.s)])
ConjOut(sg, a) == InverseOut(sg, ConjOnlyOut(a).t)
CvalShiftOut(sg, a, q, i) ==
  IF ~(i \in 0..(Len(a.d)-1)) THEN Ex
  ELSE Ok([a EXCEPT !.d[i+1] = ShiftDim(sg, a.d[i+1], q), !.s = QAdd(sg, a.s, q)])
NcShiftOut(sg, a, q, i) ==
  IF a.b # <<>> THEN Ex
  ELSE IF ~(i \in 0..(Len(a.d)-1)) THEN Ex
  ELSE Ok([a EXCEPT !.d[i+1] = ShiftDim(sg, a.d[i+1], q)])
ShiftSelOut(sg, a, q) == IF a.b # <<>> THEN Ex ELSE Ok([a EXCEPT !.s = QAdd(sg, a.s, q)])
SetSelOut(a, q) == IF a.b # <<>> THEN Ex ELSE Ok([a EXCEPT !.s = q])
NeutralShapeOut(sg, a) ==
  IF a.b # <<>> THEN Ex
  ELSE Ok([a EXCEPT !.s = QZero(sg),
                    !.d = [i \in 1..Len(a.d) |-> [j \in 1..Len(a.d[i]) |-> <<a.d[i][j][1], QZero(sg)>>]]])
ShapeProdOut(sg, a, b) == Ok(EmptyT(sg, a.d \o b.d, QAdd(sg, a.s, b.s), Promote(a.t, b.t)))
LikeOut(sg, a) == Ok(EmptyT(sg, a.d, a.s, a.t))
FullOut(sg, d, s, x, ty) == LET ab == AllowedBlocks(sg, d, s)  abs == ToSet(ab)  eb == ElemBlocks(d)
                        IN Ok(T(d, s, [k \in 1..Numel(d) |-> IF eb[k] \in abs THEN x ELSE 0], <<>>, ab, ty))
\* identity: ones on the diagonal of every allowed diagonal block
EyeOut(sg, d, s, ty) ==
  IF Len(d) # 2 THEN Ex
  ELSE LET n == Min2(Len(d[1]), Len(d[2]))
           ab == SelectSeq([i \in 1..n |-> <<i-1, i-1>>], LAMBDA b : BlockAllowed(sg, d, s, b))
           abs == ToSet(ab)  bp == ElemBlocks(d)
           c == DimSize(d[2])
       IN Ok(T(d, s, [k \in 1..Numel(d) |->
                        LET r == (k-1) \div c  q == (k-1) % c  b == bp[k]
                        IN IF b \in abs /\ r - Start(d[1], b[1]) = q - Start(d[2], b[2]) THEN 1 ELSE 0],
               <<>>, ab, ty))
\* selection rule a dense matrix obeys: neutral when it is zero, "none" when two elements disagree
\* (elements no larger than the cutoff x do not count)
FindRule(sg, d, sh, v, x) == IF sh # Shape(d) THEN Ex ELSE
  LET c == DimSize(d[2])  qr == ElemQ(d[1])  qc == ElemQ(d[2])
      qs == { QAdd(sg, qr[((k-1) \div c) + 1], qc[((k-1) % c) + 1]) : k \in {j \in 1..Len(v) : Abs(v[j]) > x} }
  IN IF qs = {} THEN Sc(QZero(sg)) ELSE IF Cardinality(qs) = 1 THEN Sc(CHOOSE q \in qs : TRUE) ELSE Ex
ItemOut(a) == IF Len(a.v) = 1 THEN Sc(a.v[1]) ELSE IF Len(a.b) > 1 THEN Ex ELSE AnyO
\* x / a on the stored blocks
RdivOut(a, x) ==
  LET bs == ToSet(a.b)  eb == ElemBlocks(a.d)
  IN IF \E k \in 1..Len(a.v) : eb[k] \in bs /\ (a.v[k] = 0 \/ Abs(x) % Abs(a.v[k]) # 0) THEN AnyO
     ELSE Ok([a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF eb[k] \notin bs THEN 0
                              ELSE (IF (x < 0) # (a.v[k] < 0) THEN -1 ELSE 1) * (Abs(x) \div Abs(a.v[k]))]])
\* the tensor library asks about the real parts only: a tensor of imaginary values is left open
AnyNonZero(a) == IF MaxAbs(a.v) # 0 THEN Sc(1) ELSE IF MaxAbs(a.w) # 0 THEN AnyO ELSE Sc(0)
IsNanOut(a) == Ok([a EXCEPT !.v = Zeros(Len(a.v)), !.w = <<>>, !.t = "b"])
TOut(sg, a) == TransposeOut(sg, a, Len(a.d) - 1, Len(a.d) - 2)
AllClose(a, b) == SameShape(a, b) /\ a.v = b.v /\ Im(a) = Im(b)
\* |a - b| <= at + (rt / 4) |b| everywhere, for real tensors
AllCloseTol(a, b, rt, at) == SameShape(a, b) /\ \A k \in 1..Len(a.v) : 4 * Abs(a.v[k] - b.v[k]) <= 4 * at + rt * Abs(b.v[k])
=============================================================================
