------------------------------ MODULE Network -------------------------------
(* Tensor networks: what a list of tensors means.  Tensors are those of       *)
(* QTensor; a plain tensor has one neutral section for each dimension.        *)
(* A state has tensors (left bond, site, right bond), an operator             *)
(* (left bond, out, right bond, in).                                          *)
EXTENDS QTensor
Order(k) == IF k = "S" THEN 3 ELSE 4
InvertDim(sg, dim) == [i \in 1..Len(dim) |-> <<dim[i][1], QNeg(sg, dim[i][2])>>]
Linked(sg, x, y) == y.d[1] = InvertDim(sg, x.d[3])
\* the tensors form a state ("S") or an operator ("O"); any list will do for "T"
Formed(sg, k, ts) == k = "T" \/ (/\ \A i \in 1..Len(ts) : Len(ts[i].d) = Order(k)
                                 /\ \A i \in 1..(Len(ts) - 1) : Linked(sg, ts[i], ts[i + 1]))
---------------------------------------------------------------------------
\* dense values: [n |-> rows, m |-> columns, v, w], row major
M(n, m, v, w) == [n |-> n, m |-> m, v |-> v, w |-> w]
MatMul(a, b) ==
  LET row(k) == (k - 1) \div b.m   col(k) == (k - 1) % b.m
      ks == [i \in 1..a.m |-> i - 1] IN
  M(a.n, b.m,
    [k \in 1..(a.n * b.m) |-> FoldLeft(LAMBDA acc, i : acc + a.v[row(k) * a.m + i + 1] * b.v[i * b.m + col(k) + 1]
          - (IF a.w = <<>> THEN 0 ELSE a.w[row(k) * a.m + i + 1] * b.w[i * b.m + col(k) + 1]), 0, ks)],
    IF a.w = <<>> THEN <<>> ELSE
    [k \in 1..(a.n * b.m) |-> FoldLeft(LAMBDA acc, i : acc + a.v[row(k) * a.m + i + 1] * b.w[i * b.m + col(k) + 1]
          + a.w[row(k) * a.m + i + 1] * b.v[i * b.m + col(k) + 1], 0, ks)])
Permuted(sh, v, p) ==      \* p: new order of the dimensions, from 1
  LET nsh == [i \in 1..Len(p) |-> sh[p[i]]]  st == Strides(sh)  nst == Strides(nsh) IN
  [k \in 1..Len(v) |-> v[1 + FoldLeftDomain(LAMBDA acc, i : acc + st[p[i]] * (((k - 1) \div nst[i]) % nsh[i]), 0, p)]]
\* (left) x (site (out,in) ..., right) matrix of one tensor
SiteMatrix(k, t, cx) ==
  LET sh == Shape(t.d)
      v == IF k = "S" THEN t.v ELSE Permuted(sh, t.v, <<1, 2, 4, 3>>)
      i == IF ~cx THEN <<>> ELSE IF t.w = <<>> THEN Zeros(Len(v)) ELSE IF k = "S" THEN t.w ELSE Permuted(sh, t.w, <<1, 2, 4, 3>>) IN
  M(sh[1], Len(v) \div Max2(sh[1], 1), v, i)
Complex(ts) == \E i \in 1..Len(ts) : ts[i].w # <<>>
Resized(a, n) == [a EXCEPT !.n = n, !.m = (a.n * a.m) \div Max2(n, 1)]
\* everything the network stands for: left bond, all sites, right bond, in this order
Expand(k, ts, cx) ==
  LET mats == [i \in 1..Len(ts) |-> SiteMatrix(k, ts[i], cx)]
      r(i) == Shape(ts[i].d)[3]
      l == Shape(ts[1].d)[1]
      acc == FoldLeft(LAMBDA a, i : MatMul([a EXCEPT !.n = (a.n * a.m) \div Max2(mats[i].n, 1), !.m = mats[i].n], mats[i]),
                      mats[1], [i \in 1..(Len(ts) - 1) |-> i + 1])
  IN acc
SiteExtents(ts, x) == [i \in 1..Len(ts) |-> DimSize(ts[i].d[x])]
---------------------------------------------------------------------------
(* <<b| O |a>> with boundary tensors: a is linear, b is conjugated.           *)
(*   sum  L(la, lw, lb) a(la, t, ra) O(lw, s, t, rw) conj(b(lb, s, rb)) R(ra, rw, rb) *)
\* position of (s1 t1 s2 t2 ...) for the position s of the out and t of the in configuration
OpPos(s, t, ps) == LET st == Strides(ps)  n == Len(ps)
                       ost == Strides([i \in 1..(2 * n) |-> ps[(i + 1) \div 2]]) IN
  FoldLeftDomain(LAMBDA acc, i : acc + ost[2 * i - 1] * ((s \div st[i]) % ps[i]) + ost[2 * i] * ((t \div st[i]) % ps[i]), 0, ps)
At(x, k) == <<x.v[k + 1], IF x.w = <<>> THEN 0 ELSE x.w[k + 1]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CConj(x) == <<x[1], -x[2]>>
CZero == <<0, 0>>
CNil(x) == x[1] = 0 /\ x[2] = 0
Upto(n) == [i \in 1..n |-> i - 1]
\* A, B, O: expansions; pa, pb, po: <<left, right>> extents of the boundary bonds; ps: site extents
Form(A, B, Op, pa, pb, po, ps, Le, Re) ==
  LET ns == Prod(ps) IN
  FoldLeft(LAMBDA acc0, s : FoldLeft(LAMBDA acc, t :
     LET o == OpPos(s, t, ps) IN
     FoldLeft(LAMBDA acc1, lw : FoldLeft(LAMBDA acc2, rw :
        LET x == At(Op, (lw * ns * ns + o) * po[2] + rw) IN
        IF CNil(x) THEN acc2 ELSE
        FoldLeft(LAMBDA acc3, la : FoldLeft(LAMBDA acc4, ra :
           LET y == CMul(x, At(A, (la * ns + t) * pa[2] + ra)) IN
           IF CNil(y) THEN acc4 ELSE
           FoldLeft(LAMBDA acc5, lb : FoldLeft(LAMBDA acc6, rb :
              CAdd(acc6, CMul(CMul(y, CConj(At(B, (lb * ns + s) * pb[2] + rb))),
                              CMul(At(Le, (la * po[1] + lw) * pb[1] + lb), At(Re, (ra * po[2] + rw) * pb[2] + rb)))),
              acc5, Upto(pb[2])), acc4, Upto(pb[1])),
           acc3, Upto(pa[2])), acc2, Upto(pa[1])),
        acc1, Upto(po[2])), acc, Upto(po[1])),
     acc0, Upto(ns)), CZero, Upto(ns))
\* without operator: sum L(la, lb) a(la, s, ra) conj(b(lb, s, rb)) R(ra, rb)
Overlap(A, B, pa, pb, ps, Le, Re) ==
  LET ns == Prod(ps) IN
  FoldLeft(LAMBDA acc0, s :
        FoldLeft(LAMBDA acc3, la : FoldLeft(LAMBDA acc4, ra :
           LET y == At(A, (la * ns + s) * pa[2] + ra) IN
           IF CNil(y) THEN acc4 ELSE
           FoldLeft(LAMBDA acc5, lb : FoldLeft(LAMBDA acc6, rb :
              CAdd(acc6, CMul(CMul(y, CConj(At(B, (lb * ns + s) * pb[2] + rb))),
                              CMul(At(Le, la * pb[1] + lb), At(Re, ra * pb[2] + rb)))),
              acc5, Upto(pb[2])), acc4, Upto(pb[1])),
           acc3, Upto(pa[2])), acc0, Upto(pa[1])), CZero, Upto(ns))
\* default boundaries: identity between the states, ones for the operator
Edge(n, w, m) == [n |-> n, m |-> w * m, v |-> [k \in 1..(n * w * m) |-> IF (k - 1) \div (w * m) = (k - 1) % m THEN 1 ELSE 0], w |-> <<>>]
=============================================================================
