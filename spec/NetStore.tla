------------------------------ MODULE NetStore -----------------------------
(* Networks as sequences of tensors: construction, edits, contraction.        *)
EXTENDS Network
NR == 3
Null == [k |-> "0"]
Net(k, ts, oc) == [k |-> k, ts |-> ts, oc |-> oc]
OkN(reg, i, x) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = x]]
ExN(reg) == [k |-> "ex", reg |-> reg]
ScN(reg, r) == [k |-> "sc", reg |-> reg, r |-> r]
Center(k, n, x) == k # "S" \/ x = 0 \/ (x > 0 /\ x < n)
Built(sg, reg, o, k, ts, x) == IF Formed(sg, k, ts) /\ Center(k, Len(ts), x) THEN OkN(reg, o.dst, Net(k, ts, IF k = "S" THEN x ELSE 0)) ELSE ExN(reg)
SubPut(s, i, x) == [s EXCEPT ![i] = x]
Cut(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))       \* without the positions i .. j - 1 (from 0)
Rep(n, x) == [i \in 1..n |-> x]
\* a copy of t can follow t
Repeats(sg, k, t) == k = "T" \/ (Len(t.d) = Order(k) /\ Linked(sg, t, t))
TwoSite(sg, x, y, t) ==        \* (left, out1, out2, right, in1, in2)
  LET sx == Shape(x.d)  sy == Shape(y.d)
      nd == <<x.d[1], x.d[2], y.d[2], y.d[3], x.d[4], y.d[4]>>  ns == Shape(nd)  st == Strides(ns)
      tx == Strides(sx)  ty == Strides(sy)  cx == x.w # <<>> \/ y.w # <<>>
      at(k) == FoldLeft(LAMBDA acc, c : LET u == Unravel(k - 1, ns, st) IN
          CAdd(acc, CMul(At(x, u[1] * tx[1] + u[2] * tx[2] + c * tx[3] + u[5] * tx[4]), At(y, c * ty[1] + u[3] * ty[2] + u[4] * ty[3] + u[6] * ty[4]))),
          CZero, Upto(sx[3]))
      all == [k \in 1..Prod(ns) |-> at(k)] IN
  T(nd, QAdd(sg, x.s, y.s), [k \in 1..Len(all) |-> all[k][1]], IF cx THEN [k \in 1..Len(all) |-> all[k][2]] ELSE <<>>, <<>>, IF cx THEN "c" ELSE "d")
\* the operator of two sites with its surroundings, applied to a state of two sites:
\*   sum x(a, i, j, b) h(l, o, p, r, i, j) L(a, l, a') R(b, r, b') -> (a', o, p, b')
H2S(sg, x, h, Le, Re) ==
  LET sx == Shape(x.d)  sh == Shape(h.d)  sl == Shape(Le.d)  sr == Shape(Re.d)
      tx == Strides(sx)  th == Strides(sh)  tl == Strides(sl)  tr == Strides(sr)
      nd == <<Le.d[3], h.d[2], h.d[3], Re.d[3]>>  ns == Shape(nd)  st == Strides(ns)
      csh == <<sx[1], sx[2], sx[3], sx[4], sh[1], sh[4]>>  cst == Strides(csh)
      cx == x.w # <<>> \/ h.w # <<>> \/ Le.w # <<>> \/ Re.w # <<>>
      cs == [c \in 1..Prod(csh) |-> Unravel(c - 1, csh, cst)]
      \* terms that do not vanish
      live == SelectSeq(cs, LAMBDA c : ~CNil(At(x, c[1] * tx[1] + c[2] * tx[2] + c[3] * tx[3] + c[4])))
      at(k) == LET u == Unravel(k - 1, ns, st) IN
        FoldLeft(LAMBDA acc, c : CAdd(acc, CMul(CMul(At(x, c[1] * tx[1] + c[2] * tx[2] + c[3] * tx[3] + c[4]),
                                                     At(h, c[5] * th[1] + u[2] * th[2] + u[3] * th[3] + c[6] * th[4] + c[2] * th[5] + c[3])),
                                                CMul(At(Le, c[1] * tl[1] + c[5] * tl[2] + u[1]), At(Re, c[4] * tr[1] + c[6] * tr[2] + u[4])))),
                 CZero, live)
      all == [k \in 1..Prod(ns) |-> at(k)] IN
  T(nd, QAdd(sg, QAdd(sg, x.s, h.s), QAdd(sg, Le.s, Re.s)), [k \in 1..Len(all) |-> all[k][1]],
    IF cx THEN [k \in 1..Len(all) |-> all[k][2]] ELSE <<>>, <<>>, IF cx THEN "c" ELSE "d")
Ends(ts) == <<DimSize(ts[1].d[1]), DimSize(ts[Len(ts)].d[3])>>
Mat(e) == e
ContractOut(sg, reg, o) ==
  LET a == reg[o.a].ts  b == reg[o.b].ts  pa == Ends(a)  pb == Ends(b)  ps == SiteExtents(a, 2) IN
  IF o.c = 0 THEN
     LET le == IF "le" \in DOMAIN o THEN o.le ELSE Edge(pa[1], 1, pb[1])
         re == IF "le" \in DOMAIN o THEN o.re ELSE Edge(pa[2], 1, pb[2]) IN
     ScN(reg, Overlap(Expand("S", a, Complex(a)), Expand("S", b, Complex(b)), pa, pb, ps, le, re))
  ELSE LET c == reg[o.c].ts  po == Ends(c)
           le == IF "le" \in DOMAIN o THEN o.le ELSE Edge(pa[1], po[1], pb[1])
           re == IF "le" \in DOMAIN o THEN o.re ELSE Edge(pa[2], po[2], pb[2]) IN
     ScN(reg, Form(Expand("S", a, Complex(a)), Expand("S", b, Complex(b)), Expand("O", c, Complex(c)), pa, pb, po, ps, le, re))
Typed(t, y) == IF y = 1 THEN [t EXCEPT !.t = "c", !.w = IF t.w = <<>> THEN Zeros(Len(t.v)) ELSE t.w] ELSE t
Outcome(sg, reg, o) ==
  LET A == reg[o.a]  upd(ts) == OkN(reg, o.a, [A EXCEPT !.ts = ts]) IN
  CASE o.op = "make" -> Built(sg, reg, o, o.k, o.ts, o.x)
    [] o.op = "fill" -> IF Repeats(sg, o.k, o.t) /\ Center(o.k, o.y, o.x) THEN OkN(reg, o.dst, Net(o.k, Rep(o.y, o.t), IF o.k = "S" THEN o.x ELSE 0)) ELSE ExN(reg)
    [] o.op = "copy" -> OkN(reg, o.dst, A)
    [] o.op = "swap" -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = reg[o.b], ![o.b] = A]]
    [] o.op = "conv" -> Built(sg, reg, o, o.k, A.ts, o.x)
    [] o.op = "check" -> ScN(reg, IF Formed(sg, A.k, A.ts) THEN 1 ELSE 0)
    [] o.op = "put" -> upd(SubPut(A.ts, o.x + 1, o.t))
    [] o.op = "insert" -> upd(SubSeq(A.ts, 1, o.x) \o <<o.t>> \o SubSeq(A.ts, o.x + 1, Len(A.ts)))
    [] o.op = "inserts" -> upd(SubSeq(A.ts, 1, o.x) \o Rep(o.y, o.t) \o SubSeq(A.ts, o.x + 1, Len(A.ts)))
    [] o.op = "erase" -> upd(Cut(A.ts, o.x, o.x + 1))
    [] o.op = "erases" -> upd(Cut(A.ts, o.x, o.y))
    [] o.op = "push" -> upd(Append(A.ts, o.t))
    [] o.op = "pop" -> upd(SubSeq(A.ts, 1, Len(A.ts) - 1))
    [] o.op = "resize" -> upd(IF o.y <= Len(A.ts) THEN SubSeq(A.ts, 1, o.y) ELSE A.ts \o Rep(o.y - Len(A.ts), o.t))
    [] o.op = "clear" -> upd(<<>>)
    [] o.op = "reserve" -> OkN(reg, o.a, A)
    [] o.op = "to" -> OkN(reg, o.dst, [A EXCEPT !.ts = [i \in 1..Len(A.ts) |-> Typed(A.ts[i], o.y)]])
    [] o.op = "contract" -> ContractOut(sg, reg, o)
    [] o.op = "two" -> OkN(reg, o.dst, Net("T", [i \in 1..(Len(A.ts) - 1) |-> TwoSite(sg, A.ts[i], A.ts[i + 1], 0)], 0))
    [] o.op = "h2s" -> OkN(reg, o.dst, Net("T", <<H2S(sg, A.ts[1], A.ts[2], A.ts[3], A.ts[4])>>, 0))
\* the stored blocks are part of the contract only where tensors are handed on
Computed == {"two", "h2s"}
SameSite(x, g, loose) == g.ck = 1 /\ "iv" \notin DOMAIN g /\ g.d = x.d /\ g.s = x.s /\ g.v = x.v /\ g.w = x.w /\ (loose \/ (g.b = x.b /\ g.t = x.t))
\* r: what a network must be, g: what it is seen to be
Differs(r, g, loose) ==
  IF g.k # r.k THEN "kind" ELSE IF r.k = "0" THEN ""
  ELSE IF g.ck # 1 THEN "accessors disagree"
  \* (a center beyond the end, where the network has been shortened, means nothing)
  ELSE IF r.oc < Max2(Len(r.ts), 1) /\ g.oc # r.oc THEN "center" ELSE IF Len(g.ts) # Len(r.ts) THEN "length"
  ELSE IF \E i \in 1..Len(r.ts) : ~SameSite(r.ts[i], g.ts[i], loose) THEN "tensors" ELSE ""
=============================================================================
