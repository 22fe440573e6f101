----------------------------- MODULE CanonStore -----------------------------
(* Tensor networks seen as the values they stand for: a network is            *)
(*   [k, oc, n, ps, bd, tot, A, cx, fl]                                       *)
(* kind, position of the center, length, site spaces, boundary bonds, total   *)
(* charge, dense value, element type, and for every site what is known of it: *)
(* "L"/"R" isometry towards the center, "?" nothing.                          *)
EXTENDS Network
NR == 3
None == [k |-> "0"]
Sum(sg, ts) == FoldLeft(LAMBDA acc, t : QAdd(sg, acc, t.s), QZero(sg), ts)
\* bonds inside of the network and the site legs
Legs(ts) == [i \in 1..Len(ts) |-> IF Len(ts[i].d) = 3 THEN <<ts[i].d[2]>> ELSE <<ts[i].d[2], ts[i].d[4]>>]
Bounds(ts) == <<ts[1].d[1], ts[Len(ts)].d[3]>>
BondExtents(ts) == [i \in 1..(Len(ts) - 1) |-> DimSize(ts[i].d[3])]
Abstract(sg, k, ts, oc) == LET cx == Complex(ts) IN
  [k |-> k, oc |-> oc, n |-> Len(ts), ps |-> Legs(ts), bd |-> Bounds(ts), tot |-> Sum(sg, ts), A |-> Expand(k, ts, cx), cx |-> cx,
   fl |-> [i \in 1..Len(ts) |-> "?"], be |-> BondExtents(ts)]
\* the center goes from x to y: what it leaves behind is an isometry towards it
Moved(r, y) == [r EXCEPT !.oc = y, !.fl = [i \in 1..r.n |-> IF i - 1 = y THEN (IF r.oc = y THEN r.fl[i] ELSE "?")
                                                          ELSE IF i - 1 >= r.oc /\ i - 1 < y THEN "L"
                                                          ELSE IF i - 1 <= r.oc /\ i - 1 > y THEN "R" ELSE r.fl[i]]]
Canonical(r) == \A i \in 1..r.n : i - 1 = r.oc \/ r.fl[i] # "?"
\* extents that bonds cannot exceed after a compression from the left
Compressed(r) == LET cap(j) == DimSize(r.bd[1]) * Prod([i \in 1..j |-> Prod([x \in 1..Len(r.ps[i]) |-> DimSize(r.ps[i][x])])]) IN
  [j \in 1..Len(r.be) |-> Min2(r.be[j], cap(j))]
OkR(reg) == [k |-> "ok", reg |-> reg]
ExR(reg) == [k |-> "ex", reg |-> reg]
Outcome(sg, reg, o) ==
  CASE o.op = "make" -> OkR([reg EXCEPT ![o.dst] = Abstract(sg, o.k, o.ts, o.x)])
    [] o.op = "move" -> IF o.x < 0 \/ o.x >= reg[o.a].n THEN ExR(reg) ELSE OkR([reg EXCEPT ![o.a] = Moved(reg[o.a], o.x)])
    [] o.op = "coalesce" -> OkR([reg EXCEPT ![o.a] = [reg[o.a] EXCEPT !.fl = [i \in 1..reg[o.a].n |-> "?"], !.be = Compressed(reg[o.a])]])
    [] o.op = "copy" -> OkR([reg EXCEPT ![o.dst] = reg[o.a]])
    [] o.op = "swap" -> OkR([reg EXCEPT ![o.a] = reg[o.b], ![o.b] = reg[o.a]])
---------------------------------------------------------------------------
\* what is wrong with an observation g of network r, "" when nothing is
\*   g = [k, oc, st (structure of the tensors), n, m, v, w (dense, rounded), iv, dl, dr (distance to isometry, 1e-9)]
Near0(x) == x <= 200
IdxNZ(v, w) == {k \in 1..Len(v) : v[k] # 0 \/ (w # <<>> /\ w[k] # 0)}
Fails(sg, r, g) ==
  IF g.k # r.k THEN "kind" ELSE IF Len(g.st) # r.n THEN "length"
  ELSE IF g.oc # r.oc THEN "center"
  ELSE IF \E i \in 1..r.n : g.st[i].ck # 1 \/ \E j \in 1..Len(g.st[i].b) : ~BlockAllowed(sg, g.st[i].d, g.st[i].s, g.st[i].b[j]) THEN "malformed tensor"
  ELSE IF ~Formed(sg, r.k, g.st) THEN "malformed network"
  ELSE IF Legs(g.st) # r.ps THEN "site spaces"
  ELSE IF Bounds(g.st) # r.bd THEN "boundary bonds"
  ELSE IF Sum(sg, g.st) # r.tot THEN "total charge"
  ELSE IF \E i \in 1..r.n : g.st[i].t # (IF r.cx THEN "c" ELSE "d") THEN "element type"
  ELSE IF g.iv # 1 \/ g.v # r.A.v \/ (r.cx /\ g.w # r.A.w) \/ (~r.cx /\ \E k \in 1..Len(g.w) : g.w[k] # 0) THEN "value"
  \* (the zero state has nothing to be isometric about)
  ELSE IF IdxNZ(r.A.v, r.A.w) # {} /\ \E i \in 1..r.n : (r.fl[i] = "L" /\ ~Near0(g.dl[i])) \/ (r.fl[i] = "R" /\ ~Near0(g.dr[i])) THEN "isometry"
  ELSE IF \E i \in 1..(r.n - 1) : BondExtents(g.st)[i] > r.be[i] THEN "bond grew" ELSE ""
=============================================================================
