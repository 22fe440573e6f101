----------------------------- MODULE DmrgStore -------------------------------
(* The ground state search: which requests are refused, what it reports, when *)
(* it stops, what the network it leaves is like, and what its energies mean.  *)
(* Energies and amplitudes are fixed point numbers (Fixed).                   *)
(*   hs: operator, ss: starting state (k = "given") or none (k = "random"),   *)
(*   crit: c < 0: always met, 0: never met by a change, N: 1/N                *)
EXTENDS RandStore, Fixed
Sweeps(o) == o.maxit > 0
SitesOf(o) == [i \in 1..Len(o.hs) |-> o.hs[i].d[2]]
---------------------------------------------------------------------------
\* requests
DMustRefuse(sg, o, z) ==
  \/ Len(o.hs) < 2
  \/ o.k = "random" /\ (o.minb = 0 \/ (o.pl = 0 /\ ~Reachable(sg, SitesOf(o), o.q)))
  \/ o.k = "given" /\ (\/ Len(o.ss) # Len(o.hs)
                       \/ \E i \in 1..Len(o.ss) : o.ss[i].d[2] # o.hs[i].d[2]
                       \/ z = 1)                       \* the state is zero
\* torch stretches plain sites of one state to those of another
Stretched(o) == o.pl = 1 /\ o.k = "given" /\ Len(o.ss) = Len(o.hs) /\ \E i \in 1..Len(o.ss) :
   o.ss[i].d[2] # o.hs[i].d[2] /\ 1 \in {DimSize(o.ss[i].d[2]), DimSize(o.hs[i].d[2])}
DMayRefuse(sg, o) == o.k = "random" /\ o.pl = 0 /\ ~Regular(sg, SitesOf(o))
---------------------------------------------------------------------------
\* reports: init, then for every sweep its number, the energy and the bonds, then the same at the end
Grouped(ev) ==          \* a report seen through its parts
  [k \in 1..((Len(ev) - 1) \div 3) |-> <<ev[3 * k - 1], ev[3 * k], ev[3 * k + 1]>>]
PartsOk(ev) == (Len(ev) - 1) % 3 = 0 /\ \A k \in 1..((Len(ev) - 1) \div 3) :
    ev[3 * k - 1][1] = "step" /\ ev[3 * k][1] = "energy" /\ ev[3 * k + 1][1] = "bonds"
\* number, energy, bonds of all reports, the one at the end included
Reports(o, ev) ==
  IF o.m = 0 THEN [k \in 1..(Len(ev) - 1) |-> <<ev[k + 1][2], ev[k + 1][3], ev[k + 1][4]>>]
  ELSE LET g == Grouped(ev) IN [k \in 1..Len(g) |-> <<g[k][1][2], g[k][2][2], g[k][3][2]>>]
ShapeOk(o, ev) ==
  /\ Len(ev) > 0 /\ ev[1] = <<"init", o.maxit>>
  /\ IF o.m = 1 THEN PartsOk(ev)
     ELSE Len(ev) > 1 /\ \A k \in 2..Len(ev) : ev[k][1] = (IF k = Len(ev) THEN "end" ELSE "it")
\* the criterion: the energy changed by no more than 1 / crit, of the energy with conserved quantities
Slack == 3
Room(o, e) == IF o.pl = 1 THEN Unit \div o.crit ELSE FAbs(e) \div o.crit
Change(rs, k) == FAbs(rs[k][2] - rs[k - 1][2])
\* before the first sweep the energy is a large number
MustStop(o, rs, k) ==
  /\ ~Wild(rs[k][2])
  /\ IF o.crit < 0 THEN o.pl = 1 \/ FAbs(rs[k][2]) > Unit \div 64
     ELSE k > 1 /\ o.crit > 0 /\ ~Wild(rs[k - 1][2]) /\ Change(rs, k) < Room(o, rs[k][2]) - Slack
MustGoOn(o, rs, k) ==
  /\ ~Wild(rs[k][2])
  /\ IF o.crit < 0 THEN FALSE ELSE IF k = 1 THEN o.pl = 1 \/ FAbs(rs[k][2]) > 64       \* (a change relative to nothing)
     ELSE ~Wild(rs[k - 1][2]) /\ Change(rs, k) > (IF o.crit = 0 THEN 0 ELSE Room(o, rs[k][2])) + Slack
LogFails(o, g) ==
  LET rs == Reports(o, g.ev)  n == Len(rs) - 1 IN       \* n sweeps
  IF ~ShapeOk(o, g.ev) THEN "order of the reports"
  ELSE IF n > o.maxit THEN "more sweeps than the limit"
  ELSE IF n = 0 /\ o.maxit > 0 THEN "no sweep"
  ELSE IF \E k \in 1..n : rs[k][1] # k - 1 THEN "numbers of the sweeps"
  ELSE IF \E k \in 1..n : Wild(rs[k][2]) THEN "energy"
  ELSE IF \E k \in 1..(n - 1) : MustStop(o, rs, k) THEN "did not stop"
  ELSE IF n > 0 /\ n < o.maxit /\ MustGoOn(o, rs, n) THEN "stopped too early"
  ELSE IF rs[n + 1][1] \notin (IF n = 0 THEN {0}
            ELSE (IF n = o.maxit /\ ~MustStop(o, rs, n) THEN {o.maxit} ELSE {}) \cup {n - 1}) THEN "number at the end"
  ELSE IF n > 0 /\ rs[n + 1][2] # rs[n][2] THEN "energy at the end"
  ELSE IF rs[n + 1][2] # g.e THEN "energy returned"
  ELSE IF rs[n + 1][3] # g.eb THEN "bonds at the end"
  ELSE IF n > 0 /\ (Len(rs[n][3]) # Len(rs[n + 1][3]) \/ \E i \in 1..Len(g.eb) : rs[n + 1][3][i] > rs[n][3][i]) THEN "bonds of the last sweep"
  ELSE IF o.pl = 1 /\ \E k \in 1..n : \E i \in 1..(Len(rs[k][3]) - 1) : rs[k][3][i] > o.maxb THEN "bond too large"
  ELSE ""
---------------------------------------------------------------------------
\* the network at the end; with conserved quantities, values which are equal to the last
\* one within the limit are kept
Total(sg, ts) == LET n == Len(ts) IN
  QSub(sg, QSub(sg, FoldLeft(LAMBDA acc, i : QAdd(sg, acc, ts[i].s), QZero(sg), [i \in 1..n |-> i]), ts[1].d[1][1][2]), ts[n].d[3][1][2])
Target(sg, o) == IF o.k = "random" THEN o.q ELSE Total(sg, o.ss)
StateFails(sg, o, g) ==
  LET n == Len(o.hs)  ph == SitesOf(o) IN
  IF Len(g.ts) # n THEN "length"
  ELSE IF \E i \in 1..n : g.ts[i].ck # 1 THEN "accessors disagree"
  ELSE IF ~Formed(sg, "S", g.ts) THEN "bonds do not fit"
  ELSE IF \E i \in 1..n : g.ts[i].d[2] # ph[i] THEN "site space"
  ELSE IF DimSize(g.ts[1].d[1]) # 1 \/ DimSize(g.ts[n].d[3]) # 1 THEN "open boundaries"
  ELSE IF g.hs # 1 THEN "operator changed"
  ELSE IF o.pl = 0 /\ Total(sg, g.ts) # Target(sg, o) THEN "sector"
  ELSE IF ~Sweeps(o) THEN ""
  ELSE IF \E i \in 1..(n - 1) : g.eb[i] > o.maxb /\ (o.pl = 1 \/ g.sch[i] < 300) THEN "bond too large"
  ELSE IF ~Near(g.n2, Unit, 40) THEN "norm"
  ELSE IF g.oc < 0 \/ g.oc >= n THEN "center"
  ELSE IF \E i \in 1..g.oc : g.dl[i] > 1000 THEN "center: not orthogonal on its left"
  ELSE IF \E i \in (g.oc + 2)..n : g.dr[i] > 1000 THEN "center: not orthogonal on its right"
  ELSE ""
---------------------------------------------------------------------------
\* chains of independent pairs, every one of them solved by its first update
DimersFail(o, g) == IF o.dm = 1 /\ Sweeps(o) /\ ~Near(g.e, o.xe * Unit, 2000) THEN "a pair was not visited" ELSE ""
---------------------------------------------------------------------------
\* the operator, on the configurations of the sites
HElement(o) == LET ps == [i \in 1..Len(o.hs) |-> DimSize(o.hs[i].d[2])]
                   E == Expand("O", o.hs, Complex(o.hs)) IN
   [ns |-> Prod(ps), ps |-> ps, E |-> E]
HAt(h, s, t) == At(h.E, OpPos(s, t, h.ps))
\* charge of every configuration
RECURSIVE ConfQ(_, _)
ConfQ(sg, dims) == IF dims = <<>> THEN <<QZero(sg)>> ELSE
   LET rest == ConfQ(sg, Tail(dims))  qs == ElemQ(Head(dims)) IN
   [k \in 1..(Len(qs) * Len(rest)) |-> QAdd(sg, qs[1 + ((k - 1) \div Len(rest))], rest[1 + ((k - 1) % Len(rest))])]
Sector(sg, dims, q) == LET cq == ConfQ(sg, dims) IN SelectSeq([k \in 1..Len(cq) |-> k - 1], LAMBDA s : cq[s + 1] = q)
\* the operator times a vector given on some configurations (whole numbers times fixed point numbers)
CPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Times(h, sec, v) == [a \in 1..Len(sec) |-> FoldLeftDomain(LAMBDA acc, b : LET x == HAt(h, sec[a], sec[b]) IN IF CNil(x) THEN acc ELSE CPlus(acc, CMul(x, v[b])), <<0, 0>>, sec)]
\* conj(u) . v
Dot(u, v) == FoldLeftDomain(LAMBDA acc, a : CPlus(acc, <<FMul(u[a][1], v[a][1]) + FMul(u[a][2], v[a][2]), FMul(u[a][1], v[a][2]) - FMul(u[a][2], v[a][1])>>), <<0, 0>>, u)
Vector(g, sec) == [a \in 1..Len(sec) |-> <<g.v[sec[a] + 1], g.w[sec[a] + 1]>>]
EigVector(g, n, k) == [a \in 1..n |-> <<g.qv[(k - 1) * n + a], g.qw[(k - 1) * n + a]>>]
\* these are all the eigenvalues: the vectors are orthonormal and each is an eigenvector
CertificateOk(h, sec, g) ==
  LET n == Len(sec)  q == [k \in 1..n |-> EigVector(g, n, k)] IN
  /\ Len(g.lam) = n /\ Len(g.qv) = n * n
  /\ \A k \in 1..n : LET hq == Times(h, sec, q[k]) IN
       \A a \in 1..n : FAbs(hq[a][1] - FMul(g.lam[k], q[k][a][1])) < 400 /\ FAbs(hq[a][2] - FMul(g.lam[k], q[k][a][2])) < 400
  /\ \A j \in 1..n : \A k \in j..n : LET d == Dot(q[j], q[k]) IN Near(d[1], IF j = k THEN Unit ELSE 0, 400) /\ Near(d[2], 0, 400)
Lowest(g) == FoldLeft(LAMBDA acc, x : Min2(acc, x), g.lam[1], g.lam)
\* the ground state is alone; with conserved quantities, it also has a part of every configuration
\* (a random start is not in any subspace, but with conserved quantities its bonds can miss sections)
Plain0(o, g) ==
  LET n == Len(g.lam)  l0 == Lowest(g)  k0 == CHOOSE k \in 1..n : g.lam[k] = l0 IN
  /\ \A k \in 1..n : k = k0 \/ g.lam[k] - l0 > Unit \div 5
  /\ o.pl = 1 \/ \A a \in 1..n : LET x == EigVector(g, n, k0)[a] IN FAbs(x[1]) + FAbs(x[2]) > Unit \div 50
\* nothing is cut off
Whole(o) == o.whole = 1
Tol == 2500
ValueFails(sg, o, g) ==
  IF ~Sweeps(o) \/ o.val # 1 THEN "" ELSE
  LET h == HElement(o)
      sec == Sector(sg, SitesOf(o), Target(sg, o))
      rest == {k \in 1..Len(g.v) : (k - 1) \notin ToSet(sec)}
      psi == Vector(g, sec)
      hp == Times(h, sec, psi)
      e == Dot(psi, hp)
      rs == Reports(o, g.ev)
      n == Len(rs) - 1 IN
  IF Len(g.v) # h.ns \/ o.sec # sec THEN "amplitudes"
  ELSE IF \E k \in rest : FAbs(g.v[k]) + FAbs(g.w[k]) > 4 THEN "outside of the sector"
  ELSE IF ~Near(Dot(psi, psi)[1], Unit, 200) THEN "norm of the amplitudes"
  ELSE IF ~CertificateOk(h, sec, g) THEN "certificate"
  ELSE IF Wild(g.e) THEN "energy is not a number"
  ELSE IF g.e < Lowest(g) - Tol THEN "energy below the lowest eigenvalue"
  ELSE IF e[1] < Lowest(g) - Tol THEN "state below the lowest eigenvalue"
  ELSE IF ~Whole(o) THEN ""
  ELSE IF ~Near(e[1], g.e, Tol) THEN "energy of the state"
  ELSE IF o.m # 2 /\ \E k \in 2..n : rs[k][2] > rs[k - 1][2] + 20 THEN "energy went up"
  ELSE IF /\ o.full = 1 /\ o.m # 2 /\ n < o.maxit      \* (converged)
          /\ Plain0(o, g) /\ ~Near(g.e, Lowest(g), Tol) THEN "not the lowest eigenvalue"
  ELSE ""
DFails(sg, o, g) ==
  LET a == IF o.m = 2 THEN "" ELSE LogFails(o, g) IN
  IF a # "" THEN a ELSE LET b == StateFails(sg, o, g) IN
  IF b # "" THEN b ELSE LET c == DimersFail(o, g) IN
  IF c # "" THEN c ELSE ValueFails(sg, o, g)
=============================================================================
