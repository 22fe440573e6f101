----------------------------- MODULE DecompStore ----------------------------
(* Registers with integer tensors; decompositions do not change them.          *)
(* "" = the logged result is one the specification allows.                     *)
EXTENDS Decomp
NR == 2
Zero(sg) == T(<<>>, QZero(sg), <<0>>, <<>>, <<>>, "d") @@ [dt |-> 0]
New(reg, o) == [reg EXCEPT ![o.r] = T(o.d, o.s, o.v, o.w, o.bl, o.t) @@ [dt |-> o.dt]]
After(reg, o) == IF o.op = "new" THEN New(reg, o) ELSE reg
Herm(x, split) ==   \* the matrix is square and Hermitian
  LET r == Rows(x, split)  c == Cols(x, split) IN
  r = c /\ \A i \in 0..(r-1) : \A j \in 0..(i) : x.v[i*r + j + 1] = x.v[j*r + i + 1] /\ ImOf(x, i*r + j + 1) = -ImOf(x, j*r + i + 1)
\* positions of a cut in lists which are cut together, sorted by decreasing magnitude
CutCount(rows, o) ==
  LET n == Len(rows[1])  lo == Min2(n, Max2(o.mn, 1))
      ok(c) == \A k \in 1..Len(rows) : Total([i \in 1..(n - c) |-> 2 * Abs(rows[k][c + i])], o.pow) <= Pow(o.tol2, o.pow)
      c0 == IF ok(lo) THEN lo ELSE CHOOSE c \in (lo + 1)..n : ok(c) /\ ~ok(c - 1)
  IN IF o.mx = 0 THEN c0 ELSE Min2(c0, Max2(o.mx, lo))
Fails(sg, reg, e) ==
  IF e.op = "new" THEN (IF e.st = "ok" THEN "" ELSE "refused")
  ELSE IF e.op = "cut" THEN
    LET n == Len(e.rows[1])  c == IF n = 0 THEN 0 ELSE CutCount(e.rows, e) IN
    IF e.st # "ok" THEN "refused"
    ELSE IF e.res.last # c - 1 THEN "last kept position" ELSE IF e.res.first # n - c THEN "first kept position" ELSE ""
  ELSE LET x == reg[e.r]  square == Rows(x, e.split) = Cols(x, e.split) IN
  CASE e.op \in {"svd", "svdt", "trunc"} ->
         IF e.st # "ok" THEN "refused"
         ELSE LET f == e.res.full  u == SvdFails(sg, x, e.split, f[1], f[2], f[3]) IN
              IF u # "" THEN u ELSE IF e.op = "svd" THEN "" ELSE
              LET g == e.res.tr IN SvdtFails(sg, x, e.split, f[1], f[2], f[3], g[1], g[2], g[3], e, e.op = "trunc")
    [] e.op \in {"eigh", "eight", "etrunc"} ->
         IF ~square \/ ~Herm(x, e.split) THEN ""
         ELSE IF e.st # "ok" THEN "refused"
         ELSE LET f == e.res.full  u == EighFails(sg, x, e.split, f[1], f[2]) IN
              IF u # "" THEN u ELSE IF e.op = "eigh" THEN "" ELSE
              LET g == e.res.tr IN EightFails(sg, x, e.split, f[1], f[2], g[1], g[2], e, e.op = "etrunc")
=============================================================================
