------------------------------ MODULE DenseMC ------------------------------
(* Algebra of the generalized contraction, exhaustively over small shapes:    *)
(* the flattened index arithmetic of DenseStore equals the elementwise        *)
(* definition, is linear in the scale factors and swaps with its operands.    *)
EXTENDS DenseStore, FiniteSetsExt
CONSTANTS E, MaxRank
VARIABLES sa, sb, ds, st
vars == <<sa, sb, ds, st>>
Shapes == UNION {[1..r -> 1..E] : r \in 0..MaxRank}
PairLists(a, b) == LET S == (0..(Len(a) - 1)) \X (0..(Len(b) - 1)) IN
   {<<>>} \cup {<<p>> : p \in S} \cup {<<q[1], q[2]>> : q \in {q \in S \X S : q[1][1] # q[2][1] /\ q[1][2] # q[2][2]}}
Init == /\ sa \in Shapes /\ sb \in Shapes /\ ds \in PairLists(sa, sb) /\ st = 0
        /\ \A i \in 1..Len(ds) : LET x == sa[ds[i][1] + 1]  y == sb[ds[i][2] + 1] IN x = y \/ x = 1 \/ y = 1
Next == st = 0 /\ st' = 1 /\ UNCHANGED <<sa, sb, ds>>
Spec == Init /\ [][Next]_vars
d1 == [i \in 1..Len(ds) |-> ds[i][1]]
d2 == [i \in 1..Len(ds) |-> ds[i][2]]
\* elements that identify their own position
A == D(sa, [k \in 1..Prod(sa) |-> k * k + 1], <<>>)
B == D(sb, [k \in 1..Prod(sb) |-> 3 * k - 5], <<>>)
osh == ShapeOf(A, B, d1, d2)
C == D(osh, [k \in 1..Prod(osh) |-> 7 - k], <<>>)
f1 == Free(d1, Len(sa))
f2 == Free(d2, Len(sb))
Tuples(sh) == [1..Len(sh) -> 0..(E - 1)]
Valid(t, sh) == \A i \in 1..Len(sh) : t[i] < sh[i]
\* sum over all pairs of positions of A and B that agree with the output position
\* and with each other on the paired dimensions (an extent of one agrees with anything)
Agree(i, j) == \A k \in 1..Len(ds) : sa[d1[k] + 1] = 1 \/ sb[d2[k] + 1] = 1 \/ i[d1[k] + 1] = j[d2[k] + 1]
Ref(o) == LET I == {i \in Tuples(sa) : Valid(i, sa) /\ \A k \in 1..Len(f1) : i[f1[k] + 1] = o[k]}
              J == {j \in Tuples(sb) : Valid(j, sb) /\ \A k \in 1..Len(f2) : j[f2[k] + 1] = o[Len(f1) + k]}
              term(p) == A.v[Ravel(p[1], Strides(sa)) + 1] * B.v[Ravel(p[2], Strides(sb)) + 1]
          IN MapThenSumSet(term, {p \in I \X J : Agree(p[1], p[2])})
Definition == LET g == Gdot(C, A, B, d1, d2, 2, -3) IN
   /\ g.sh = osh
   /\ \A k \in 1..Prod(osh) : g.v[k] = 2 * C.v[k] - 3 * Ref(Unravel(k - 1, osh, Strides(osh)))
\* exchanging the operands only permutes the result
nf == Len(f1)
Exchanged == LET g == Gdot(D(osh, [k \in 1..Prod(osh) |-> 0], <<>>), A, B, d1, d2, 1, 1)
                 zh == ShapeOf(B, A, d2, d1)
                 h == Gdot(D(zh, [k \in 1..Prod(zh) |-> 0], <<>>), B, A, d2, d1, 1, 1)
             IN \A k \in 1..Prod(osh) : LET u == Unravel(k - 1, osh, Strides(osh))
                                            w == SubSeq(u, nf + 1, Len(u)) \o SubSeq(u, 1, nf)
                                        IN g.v[k] = h.v[Ravel(w, Strides(zh)) + 1]
Tools == \A l \in {d1, d2, sa, sb} : Rev(Rev(l)) = l /\ Prod(Rev(l)) = Prod(l)
=============================================================================
