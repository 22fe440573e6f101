------------------------------ MODULE DecompMC ------------------------------
(* Global truncation over sectors: sort, cut, then keep in every sector what   *)
(* is not below the cut.  For every spectrum, the result is one the rule       *)
(* allows, whatever the tolerance, the counts and the power.                   *)
EXTENDS Decomp
CONSTANTS NV, NS, MaxV
Spectra == UNION {[1..k -> (0..MaxV) \X (1..NS)] : k \in 1..NV}
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i][2] < s[i + 1][2] \/ (s[i][2] = s[i + 1][2] /\ s[i][1] >= s[i + 1][1])
VARIABLES all, kept, par          \* par: tolerance (half units), minimum, maximum, power
vars == <<all, kept, par>>
RECURSIVE Cut(_, _, _, _)
\* last kept position of a decreasing list, walking from the end
Cut(a, pos, acc, q) ==
  IF pos <= Max2(q[2], 1) THEN pos
  ELSE LET t == acc + Pow(a[pos], q[4]) IN
       IF t > Pow(q[1], q[4]) /\ (q[3] = 0 \/ pos <= q[3]) THEN pos ELSE Cut(a, pos - 1, t, q)
Algo(s, q) == LET a == Sort(Mag(s))  c == Cut(a, Len(a), 0, q) IN SelectSeq(s, LAMBDA x : x[1] >= a[c])
Init == /\ all \in {s \in Spectra : Asc(s)}
        /\ par \in (0..(NV * MaxV)) \X (0..(NV + 1)) \X (0..(NV + 1)) \X {1, 2}
        /\ kept = <<>>
Next == kept = <<>> /\ kept' = Algo(all, par) /\ UNCHANGED <<all, par>>
Spec == Init /\ [][Next]_vars
Rule == kept # <<>> => TruncFails(all, kept, par[1], par[2], par[3], par[4], 2, 0) = ""
\* without equal values the rule leaves no choice: any other selection is refused
Distinct(s) == Cardinality({s[i][1] : i \in 1..Len(s)}) = Len(s)
Unique == (kept # <<>> /\ Distinct(all)) =>
  \A K \in SUBSET (1..Len(all)) : LET k == [i \in 1..Cardinality(K) |-> all[SetToSortSeq(K, LAMBDA x, y : x < y)[i]]] IN
     k # kept => TruncFails(all, k, par[1], par[2], par[3], par[4], 2, 0) # ""
=============================================================================
