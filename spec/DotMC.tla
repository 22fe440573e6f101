-------------------------------- MODULE DotMC --------------------------------
(* The block contraction as an algorithm on sorted block lists, for every set *)
(* of stored blocks: the blocks of each operand are ordered by free index,    *)
(* then contracted index; a column is a run of blocks with one free index;    *)
(* every pair of columns is merged, advancing the cursor with the smaller     *)
(* contracted index.  It must find every matching pair exactly once and list  *)
(* the blocks of the result in increasing order, without sorting them.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS NF, NC, NG      \* number of free indices of the left operand, contracted indices, free indices of the right one
VARIABLES S1, S2, c1, c2, i, j, pc, cur, out
vars == <<S1, S2, c1, c2, i, j, pc, cur, out>>
I1 == (1..NF) \X (1..NC)
I2 == (1..NG) \X (1..NC)
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Sorted(S) == SetToSortSeq(S, Less)
t1 == Sorted(S1)
t2 == Sorted(S2)
\* first position after c with another free index
RECURSIVE ColEnd(_, _, _)
ColEnd(t, c, x) == IF x > Len(t) \/ t[x][1] # t[c][1] THEN x ELSE ColEnd(t, c, x + 1)
Init == S1 \in SUBSET I1 /\ S2 \in SUBSET I2 /\ c1 = 1 /\ c2 = 1 /\ i = 1 /\ j = 1 /\ pc = "col" /\ cur = {} /\ out = <<>>
Column == pc = "col" /\ c1 <= Len(t1) /\ c2 <= Len(t2) /\ i' = c1 /\ j' = c2 /\ cur' = {} /\ pc' = "merge"
  /\ UNCHANGED <<S1, S2, c1, c2, out>>
Merge == pc = "merge" /\ UNCHANGED <<S1, S2, c1, c2>>
  /\ LET e1 == ColEnd(t1, c1, c1)  e2 == ColEnd(t2, c2, c2) IN
     IF i = e1 \/ j = e2
     THEN /\ pc' = "next" /\ UNCHANGED <<i, j, cur>>
          /\ out' = (IF cur = {} THEN out ELSE Append(out, <<t1[c1][1], t2[c2][1], cur>>))
     ELSE LET x == t1[i][2]  y == t2[j][2] IN
          /\ i' = (IF x <= y THEN i + 1 ELSE i)         \* a match is broken by advancing the left cursor
          /\ j' = (IF x > y THEN j + 1 ELSE j)
          /\ cur' = (IF x = y THEN cur \cup {<<t1[i], t2[j]>>} ELSE cur)
          /\ UNCHANGED <<pc, out>>
NextColumns == pc = "next" /\ pc' = "col"
  /\ LET e1 == ColEnd(t1, c1, c1)  e2 == ColEnd(t2, c2, c2) IN
       /\ c2' = (IF e2 > Len(t2) THEN 1 ELSE e2)
       /\ c1' = (IF e2 > Len(t2) THEN e1 ELSE c1)
  /\ UNCHANGED <<S1, S2, i, j, cur, out>>
Over == pc = "col" /\ (c1 > Len(t1) \/ Len(t2) = 0)
Next == Column \/ Merge \/ NextColumns
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Pairs(a, b) == {p \in S1 \X S2 : p[1][1] = a /\ p[2][1] = b /\ p[1][2] = p[2][2]}
Ideal == {<<a, b, Pairs(a, b)>> : a \in 1..NF, b \in 1..NG}
Correct == Over => ToSet(out) = {x \in Ideal : x[3] # {}} /\ Len(out) = Cardinality(ToSet(out))
Increasing == \A k \in 1..(Len(out) - 1) : Less(out[k], out[k + 1])
NotStuck == Over \/ ENABLED Next
=============================================================================
