------------------------------ MODULE MapStore ------------------------------
(* Finite maps from integers to integers, and what every operation of the    *)
(* block map does to them.  A map is the increasing sequence of its <<k,v>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NR == 3
B01(p) == IF p THEN 1 ELSE 0
Keys(m) == {m[i][1] : i \in 1..Len(m)}
Below(m, k) == Cardinality({i \in 1..Len(m) : m[i][1] < k})     \* position of the first key >= k
Has(m, k) == k \in Keys(m)
At(m, k) == m[Below(m, k) + 1][2]
Put(m, k, v) == LET p == Below(m, k) IN SubSeq(m, 1, p) \o <<<<k, v>>>> \o SubSeq(m, p + 1 + B01(Has(m, k)), Len(m))
PutNew(m, k, v) == IF Has(m, k) THEN m ELSE Put(m, k, v)
Drop(m, i, j) == SubSeq(m, 1, i) \o SubSeq(m, j + 1, Len(m))
Increasing(m) == \A i \in 1..(Len(m) - 1) : m[i][1] < m[i + 1][1]

Combine(c, old, new) == CASE c = "keep" -> old [] c = "add" -> old + new [] c = "lin" -> (3 * old - new) % 1009 [] c = "take" -> new
Fresh(n, v) == IF n = "neg" THEN -v ELSE v
\* one incoming element
Join(m, p, c, n) == IF Has(m, p[1]) THEN Put(m, p[1], Combine(c, At(m, p[1]), p[2])) ELSE Put(m, p[1], Fresh(n, p[2]))
JoinAll(m, ps, c, n) == FoldLeft(LAMBDA acc, p : Join(acc, p, c, n), m, ps)
Collisions(m, ps) == Len(ps) - (Cardinality(Keys(m) \cup Keys(ps)) - Len(m))

Set1(reg, i, v, r) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = v], r |-> r]
Val(reg, r) == [k |-> "ok", reg |-> reg, r |-> r]
Refused(reg) == [k |-> "ex", reg |-> reg, r |-> <<>>]
Outcome(reg, o) ==
  LET A == reg[o.a]  B == reg[o.b] IN
  CASE o.op \in {"new", "ilist"} -> Set1(reg, o.dst, JoinAll(<<>>, o.ps, "keep", "id"), <<>>)
    [] o.op = "copy" -> Set1(reg, o.dst, A, <<>>)
    [] o.op = "move" -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = <<>>, ![o.dst] = A], r |-> <<>>]
    [] o.op = "swap" -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = B, ![o.b] = A], r |-> <<>>]
    [] o.op = "reserve" -> Val(reg, <<>>)
    [] o.op \in {"ins", "emp", "emph", "tem", "temh"} -> Set1(reg, o.a, PutNew(A, o.k, o.v), <<Below(A, o.k), B01(~Has(A, o.k))>>)
    [] o.op = "insh" -> Set1(reg, o.a, PutNew(A, o.k, o.v), <<Below(A, o.k)>>)
    [] o.op = "ioa" -> Set1(reg, o.a, Put(A, o.k, o.v), <<Below(A, o.k), B01(~Has(A, o.k))>>)
    [] o.op = "ioah" -> Set1(reg, o.a, Put(A, o.k, o.v), <<Below(A, o.k)>>)
    [] o.op = "idx" -> Set1(reg, o.a, PutNew(A, o.k, 0), <<At(PutNew(A, o.k, 0), o.k)>>)
    [] o.op = "idxset" -> Set1(reg, o.a, Put(A, o.k, o.v), <<>>)
    [] o.op = "at" -> IF Has(A, o.k) THEN Val(reg, <<At(A, o.k)>>) ELSE Refused(reg)
    [] o.op = "atset" -> IF Has(A, o.k) THEN Set1(reg, o.a, Put(A, o.k, o.v), <<>>) ELSE Refused(reg)
    [] o.op = "look" -> LET h == Has(A, o.k)  p == Below(A, o.k) IN
          Val(reg, <<IF h THEN p ELSE Len(A), B01(h), B01(h), p, p + B01(h), B01(h)>>)
    [] o.op = "erase" -> Set1(reg, o.a, Drop(A, o.x, o.x + 1), <<o.x>>)
    [] o.op = "eraser" -> Set1(reg, o.a, Drop(A, o.x, o.y), <<o.x>>)
    [] o.op = "erasek" -> Set1(reg, o.a, SelectSeq(A, LAMBDA p : p[1] # o.k), <<B01(Has(A, o.k))>>)
    [] o.op = "clear" -> Set1(reg, o.a, <<>>, <<>>)
    [] o.op = "insr" -> Set1(reg, o.a, JoinAll(A, o.ps, o.c, "id"), <<Collisions(A, o.ps), Cardinality(Keys(o.ps) \ Keys(A))>>)
    [] o.op = "insm" -> LET ps == SubSeq(B, o.x + 1, o.y) IN
          Set1(reg, o.a, JoinAll(A, ps, o.c, o.n), <<Collisions(A, ps), Len(ps) - Collisions(A, ps)>>)
    [] o.op = "merge" -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = JoinAll(A, B, o.c, o.n), ![o.b] = IF o.rv = 1 THEN <<>> ELSE B],
                          r |-> <<Collisions(A, B), Len(B) - Collisions(A, B)>>]
    [] o.op = "eq" -> Val(reg, <<B01(A = B), 1>>)
=============================================================================
