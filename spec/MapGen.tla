------------------------------- MODULE MapGen -------------------------------
EXTENDS MapStore, Json
VARIABLES reg, n, last
vars == <<reg, n, last>>
None == <<>>
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
Rnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
R(u) == RandomElement(1..NR)
K(u) == IF Chance(70) THEN RandomElement(-8..8) ELSE RandomElement(-40..40)
V(u) == RandomElement(-50..50)
KIn(m) == IF m # <<>> /\ Chance(50) THEN m[RandomElement(1..Len(m))][1] + (IF Chance(30) THEN RandomElement({-1, 1}) ELSE 0) ELSE K(0)
Pairs(m) == TLCEval([i \in 1..m |-> <<K(0), V(0)>>])
O(op, dst, a, b) == [op |-> op, dst |-> dst, a |-> a, b |-> b, m |-> RandomElement(0..41)]
Do(oo) == \E o \in {oo} : LET out == Outcome(reg, o) IN
   /\ \A i \in 1..NR : Len(out.reg[i]) <= 60 /\ \A j \in 1..Len(out.reg[i]) : out.reg[i][j][2] \in -1000000..1000000
   /\ last' = o /\ reg' = out.reg /\ n' = n + 1
Big(u) == IF Chance(30) THEN RandomElement(18..40) ELSE RandomElement(0..9)
NonEmpty == {i \in 1..NR : reg[i] # <<>>}
Pos(a) == RandomElement(0..Len(reg[a]))
Col(u) == RS(<<"keep", "keep", "add", "lin", "lin", "take">>)
Ops == <<"new", "new", "ilist", "copy", "move", "swap", "reserve", "ins", "ins", "insh", "insh", "insh", "emp", "emph", "emph", "emph", "tem", "temh", "temh",
         "ioa", "ioah", "ioah", "idx", "idxset", "at", "atset", "look", "look", "look", "erase", "eraser", "erasek", "erasek", "clear", "insr", "insr", "insr",
         "insm", "insm", "insm", "merge", "merge", "merge", "merge", "eq">>
Gen(k) ==
  CASE k = "new" -> \E m \in {RandomElement(0..41)} : \E ps \in {Pairs(Big(0))} :
          /\ (m % 7 = 6 /\ Len(ps) > 3) => Cardinality(Keys(ps)) = Len(ps)
          /\ Do([O(k, R(0), 1, 1) EXCEPT !.m = m] @@ [ps |-> ps])
    [] k = "ilist" -> Do(O(k, R(0), 1, 1) @@ [ps |-> Pairs(RandomElement(0..4))])
    [] k = "copy" -> Do(O(k, R(0), R(0), 1))
    [] k = "move" -> \E a \in {R(0)} : \E d \in Rnd(1..NR \ {a}) : Do(O(k, d, a, 1))
    [] k = "swap" -> Do(O(k, 1, R(0), R(0)))
    [] k = "reserve" -> Do(O(k, 1, R(0), 1) @@ [x |-> RandomElement(0..80)])
    [] k \in {"ins", "emp", "tem", "ioa", "idxset", "atset"} -> \E a \in {R(0)} : Do(O(k, 1, a, 1) @@ [k |-> KIn(reg[a]), v |-> V(0)])
    [] k \in {"insh", "emph", "temh", "ioah"} -> \E a \in {R(0)} : \E q \in {KIn(reg[a])} : \E h \in {IF Chance(30) THEN Below(reg[a], q) ELSE Pos(a)} :
          Do(O(k, 1, a, 1) @@ [k |-> q, v |-> V(0), h |-> h])
    [] k \in {"idx", "at", "look", "erasek"} -> \E a \in {R(0)} : Do(O(k, 1, a, 1) @@ [k |-> KIn(reg[a])])
    [] k = "erase" -> \E a \in Rnd(NonEmpty) : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..(Len(reg[a]) - 1))])
    [] k = "eraser" -> \E a \in {R(0)} : \E y \in {Pos(a)} : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..y), y |-> y])
    [] k = "clear" -> Chance(20) /\ Do(O(k, 1, R(0), 1))
    [] k = "insr" -> Do(O(k, 1, R(0), 1) @@ [c |-> Col(0), ps |-> Pairs(Big(0))])
    [] k = "insm" -> \E a \in {R(0)} : \E b \in Rnd(1..NR \ {a}) : \E y \in {IF Chance(60) THEN Len(reg[b]) ELSE Pos(b)} : \E x \in {IF Chance(60) THEN 0 ELSE RandomElement(0..y)} :
          Do(O(k, 1, a, b) @@ [c |-> Col(0), n |-> RS(<<"id", "neg">>), x |-> x, y |-> y])
    [] k = "merge" -> \E a \in {R(0)} : \E b \in Rnd(1..NR \ {a}) :
          Do(O(k, 1, a, b) @@ [c |-> Col(0), n |-> RS(<<"id", "neg">>), rv |-> RandomElement(0..1), x |-> RS(<<0, 10, 60, 120>>)])
    [] k = "eq" -> Do(O(k, 1, R(0), R(0)))
Init == n = 0 /\ reg = [i \in 1..NR |-> <<>>] /\ last = None
Begin == n' = 1 /\ reg' = reg /\ last' = [op |-> "begin", dst |-> 1, a |-> 1, b |-> 1, kt |-> RandomElement(0..2)]
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ \E j \in 1..2 : \E k \in {RS(Ops)} : Gen(k)
           \/ n' = n + 1 /\ last' = None /\ reg' = reg
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
