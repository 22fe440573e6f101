------------------------------- MODULE ListGen -------------------------------
EXTENDS ListStore, Json
VARIABLES reg, n, last
vars == <<reg, n, last>>
None == <<>>
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
Rnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kinds == <<<<0>>, <<2>>, <<5>>, <<2, 0>>, <<0, 0>>, <<0, 0, 3>>, <<0, 0, 0, 0, 0>>>>
RQ(g) == TLCEval([i \in 1..Len(g) |-> RandomElement(-6..6)])
RQs(g, m) == TLCEval([i \in 1..m |-> RQ(g)])
MaxLen == 12
O(op, dst, a, b) == [op |-> op, dst |-> dst, a |-> a, b |-> b, m |-> RandomElement(0..5), g |-> <<0>>, r |-> <<0>>]
OQ(op, dst, a, b, g, r) == [op |-> op, dst |-> dst, a |-> a, b |-> b, m |-> RandomElement(0..5), g |-> g, r |-> r]
R(u) == RandomElement(1..NR)
Do(oo) == \E o \in {oo} : LET out == Outcome(reg, o) IN
   /\ \A i \in 1..NR : Len(out.reg[i].l) <= MaxLen
   /\ \A i \in 1..NR : \A j \in 1..Len(out.reg[i].l) : \A k \in 1..Len(out.reg[i].l[j]) : out.reg[i].l[j][k] \in -1000..1000
   /\ last' = o /\ reg' = out.reg /\ n' = n + 1
GFor(a) == IF reg[a].g # NoType /\ Chance(85) THEN reg[a].g ELSE RS(Kinds)
Partner(a) == IF Chance(85) THEN RandomElement({i \in 1..NR : reg[i].g = reg[a].g}) ELSE R(0)
Typed == {i \in 1..NR : reg[i].g # NoType}
NonEmpty == {i \in 1..NR : reg[i].l # <<>>}
RECURSIVE RPerm(_)
RPerm(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN TLCEval(<<x>> \o RPerm(S \ {x}))
RECURSIVE Cuts(_)
\* random composition of m into runs (possibly empty ones)
Cuts(m) == IF m = 0 THEN (IF Chance(20) THEN <<0>> ELSE <<>>) ELSE LET c == TLCEval(RandomElement(0..m)) IN TLCEval(<<c>> \o Cuts(m - c))
Ops == <<"null", "make", "list", "list", "list", "list", "mixed", "copy", "copy", "move", "push", "push", "push", "pushself", "pop", "ins", "ins", "ins", "insself", "insself",
         "insn", "insn", "insr", "insr", "insr", "insrr", "insrr", "erase", "erase", "eraser", "eraser", "clear", "resize", "resize", "resizev", "reserve",
         "swap", "swap", "set", "set", "set", "mulat", "invat", "at", "eq", "eq", "perm", "perm", "perm">>
\* positions are only taken in typed lists: an iterator of a list without a type has no arithmetic
Gen(k) ==
  CASE k = "null" -> Do(O(k, R(0), 1, 1))
    [] k = "make" -> \E g \in {RS(Kinds)} : Do(OQ(k, R(0), 1, 1, g, RQ(g)) @@ [x |-> RandomElement(0..4)])
    [] k = "list" -> \E a \in {R(0)} : \E g \in {GFor(a)} : \E m \in {RandomElement(0..6)} : Do(OQ(k, R(0), 1, 1, g, RQ(g)) @@ [rs |-> RQs(g, m)])
    [] k = "mixed" -> \E g \in {RS(Kinds)} : \E m \in {RandomElement(0..3)} :
          Do(O(k, R(0), 1, 1) @@ [rs |-> TLCEval([i \in 1..m |-> LET h == IF Chance(85) THEN g ELSE RS(Kinds) IN <<h, RQ(h)>>])])
    [] k \in {"copy", "move"} -> \E a \in {R(0)} : \E d \in Rnd(1..NR \ (IF k = "move" THEN {a} ELSE {})) : Do(O(k, d, a, 1))
    [] k = "push" -> \E a \in {R(0)} : \E g \in {GFor(a)} : Do(OQ(k, 1, a, 1, g, RQ(g)))
    [] k = "pushself" -> \E a \in {R(0)} : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..9)])
    [] k = "pop" -> \E a \in Rnd(NonEmpty \cup {i \in 1..NR : reg[i].g = NoType}) : Do(O(k, 1, a, 1))
    [] k = "ins" -> \E a \in Rnd(Typed) : \E g \in {GFor(a)} : Do(OQ(k, 1, a, 1, g, RQ(g)) @@ [x |-> RandomElement(0..Len(reg[a].l))])
    [] k = "insself" -> \E a \in Rnd(NonEmpty) : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..Len(reg[a].l)), y |-> RandomElement(0..(Len(reg[a].l) - 1))])
    [] k = "insn" -> \E a \in Rnd(Typed) : \E g \in {GFor(a)} : Do(OQ(k, 1, a, 1, g, RQ(g)) @@ [x |-> RandomElement(0..Len(reg[a].l)), y |-> RandomElement(0..3)])
    [] k \in {"insr", "insrr"} -> \E a \in Rnd(Typed) : \E b \in {LET p == Partner(a) IN IF reg[p].g = NoType THEN a ELSE p} :
          \E z \in {RandomElement(0..Len(reg[b].l))} : \E y \in {RandomElement(0..z)} :
          Do(O(k, 1, a, b) @@ [x |-> RandomElement(0..Len(reg[a].l)), y |-> y, z |-> z])
    [] k = "erase" -> \E a \in Rnd(NonEmpty) : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..(Len(reg[a].l) - 1))])
    [] k = "eraser" -> \E a \in Rnd(Typed) : \E y \in {RandomElement(0..Len(reg[a].l))} : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..y), y |-> y])
    [] k = "clear" -> Chance(30) /\ Do(O(k, 1, R(0), 1))
    [] k = "resize" -> Do(O(k, 1, R(0), 1) @@ [x |-> RandomElement(0..6)])
    [] k = "resizev" -> \E a \in {R(0)} : \E g \in {GFor(a)} : Do(OQ(k, 1, a, 1, g, RQ(g)) @@ [x |-> RandomElement(0..6)])
    [] k = "reserve" -> Do(O(k, 1, R(0), 1) @@ [x |-> RandomElement(0..20)])
    [] k = "swap" -> Do(O(k, 1, R(0), R(0)))
    [] k = "set" -> \E a \in Rnd(NonEmpty) : \E g \in {GFor(a)} : Do(OQ(k, 1, a, 1, g, RQ(g)) @@ [x |-> RandomElement(0..(Len(reg[a].l) - 1))])
    [] k = "mulat" -> \E a \in Rnd(NonEmpty) : \E b \in {LET p == Partner(a) IN IF reg[p].l = <<>> THEN a ELSE p} :
          Do(O(k, 1, a, b) @@ [x |-> RandomElement(0..(Len(reg[a].l) - 1)), y |-> RandomElement(0..(Len(reg[b].l) - 1))])
    [] k = "invat" -> \E a \in Rnd(NonEmpty) : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..(Len(reg[a].l) - 1))])
    [] k = "at" -> \E a \in {R(0)} : Do(O(k, 1, a, 1) @@ [x |-> RandomElement(0..Len(reg[a].l))])
    [] k = "eq" -> \E a \in {R(0)} : \E b \in {Partner(a)} : Do(O(k, 1, a, b))
    [] k = "perm" -> \E a \in Rnd(Typed) : \E q \in {Cuts(Len(reg[a].l))} : \E p \in {RPerm(0..(Len(q) - 1))} :
          Do(O(k, R(0), a, 1) @@ [p |-> p, q |-> q])
Init == n = 0 /\ reg = [i \in 1..NR |-> NullL] /\ last = None
Begin == n' = 1 /\ reg' = reg /\ last' = [op |-> "begin", dst |-> 1, a |-> 1, b |-> 1]
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ \E j \in 1..2 : \E k \in {RS(Ops)} : Gen(k)
           \/ n' = n + 1 /\ last' = None /\ reg' = reg
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
