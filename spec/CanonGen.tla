------------------------------ MODULE CanonGen ------------------------------
(* Random sequences of center moves and compressions on random networks.      *)
EXTENDS CanonStore, NetRand
CONSTANT Kind         \* "S": center moves, "O": compression
VARIABLES reg, sg, pl, phs, n, last
vars == <<reg, sg, pl, phs, n, last>>
NoneE == <<>>
Init == n = 0 /\ reg = [i \in 1..NR |-> None] /\ sg = <<0>> /\ pl = 0 /\ phs = <<>> /\ last = NoneE
Lengths == IF Kind = "S" THEN <<1, 2, 2, 3, 3, 3, 4, 4, 5>> ELSE <<1, 2, 2, 3, 3, 4>>
Begin == /\ \E s \in Rnd(Sigs) : \E p \in {IF Kind = "O" THEN 0 ELSE RS(<<0, 0, 1>>)} :
            sg' = (IF p = 1 THEN <<0>> ELSE s) /\ pl' = p /\ phs' = TLCEval([i \in 1..5 |-> RSiteDim(sg', p, 2)])
         /\ n' = 1 /\ reg' = reg
         /\ last' = [op |-> "begin", sg |-> sg', pl |-> pl', ob |-> "den", dst |-> 1, a |-> 1, b |-> 1]
Live == {i \in 1..NR : reg[i].k # "0"}
O(op, dst, a, b, x) == [op |-> op, dst |-> dst, a |-> a, b |-> b, x |-> x, m |-> RandomElement(0..3)]
Do(oo) == \E o \in {oo} : LET out == Outcome(sg, reg, o) IN
  /\ n' = n + 1 /\ UNCHANGED <<sg, pl, phs>> /\ reg' = out.reg /\ last' = o
MaxSize == IF Kind = "S" THEN 48 ELSE 300
GenMake == \E i \in Rnd(1..NR) : \E len \in {RS(Lengths)} : \E cx \in {Chance(25)} : \E dens \in {RS(<<0, 60, 90, 100, 100>>)} : \E big \in {RandomElement(1..4)} :
   \E wl \in {Chance(15)} : \E wr \in {Chance(15)} :
   \E ts \in {RNet(Kind, sg, pl, SubSeq(phs, 1, len), cx, dens, big, 2, wl, wr)} : \E x \in {IF Kind = "S" THEN RandomElement(0..(len - 1)) ELSE 0} :
   LET sz == Prod([j \in 1..len |-> DimSize(phs[j])]) IN
   (IF Kind = "S" THEN sz ELSE sz * sz) <= MaxSize /\ Do([O("make", i, i, i, x) EXCEPT !.m = RandomElement(0..4)] @@ [k |-> Kind, ts |-> ts])
GenMove == \E a \in Rnd({i \in Live : reg[i].k = "S"}) :
   \E x \in {IF Chance(90) THEN RandomElement(0..(reg[a].n - 1)) ELSE RandomElement({-2, -1, reg[a].n, reg[a].n + 1})} : Do(O("move", a, a, a, x))
GenCoal == \E a \in Rnd({i \in Live : reg[i].k = "O"}) : \E x \in {RS(<<0, 0, 0, 1, 10>>)} : Do(O("coalesce", a, a, a, x))
GenCopy == \E a \in Rnd(Live) : \E i \in Rnd((1..NR) \ {a}) : Do(O("copy", i, a, a, 0))
GenSwap == \E a \in Rnd(Live) : \E b \in Rnd(Live \ {a}) : Do(O("swap", a, a, b, 0))
Skip == n' = n + 1 /\ last' = NoneE /\ UNCHANGED <<reg, sg, pl, phs>>
Step == /\ IF last = NoneE THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ IF Live = {} THEN GenMake
              ELSE \E k \in {RandomElement(1..100)} :
                   CASE k <= 25 -> GenMake
                     [] k <= 85 -> IF Kind = "S" THEN GenMove ELSE GenCoal
                     [] k <= 94 -> GenCopy [] OTHER -> GenSwap
           \/ Live # {} /\ Skip
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
