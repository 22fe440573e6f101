------------------------------ MODULE DenseGen ------------------------------
EXTENDS DenseStore, Json
VARIABLES reg, n, last, ty
vars == <<reg, n, last, ty>>
None == <<>>
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
R(u) == RandomElement(1..NR)
Ext(u) == RS(<<1, 1, 2, 2, 2, 3, 3, 4, 0>>)
RECURSIVE RPerm(_)
RPerm(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN TLCEval(<<x>> \o RPerm(S \ {x}))
Vals(m) == TLCEval([i \in 1..m |-> IF Chance(25) THEN 0 ELSE RandomElement(-5..5)])
MaxN == 200
O(op, dst) == [op |-> op, dst |-> dst, m |-> RandomElement(0..11), lay |-> RandomElement(0..3)]
Do(oo) == \E o \in {oo} : LET out == Outcome(reg, o) IN
   /\ ("be" \in DOMAIN o /\ o.be = 0) => (reg[o.a].v # <<>> /\ reg[o.b].v # <<>>)   \* an empty product with weight zero is left to torch
   /\ \A i \in 1..NR : Len(out.reg[i].v) <= MaxN /\ \A j \in 1..Len(out.reg[i].v) : out.reg[i].v[j] \in -1000..1000
   /\ \A i \in 1..NR : \A j \in 1..Len(out.reg[i].w) : out.reg[i].w[j] \in -1000..1000
   /\ last' = o /\ reg' = out.reg /\ n' = n + 1 /\ ty' = ty
New(d, sh) == Len(sh) <= 6 /\ Prod(sh) <= MaxN /\ Do(O("new", d) @@ [sh |-> sh, v |-> Vals(Prod(sh)), w |-> IF ty = 1 THEN Vals(Prod(sh)) ELSE <<>>])
\* a new tensor, sharing extents with register i so that contractions fit
Shape(i) == TLCEval(LET r == RS(<<0, 1, 2, 2, 3, 3, 4>>) IN
   [j \in 1..r |-> IF reg[i].sh # <<>> /\ Chance(60) THEN reg[i].sh[RandomElement(1..Len(reg[i].sh))] ELSE Ext(0)])
\* pairs of contractible dimensions of a and b, in random order
Pairs(a, b) == {p \in (0..(Len(reg[a].sh) - 1)) \X (0..(Len(reg[b].sh) - 1)) :
   LET x == reg[a].sh[p[1] + 1]  y == reg[b].sh[p[2] + 1] IN x = y \/ x = 1 \/ y = 1}
RECURSIVE Match(_, _)
Match(P, k) == IF k = 0 \/ P = {} THEN <<>>
   ELSE LET p == TLCEval(RandomElement(P)) IN TLCEval(<<p>> \o Match({q \in P : q[1] # p[1] /\ q[2] # p[2]}, k - 1))
Small(sh) == Len(sh) <= 6 /\ Prod(sh) <= MaxN
Ops == <<"new", "new", "shaped", "gdot", "gdot", "gdot", "gdot", "gdot_", "gdot_", "gdoto", "gdoto", "gdotn", "gdotn", "gdotw", "concat", "reverse", "slice", "prod", "prodn", "num">>
L(k) == TLCEval([i \in 1..k |-> RandomElement(-6..9)])
Neg(l, r) == TLCEval([i \in 1..Len(l) |-> IF Chance(25) THEN l[i] - r ELSE l[i]])
Contract(k, spoil) ==
  \E a \in {R(0)} : \E b \in {R(0)} : \E mt \in {Match(Pairs(a, b), RandomElement(0..3))} :
   LET d1 == [i \in 1..Len(mt) |-> mt[i][1]]  d2 == [i \in 1..Len(mt) |-> mt[i][2]]
       sh == ShapeOf(reg[a], reg[b], d1, d2)
       fit == {i \in 1..NR : reg[i].sh = sh} \ (IF k = "gdot" THEN {} ELSE {a, b})
   IN \E n1 \in {Neg(d1, Len(reg[a].sh))} : \E n2 \in {Neg(d2, Len(reg[b].sh))} :
      /\ Small(sh)
      /\ IF fit = {} /\ ~spoil THEN \E c \in 1..NR \ {a, b} : New(c, sh)
         ELSE \E c \in {IF fit # {} /\ Chance(90) THEN RandomElement(fit) ELSE RandomElement(1..NR \ {a, b})} :
              \E z1 \in {IF ~spoil THEN n1 ELSE RS(<<Append(n1, 0), [i \in 1..Len(n1) |-> n1[1]], TLCEval([i \in 1..Len(n1) |-> RandomElement(-3..3)]), n2>>)} :
              Do([O(k, IF k = "gdot" THEN R(0) ELSE RandomElement(1..NR \ {a, b, c})) EXCEPT !.m = RandomElement(0..11)] @@
                 [a |-> a, b |-> b, c |-> c, d1 |-> z1, d2 |-> n2, be |-> RandomElement({-2, 0, 1, 1, 2}), al |-> RandomElement({-3, 0, 1, 1, 2}), x |-> RandomElement(0..1)])
ContractN ==
  \E a \in {R(0)} : \E b \in {R(0)} : \E x \in {RandomElement(0..2)} :
   LET ra == Len(reg[a].sh)  rb == Len(reg[b].sh)
       okd == x <= ra /\ x <= rb /\ \A i \in 1..x : reg[a].sh[ra - x + i] = reg[b].sh[i]
       sh == IF x <= ra /\ x <= rb THEN SubSeq(reg[a].sh, 1, ra - x) \o SubSeq(reg[b].sh, x + 1, rb) ELSE <<>>
       fit == {i \in 1..NR \ {a, b} : reg[i].sh = sh}
   IN /\ Small(sh)
      /\ IF ~okd /\ Chance(80) /\ x <= rb /\ rb <= 4 THEN New(b, SubSeq(reg[a].sh, IF ra - x + 1 < 1 THEN 1 ELSE ra - x + 1, ra) \o SubSeq(reg[b].sh, x + 1, rb))
         ELSE IF fit = {} /\ okd THEN \E c \in 1..NR \ {a, b} : New(c, sh)
         ELSE \E c \in {IF fit # {} THEN RandomElement(fit) ELSE RandomElement(1..NR \ {a, b})} :
              Do(O("gdotn", 1) @@ [a |-> a, b |-> b, c |-> c, be |-> RandomElement({-2, 0, 1, 2}), al |-> RandomElement({-3, 0, 1, 2}), x |-> IF Chance(5) THEN -1 ELSE x])
Gen(k) ==
  CASE k = "new" -> \E i \in {R(0)} : \E sh \in {Shape(i)} : New(R(0), sh)
    [] k = "shaped" -> \E i \in {R(0)} : New(R(0), Rev(reg[i].sh))
    [] k \in {"gdot", "gdot_", "gdoto"} -> Contract(k, FALSE)
    [] k = "gdotw" -> Contract(RS(<<"gdot", "gdot_", "gdoto">>), TRUE)
    [] k = "gdotn" -> ContractN
    [] k = "concat" -> Do(O(k, 1) @@ [ls |-> TLCEval([i \in 1..RandomElement(0..4) |-> L(RandomElement(0..4))])])
    [] k \in {"reverse", "prod"} -> Do(O(k, 1) @@ [l |-> L(RandomElement(0..6))])
    [] k \in {"slice", "prodn"} -> \E l \in {L(RandomElement(0..6))} : Do(O(k, 1) @@ [l |-> l, x |-> RandomElement(0..Len(l)), y |-> RandomElement(0..Len(l))])
    [] k = "num" -> Do(O(k, 1) @@ [x |-> RandomElement(0..7)])
Init == n = 0 /\ ty \in {RandomElement(0..2)} /\ reg = [i \in 1..NR |-> Zero(ty)] /\ last = None
Begin == \E t \in {RandomElement(0..2)} : n' = 1 /\ ty' = t /\ reg' = [i \in 1..NR |-> Zero(t)] /\ last' = [op |-> "begin", ty |-> t]
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ \E j \in 1..2 : \E k \in {RS(Ops)} : Gen(k)
           \/ n' = n + 1 /\ last' = None /\ reg' = reg /\ ty' = ty
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
