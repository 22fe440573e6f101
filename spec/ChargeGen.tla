------------------------------ MODULE ChargeGen ------------------------------
EXTENDS ChargeStore, Json
VARIABLES reg, n, last
vars == <<reg, n, last>>
None == <<>>
RS(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
Rnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kinds == <<<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<100>>, <<32767>>, <<32768>>, <<60001>>,
           <<0, 0>>, <<2, 0>>, <<0, 2>>, <<3, 0>>, <<2, 3>>, <<4, 6>>, <<0, 0, 2>>, <<0, 0, 3>>, <<2, 0, 5>>, <<0, 60001>>, <<2, 2>>>>
Min2x(a, b) == IF a < b THEN a ELSE b
\* a representative that fits the 16 bit argument of the constructors
Rep(m) == IF m = 0 THEN (IF Chance(90) THEN RandomElement(-6..6) ELSE RandomElement(-16000..16000))
          ELSE RS(<<RandomElement(0..Min2x(m - 1, 32767)), RandomElement(-(Min2x(3 * m, 32767))..Min2x(3 * m, 32767)),
                    RandomElement(-4..4), -(Min2x(m, 32767)), Min2x(2 * m, 32766), -(Min2x(2 * m, 32766)), -32768, 32767, RandomElement(-32768..32767)>>)
Reps(g) == TLCEval([i \in 1..Len(g) |-> Rep(g[i])])
O(op, dst, a, b) == [op |-> op, dst |-> dst, a |-> a, b |-> b, m |-> RandomElement(0..7)]
R(u) == RandomElement(1..NR)
Do(oo) == \E o \in {oo} : LET out == Outcome(reg, o) IN
   /\ \A i \in 1..NR : InRange(out.reg[i])
   /\ last' = o /\ reg' = out.reg /\ n' = n + 1
\* operands mostly of the same type
Partner(a) == IF Chance(88) THEN RandomElement({i \in 1..NR : reg[i].g = reg[a].g}) ELSE R(0)
Ops == <<"make", "make", "make", "like", "like", "like", "copy", "copy", "mul", "mul", "mul", "mul", "mul_", "mul_", "mul_", "opif", "inv", "inv_", "neutral",
         "swap", "swapref", "setref", "rel", "rel", "rel", "same", "vec", "pair", "pair", "pair", "pair", "grp", "grp", "trivial">>
Gen(k) ==
  CASE k = "make" -> \E g \in {RS(Kinds)} : \E r \in {Reps(g)} : Do(O("make", R(0), 1, 1) @@ [g |-> g, r |-> r])
    [] k = "like" -> \E a \in {R(0)} : \E r \in {Reps(reg[a].g)} : Do(O("make", R(0), 1, 1) @@ [g |-> reg[a].g, r |-> r])
    [] k \in {"copy", "inv", "neutral", "trivial"} -> Do(O(k, R(0), R(0), 1))
    [] k \in {"mul", "mul_", "swap", "swapref", "setref", "rel", "same"} -> \E a \in {R(0)} : \E b \in {Partner(a)} : Do(O(k, R(0), a, b))
    [] k = "opif" -> \E a \in {R(0)} : \E b \in {Partner(a)} : Do(O(k, R(0), a, b) @@ [x |-> RandomElement(0..1)])
    [] k = "inv_" -> Do(O(k, R(0), R(0), 1))
    [] k = "vec" -> Do(O(k, R(0), R(0), 1) @@ [x |-> RandomElement(0..4)])
    [] k \in {"pair", "grp"} -> \E g \in {RS(Kinds)} : \E p \in {Reps(g)} : \E q \in {Reps(g)} :
          /\ \A i \in 1..Len(g) : g[i] # 0 \/ (p[i] + q[i] \in (-Lim)..Lim /\ 2 * p[i] \in (-Lim)..Lim)
          /\ Do(O(k, R(0), 1, 1) @@ [g |-> g, p |-> p, q |-> q])
Init == n = 0 /\ reg = [i \in 1..NR |-> Trivial] /\ last = None
Begin == n' = 1 /\ reg' = reg /\ last' = [op |-> "begin", dst |-> 1, a |-> 1, b |-> 1]
Step == /\ IF last = None THEN TRUE ELSE PrintT(ToJson(last))
        /\ \/ \E j \in 1..2 : \E k \in {RS(Ops)} : Gen(k)
           \/ n' = n + 1 /\ last' = None /\ reg' = reg
Next == IF n = 0 THEN Begin ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
