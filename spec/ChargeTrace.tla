----------------------------- MODULE ChargeTrace -----------------------------
EXTENDS ChargeStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Init == TLCSet(42, 0) /\ l = 1 /\ reg = [i \in 1..NR |-> Trivial]
Applied(e) == [i \in 1..NR |-> IF \E k \in 1..Len(e.u) : e.u[k][1] = i
                               THEN e.u[CHOOSE k \in 1..Len(e.u) : e.u[k][1] = i][2] ELSE reg[i]]
Same(x, y) == x.g = y.g /\ x.q = y.q
Good(c) == QIsCanon(c.g, c.q)
Allowed(e, n) ==
  LET w == Outcome(reg, e) IN
  /\ e.st = w.k
  /\ \A i \in 1..NR : Good(n[i]) /\ Same(n[i], w.reg[i])
  /\ (w.k = "ok" /\ e.op \in {"rel", "same", "vec", "pair", "grp"}) => e.r = w.r
Report(e) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> "result", event |-> e, expected |-> Outcome(reg, e)]))
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ reg' = [i \in 1..NR |-> Trivial] /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET e == Trace[l]  n == Applied(e) IN
           /\ IF \A i \in 1..NR : Good(reg[i]) THEN (IF Allowed(e, n) THEN TRUE ELSE Report(e)) ELSE TRUE
           /\ reg' = n
        /\ l' = l + 1
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
