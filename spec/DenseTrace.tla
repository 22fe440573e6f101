----------------------------- MODULE DenseTrace -----------------------------
EXTENDS DenseStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Init == TLCSet(42, 0) /\ l = 1 /\ reg = [i \in 1..NR |-> Zero(0)]
Changed(e, i) == {k \in 1..Len(e.u) : e.u[k][1] = i}
Content(e, i) == IF Changed(e, i) = {} THEN reg[i] ELSE LET x == e.u[CHOOSE k \in Changed(e, i) : TRUE][2] IN D(x.sh, x.v, x.w)
Allowed(e) ==
  LET w == Outcome(reg, e) IN
  /\ e.st = w.k
  /\ \A i \in 1..NR : Content(e, i) = w.reg[i]
  /\ w.k = "ok" => e.res = w.r
Report(e) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> "result", event |-> e, expected |-> Outcome(reg, e)]))
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ reg' = [i \in 1..NR |-> Zero(Trace[l].ty)] /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET e == Trace[l]  w == Outcome(reg, e) IN
           /\ IF Allowed(e) THEN TRUE ELSE Report(e)
           /\ reg' = w.reg
        /\ l' = l + 1
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
