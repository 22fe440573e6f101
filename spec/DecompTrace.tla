---------------------------- MODULE DecompTrace -----------------------------
EXTENDS DecompStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg, sg
vars == <<l, reg, sg>>
Init == TLCSet(42, 0) /\ l = 1 /\ sg = <<0>> /\ reg = [i \in 1..NR |-> Zero(<<0>>)]
Same(x, y) == x.d = y.d /\ x.s = y.s /\ x.v = y.v /\ x.w = y.w /\ x.b = y.b
Why(e, after) ==
  IF e.st = "crash" THEN "crash"
  ELSE LET f == Fails(sg, reg, e) IN IF f # "" THEN f
  ELSE IF \E k \in 1..Len(e.u) : ~Same(e.u[k][2], after[e.u[k][1]]) THEN "operand changed" ELSE ""
Report(e, w) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> w, event |-> e]))
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ sg' = Trace[l].sg /\ reg' = [i \in 1..NR |-> Zero(Trace[l].sg)] /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET e == Trace[l]  a == After(reg, e)  w == Why(e, a) IN
           /\ IF w = "" THEN TRUE ELSE Report(e, w)
           /\ reg' = a
        /\ l' = l + 1 /\ sg' = sg
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
