------------------------------ MODULE NetTrace ------------------------------
(* Replays what the library did with its networks against NetStore; the store *)
(* follows the log, so that every line is judged on its own.                  *)
EXTENDS NetStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg, sg, pl
vars == <<l, reg, sg, pl>>
Init == TLCSet(42, 0) /\ l = 1 /\ sg = <<0>> /\ pl = 0 /\ reg = [i \in 1..NR |-> Null]
Site(g) == T(g.d, g.s, g.v, g.w, g.b, g.t)
Read(g) == IF g.k = "0" THEN Null ELSE Net(g.k, [i \in 1..Len(g.ts) |-> Site(g.ts[i])], g.oc)
Seen(e, i) == IF \E k \in 1..Len(e.u) : e.u[k][1] = i THEN e.u[CHOOSE k \in 1..Len(e.u) : e.u[k][1] = i][2] ELSE <<>>
\* a plain tensor has all its blocks
Plain(x) == IF x.k = "0" THEN x ELSE [x EXCEPT !.ts = [i \in 1..Len(x.ts) |-> [x.ts[i] EXCEPT !.b = << [j \in 1..Len(x.ts[i].d) |-> 0] >>]]]
Adj(x) == IF pl = 1 THEN Plain(x) ELSE x
Bare(x) == IF x.k = "0" THEN x ELSE [x EXCEPT !.ts = [i \in 1..Len(x.ts) |-> [x.ts[i] EXCEPT !.b = <<>>, !.t = ""]]]
Same(x, y, loose) == IF loose THEN Bare(x) = Bare(y) ELSE x = y
Why(e, w) ==
  IF e.st = "crash" THEN "crash"
  ELSE IF w.k = "ex" THEN (IF e.st # "ex" THEN "not refused" ELSE IF e.u # <<>> THEN "refused with effect" ELSE "")
  ELSE IF e.st # "ok" THEN "refused"
  ELSE IF w.k = "sc" THEN (IF e.u # <<>> THEN "operand changed" ELSE IF e.r # w.r \/ ("iv" \in DOMAIN e /\ e.iv # 1) THEN "value" ELSE "")
  ELSE LET d(i) == LET s == Seen(e, i) IN
                   IF s = <<>> THEN (IF Same(Adj(w.reg[i]), reg[i], e.op \in Computed) THEN "" ELSE "no effect")
                   ELSE Differs(Adj(w.reg[i]), s, e.op \in Computed)
           bs == {i \in 1..NR : d(i) # ""} IN
       IF bs = {} THEN "" ELSE LET i == CHOOSE i \in bs : TRUE IN d(i) \o (IF i \in {e.dst, e.a, e.b} THEN "" ELSE " (another network)")
Report(e, w, o) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> w, event |-> e, expected |-> IF o.k = "sc" THEN o.r ELSE o.reg[e.dst]]))
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ sg' = Trace[l].sg /\ pl' = Trace[l].pl /\ reg' = [i \in 1..NR |-> Null] /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET e == Trace[l]  o == Outcome(sg, reg, e)  w == Why(e, o) IN
           /\ IF w = "" THEN TRUE ELSE Report(e, w, o)
           /\ reg' = [i \in 1..NR |-> LET s == Seen(e, i) IN IF s = <<>> THEN reg[i] ELSE Read(s)]
        /\ l' = l + 1 /\ UNCHANGED <<sg, pl>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
