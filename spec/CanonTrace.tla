----------------------------- MODULE CanonTrace -----------------------------
(* Replays what the library did with its networks against CanonStore: after   *)
(* every call, every network is observed and must stand for what the          *)
(* specification says.                                                        *)
EXTENDS CanonStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg, sg, bad
vars == <<l, reg, sg, bad>>
Init == TLCSet(42, 0) /\ l = 1 /\ sg = <<0>> /\ reg = [i \in 1..NR |-> None] /\ bad = {}
\* observations: e.u lists the networks whose observation changed
Why(e, w) ==
  IF e.st = "crash" THEN "crash"
  ELSE IF w.k = "ex" THEN (IF e.st # "ex" THEN "not refused" ELSE IF e.u # <<>> THEN "refused with effect" ELSE "")
  ELSE IF e.st # "ok" THEN "refused"
  ELSE LET f(i) == Fails(sg, w.reg[e.u[i][1]], e.u[i][2])
           bs == {i \in 1..Len(e.u) : e.u[i][1] \notin bad /\ f(i) # ""} IN
       IF bs # {} THEN LET i == CHOOSE i \in bs : TRUE IN f(i) \o (IF e.u[i][1] \in {e.dst, e.a, e.b} THEN "" ELSE " (another network)")
       \* a change which the log does not show
       ELSE IF \E r \in {e.dst, e.a, e.b} : w.reg[r] # reg[r] /\ (\A i \in 1..Len(e.u) : e.u[i][1] # r)
                 /\ (w.reg[r].oc # reg[r].oc \/ w.reg[r].k # reg[r].k \/ w.reg[r].A # reg[r].A) THEN "no effect" ELSE ""
Report(e, w) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> w, event |-> e]))
Touched(e) == {e.u[i][1] : i \in 1..Len(e.u)}
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ sg' = Trace[l].sg /\ reg' = [i \in 1..NR |-> None] /\ bad' = {} /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET e == Trace[l] IN
           IF e.op # "make" /\ {e.a, e.b} \cap bad # {}         \* nothing is expected of a network that has already failed
           THEN reg' = [reg EXCEPT ![e.dst] = None] /\ bad' = bad \cup {e.dst, e.a, e.b}
           ELSE LET o == Outcome(sg, reg, e)  w == Why(e, o) IN
                /\ IF w = "" THEN TRUE ELSE Report(e, w)
                /\ reg' = o.reg
                /\ bad' = IF w = "" THEN bad \ (IF e.op \in {"make", "copy"} THEN {e.dst} ELSE {}) ELSE bad \cup {e.dst, e.a, e.b} \cup Touched(e)
        /\ l' = l + 1 /\ sg' = sg
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
