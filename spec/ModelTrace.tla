----------------------------- MODULE ModelTrace -----------------------------
(* Judges what the library built against ModelStore, call by call.            *)
EXTENDS ModelStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sg
vars == <<l, sg>>
Init == TLCSet(42, 0) /\ l = 1 /\ sg = <<0>>
Why(e) == IF e.st = "crash" THEN "crash"
          ELSE IF Refused(sg, e) THEN (IF e.st = "ex" THEN "" ELSE "not refused")
          ELSE IF e.st # "ok" THEN "refused" ELSE Fails(sg, e, e.out)
Report(e, w) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> w, event |-> e]))
Begin == l <= Len(Trace) /\ Trace[l].op = "begin" /\ sg' = Trace[l].sg /\ l' = l + 1
Step == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE Report(Trace[l], w)
        /\ l' = l + 1 /\ sg' = sg
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
