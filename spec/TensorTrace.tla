---------------------------- MODULE TensorTrace ----------------------------
(* Trace validation: replays the log of the real library against TensorStore.*)
(* Every line carries the call, its outcome and every register whose content *)
(* changed; the store of the specification is re-synchronised with the log   *)
(* after each line, so that each line is judged on its own.                  *)
EXTENDS TensorStore, Json, IOUtils

CONSTANTS CheckOps,      \* calls whose result is compared with its meaning
          CheckWF,       \* every logged tensor must be well formed
          CheckFrame,    \* nothing but the destination may change
          CheckRefuse    \* calls that must be refused are refused without effect

Elementwise == {"add", "add_", "sub", "sub_", "adds", "adds_", "subs", "subs_", "mul", "mul_", "muls", "muls_", "div", "div_", "divs", "divs_",
   "pow", "pow_", "pows", "pows_", "rdivs", "abs", "abs_", "sqrt", "sqrt_", "sum", "ge", "le", "less", "greater", "eq", "not_equal", "cmps"}
Contraction == {"tensordot", "bmm"}
Layout == {"t", "t_", "permute", "permute_", "transpose", "transpose_", "reshape", "reshape_as", "reshape_over", "view", "squeeze", "squeeze_", "squeezed", "squeezed_",
   "put", "putd"}
ChargeOps == {"conj", "conj_only", "inverse", "inverse_", "cvshift", "cvshift_", "ncshift_", "shiftsel_", "setsel_", "neutralsel", "neutralshape", "neutralshape_",
   "shape_from", "shape_prod", "like"}
Conversion == {"new", "copy", "fromdense", "full", "full_like", "eye", "eye_like", "findrule", "item", "allclose", "allclosetol", "setblock", "fac", "any", "anynan", "isnan"}
AllOps == Elementwise \cup Contraction \cup Layout \cup ChargeOps \cup Conversion
NoOps == {}

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, reg, sg
vars == <<l, reg, sg>>

Init == TLCSet(42, 0) /\ l = 1 /\ reg = [i \in 1..NR |-> Null] /\ sg = <<0>>

Has(e, f) == f \in DOMAIN e
Good(x) == ~IsT(x) \/ (x.ck = 1 /\ ~Has(x, "iv"))   \* consistent, and its elements are integers
Strip(x) == IF IsT(x) THEN T(x.d, x.s, x.v, x.w, x.b, x.t) ELSE x
Applied(e) == [i \in 1..NR |-> IF \E k \in 1..Len(e.u) : e.u[k][1] = i
                               THEN e.u[CHOOSE k \in 1..Len(e.u) : e.u[k][1] = i][2] ELSE reg[i]]

\* operations whose stored-block set is part of the contract
ExactBlocks == {"t", "t_", "rdivs", "isnan", "new", "copy", "setblock", "permute", "permute_", "transpose", "transpose_", "reshape", "reshape_as", "reshape_over",
   "view", "squeeze", "squeeze_", "squeezed", "squeezed_", "conj", "conj_only", "inverse", "inverse_",
   "cvshift", "cvshift_", "fromdense", "full", "full_like", "like", "shape_from", "shape_prod", "eye", "eye_like",
   "ge", "le", "less", "greater", "eq", "not_equal", "cmps", "abs", "sqrt", "adds", "adds_", "subs", "subs_"}

SameResult(e, got, want) ==
  IF ~IsT(want) THEN ~IsT(got)
  ELSE IsT(got) /\ Good(got) /\
       got.d = want.d /\ got.s = want.s /\ got.v = want.v /\ got.w = want.w /\ got.t = want.t
       /\ (e.op \in ExactBlocks => got.b = want.b)

Operands(e) == {reg[e.a], reg[e.b]}
Usable(e) == \A x \in Operands(e) : Good(x)

Expect(e) == IF Usable(e) THEN Outcome(sg, [i \in 1..NR |-> Strip(reg[i])], e) ELSE AnyO

ResultOk(e, nreg) ==
  e.op \notin CheckOps \/
  LET w == Expect(e) IN
  CASE e.op = "fac" -> /\ e.st = "ok" /\ nreg[e.dst].t = "d" /\ Good(nreg[e.dst])
                       /\ nreg[e.dst].d = w.t.d /\ nreg[e.dst].s = w.t.s /\ nreg[e.dst].b = w.t.b
                       /\ LET bs == ToSet(w.t.b)  eb == ElemBlocks(w.t.d)
                          IN \A k \in 1..Len(eb) : IF eb[k] \in bs THEN nreg[e.dst].v[k] \in e.x..(e.y - 1) ELSE nreg[e.dst].v[k] = 0
    [] w.k = "ok"  -> e.st = "ok" /\ SameResult(e, nreg[e.dst], w.t)
    [] w.k = "sc"  -> e.st = "sc" /\ e.r = w.x
    [] w.k = "ex"  -> TRUE
    [] OTHER -> e.st # "crash"
RefuseOk(e) ==
  ~CheckRefuse \/ e.op \in {"begin", "new"} \/
  LET w == Expect(e) IN
  w.k = "ex" => e.st = "ex" /\ e.u = <<>>
FrameOk(e) == ~CheckFrame \/ e.op = "begin" \/
              /\ \A k \in 1..Len(e.u) : e.st = "ok" /\ e.u[k][1] = e.dst
              /\ Has(e, "shared") => e.shared = <<>>     \* an in-place change of the result would change those too
WFOk(e) == ~CheckWF \/ \A k \in 1..Len(e.u) :
               ~IsT(e.u[k][2]) \/ (e.u[k][2].ck = 1 /\ WellFormed(sg, Strip(e.u[k][2])))

\* A line which is not allowed is reported and counted; the store follows the log, so the
\* rest of the trace is still checked.  The trace is accepted when nothing was reported.
Report(e, w) == TLCSet(42, TLCGet(42) + 1) /\ PrintT(ToJson([mismatch |-> l, what |-> w, event |-> e,
                               expected |-> Expect(e), operands |-> <<reg[e.a], reg[e.b]>>]))

Begin == /\ l <= Len(Trace) /\ Trace[l].op = "begin"
         /\ sg' = Trace[l].sg
         /\ reg' = [i \in 1..NR |-> Null]
         /\ l' = l + 1
Step  == /\ l <= Len(Trace) /\ Trace[l].op # "begin"
         /\ LET e == Trace[l] IN
            LET n == Applied(e) IN
            /\ IF ~ResultOk(e, n) THEN Report(e, "result")
               ELSE IF ~RefuseOk(e) THEN Report(e, "refusal")
               ELSE IF ~FrameOk(e) THEN Report(e, "frame")
               ELSE IF ~WFOk(e) THEN Report(e, "wellformed") ELSE TRUE
            /\ reg' = n
         /\ l' = l + 1 /\ UNCHANGED sg
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(42) = 0
=============================================================================
