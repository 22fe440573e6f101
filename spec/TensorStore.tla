---------------------------- MODULE TensorStore ----------------------------
(* The store of block tensors: registers 1..NR and one action per public     *)
(* operation.  Outcome(sg, reg, o) is the meaning of call o on store reg.    *)
EXTENDS QTensor

NR == 6
Null == [t |-> "0"]
IsT(x) == x.t # "0"

InPlace == {"add_", "sub_", "adds_", "subs_", "mul_", "muls_", "div_", "divs_", "pow_", "pows_", "abs_", "sqrt_",
            "permute_", "transpose_", "t_", "squeezed_", "squeeze_", "inverse_", "cvshift_", "ncshift_", "shiftsel_",
            "setsel_", "neutralshape_", "put", "putd", "setblock"}

\* a stored block written through the block accessor
SetBlockOut(sg, a, bi, x) ==
  IF Len(bi) # Len(a.d) THEN Ex
  ELSE IF \E i \in 1..Len(bi) : bi[i] < 0 \/ bi[i] >= Len(a.d[i]) THEN Ex
  ELSE IF ~BlockAllowed(sg, a.d, a.s, bi) THEN Ex
  ELSE LET eb == ElemBlocks(a.d)
           bp == BlockPos(a.d)
       IN Ok([a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF eb[k] = bi THEN x[bp[k][2] + 1] ELSE a.v[k]],
                       !.b = MergeBlocks(sg, a.d, ToSet(a.b) \cup {bi})])

Outcome(sg, reg, o) ==
  LET A == reg[o.a]  B == reg[o.b] IN
  CASE o.op = "new"     -> Ok(T(o.d, o.s, o.v, o.w, o.bl, o.t))
    [] o.op = "drop"    -> Ok(Null)
    [] o.op = "copy"    -> Ok(A)
    [] o.op \in {"add", "add_"} -> AddOut(sg, A, B, o.x)
    [] o.op \in {"sub", "sub_"} -> AddOut(sg, A, B, -o.x)
    [] o.op \in {"adds", "adds_"} -> AddScalarOut(sg, A, o.x * o.y)
    [] o.op \in {"subs", "subs_"} -> AddScalarOut(sg, A, -(o.x * o.y))
    [] o.op \in {"mul_", "div_", "pow_"} /\ Len(A.d) < Len(B.d) -> Ex
    [] o.op \in {"mul", "mul_"} -> MulOut(sg, A, B)
    [] o.op \in {"muls", "muls_"} -> MulScalarOut(A, o.x)
    [] o.op \in {"div", "div_"} -> DivOut(sg, A, B)
    [] o.op \in {"divs", "divs_"} -> DivScalarOut(A, o.x)
    [] o.op \in {"pow", "pow_"} -> PowOut(sg, A, B)
    [] o.op \in {"pows", "pows_"} -> PowScalarOut(A, o.x)
    [] o.op \in {"abs", "abs_"} -> AbsOut(A)
    [] o.op \in {"sqrt", "sqrt_"} -> SqrtOut(A)
    [] o.op = "sum"     -> SumOut(sg, A)
    [] o.op \in {"ge", "le", "less", "greater", "eq", "not_equal"} -> CmpOut(sg, o.op, A, B)
    [] o.op = "cmps"    -> CmpScalarOut(o.c, A, o.x)
    [] o.op = "tensordot" -> TensordotOut(sg, A, B, o.p, o.q)
    [] o.op = "bmm"     -> BmmOut(sg, A, B)
    [] o.op \in {"permute", "permute_"} -> PermuteOut(sg, A, o.p)
    [] o.op \in {"transpose", "transpose_"} -> TransposeOut(sg, A, o.x, o.y)
    [] o.op = "reshape" -> ReshapeOut(sg, A, o.p)
    [] o.op = "reshape_as" -> ReshapeAsOut(sg, A, B)
    [] o.op = "reshape_over" -> ReshapeOverOut(sg, A, B)
    [] o.op = "view"    -> ViewOut(sg, A, o.p, o.y = 1)
    [] o.op = "shape_from" -> ShapeFromOut(sg, A, o.p)
    [] o.op = "shape_prod" -> ShapeProdOut(sg, A, B)
    [] o.op = "like"    -> LikeOut(sg, A)
    [] o.op \in {"squeezed", "squeezed_"} -> SqueezeDimOut(sg, A, o.x)
    [] o.op \in {"squeeze", "squeeze_"} -> SqueezeOut(sg, A)
    [] o.op = "put"     -> PutOut(sg, A, o.p, B)
    [] o.op = "putd"    -> PutDenseOut(sg, A, o.p, o.q, o.v)
    [] o.op = "setblock" -> SetBlockOut(sg, A, o.p, o.v)
    [] o.op = "conj"    -> ConjOut(sg, A)
    [] o.op = "conj_only" -> ConjOnlyOut(A)
    [] o.op \in {"inverse", "inverse_"} -> InverseOut(sg, A)
    [] o.op \in {"cvshift", "cvshift_"} -> CvalShiftOut(sg, A, o.q, o.x)
    [] o.op = "ncshift_" -> NcShiftOut(sg, A, o.q, o.x)
    [] o.op = "shiftsel_" -> ShiftSelOut(sg, A, o.q)
    [] o.op = "setsel_" -> SetSelOut(A, o.q)
    [] o.op = "neutralsel" -> SetSelOut(A, QZero(sg))
    [] o.op \in {"neutralshape", "neutralshape_"} -> NeutralShapeOut(sg, A)
    [] o.op = "fromdense" -> FromDenseOut(sg, o.d, o.s, o.p, o.v, o.w, o.x * o.x, o.t)
    [] o.op = "full"    -> FullOut(sg, o.d, o.s, o.x, "d")
    [] o.op = "full_like" -> FullOut(sg, A.d, A.s, o.x, A.t)
    [] o.op = "eye"     -> EyeOut(sg, o.d, QZero(sg), "d")
    [] o.op = "eye_like" -> EyeOut(sg, A.d, A.s, A.t)
    [] o.op = "findrule" -> FindRule(sg, A.d, o.p, o.v, o.x)
    [] o.op = "rdivs"   -> RdivOut(A, o.x)
    [] o.op = "fac"     -> FullOut(sg, o.d, o.s, o.x, "d")        \* the structure; the values are any in o.x..(o.y - 1)
    [] o.op = "anynan"  -> Sc(0)
    [] o.op = "any"     -> AnyNonZero(A)
    [] o.op = "isnan"   -> IsNanOut(A)
    [] o.op \in {"t", "t_"} -> TOut(sg, A)
    [] o.op = "item"    -> ItemOut(A)
    [] o.op = "allclose" -> IF A.t # B.t THEN AnyO ELSE Sc(IF AllClose(A, B) THEN 1 ELSE 0)
    [] o.op = "allclosetol" -> IF A.t # B.t THEN AnyO ELSE Sc(IF AllCloseTol(A, B, o.x, o.y) THEN 1 ELSE 0)
    [] o.op = "crash"   -> Ex
    [] OTHER -> AnyO
=============================================================================
