------------------------------ MODULE ListStore ------------------------------
(* A store of homogeneous lists of charges.  A list is [g: signature,        *)
(* l: sequence of canonical charges]; g = <<>> for a list without a type.    *)
EXTENDS Charges, FiniteSets, SequencesExt, TLC
NR == 4
NoType == <<>>
NullL == [g |-> NoType, l |-> <<>>]
L(g, l) == [g |-> g, l |-> l]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ListInsert(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))       \* before position p (from 0)
EraseAt(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))             \* positions i..j-1
Fill(n, q) == [i \in 1..n |-> q]

Set1(reg, i, v) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = v], r |-> <<>>]
Set1R(reg, i, v, r) == [k |-> "ok", reg |-> [reg EXCEPT ![i] = v], r |-> r]
Val(reg, r) == [k |-> "ok", reg |-> reg, r |-> r]
Refused(reg) == [k |-> "ex", reg |-> reg, r |-> <<>>]
B01(p) == IF p THEN 1 ELSE 0

RunStart(q, k) == FoldLeft(LAMBDA a, c : a + c, 0, SubSeq(q, 1, k))
\* the runs of lengths q, in the order given by p
PermRuns(l, p, q) == FoldLeft(LAMBDA acc, k : acc \o SubSeq(l, RunStart(q, k) + 1, RunStart(q, k + 1)), <<>>, p)

Outcome(reg, o) ==
  LET A == reg[o.a]  B == reg[o.b]
      typed == A.g # NoType
      fits == typed /\ A.g = o.g
      q == QNorm(o.g, o.r)
  IN
  CASE o.op = "null"  -> Set1(reg, o.dst, NullL)
    [] o.op = "make"  -> Set1(reg, o.dst, L(o.g, Fill(o.x, q)))
    [] o.op = "list"  -> Set1(reg, o.dst, L(o.g, [i \in 1..Len(o.rs) |-> QNorm(o.g, o.rs[i])]))
    [] o.op = "mixed" -> IF o.rs = <<>> THEN Set1(reg, o.dst, NullL)
                         ELSE IF \E i \in 1..Len(o.rs) : o.rs[i][1] # o.rs[1][1] THEN Refused(reg)
                         ELSE Set1(reg, o.dst, L(o.rs[1][1], [i \in 1..Len(o.rs) |-> QNorm(o.rs[i][1], o.rs[i][2])]))
    [] o.op = "copy"  -> Set1(reg, o.dst, A)
    [] o.op = "move"  -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = NullL, ![o.dst] = A], r |-> <<>>]
    [] o.op = "push"  -> IF ~typed THEN Set1(reg, o.a, L(o.g, <<q>>))
                         ELSE IF fits THEN Set1(reg, o.a, L(A.g, Append(A.l, q))) ELSE Refused(reg)
    [] o.op = "pushself" -> IF A.l = <<>> THEN Val(reg, <<>>)
                            ELSE Set1(reg, o.a, L(A.g, Append(A.l, A.l[(o.x % Len(A.l)) + 1])))
    [] o.op = "pop"   -> IF ~typed THEN Refused(reg) ELSE Set1(reg, o.a, L(A.g, SubSeq(A.l, 1, Len(A.l) - 1)))
    [] o.op = "ins"   -> IF fits THEN Set1R(reg, o.a, L(A.g, ListInsert(A.l, o.x, <<q>>)), o.x) ELSE Refused(reg)
    [] o.op = "insself" -> Set1R(reg, o.a, L(A.g, ListInsert(A.l, o.x, <<A.l[o.y + 1]>>)), o.x)
    [] o.op = "insn"  -> IF fits THEN Set1R(reg, o.a, L(A.g, ListInsert(A.l, o.x, Fill(o.y, q))), o.x) ELSE Refused(reg)
    [] o.op = "insr"  -> IF ~typed \/ A.g # B.g THEN Refused(reg)
                         ELSE Set1R(reg, o.a, L(A.g, ListInsert(A.l, o.x, SubSeq(B.l, o.y + 1, o.z))), o.x)
    [] o.op = "insrr" -> IF ~typed \/ A.g # B.g THEN Refused(reg)
                         ELSE Set1R(reg, o.a, L(A.g, ListInsert(A.l, o.x, SubSeq(Rev(B.l), o.y + 1, o.z))), o.x)
    [] o.op = "erase" -> Set1R(reg, o.a, L(A.g, EraseAt(A.l, o.x, o.x + 1)), o.x)
    [] o.op = "eraser" -> Set1R(reg, o.a, L(A.g, EraseAt(A.l, o.x, o.y)), o.x)
    [] o.op = "clear" -> Set1(reg, o.a, L(A.g, <<>>))
    [] o.op = "resize" -> IF ~typed THEN Refused(reg)
                          ELSE Set1(reg, o.a, L(A.g, [i \in 1..o.x |-> IF i <= Len(A.l) THEN A.l[i] ELSE QZero(A.g)]))
    [] o.op = "resizev" -> IF ~typed THEN Set1(reg, o.a, L(o.g, Fill(o.x, q)))
                           ELSE IF ~fits THEN Refused(reg)
                           ELSE Set1(reg, o.a, L(A.g, [i \in 1..o.x |-> IF i <= Len(A.l) THEN A.l[i] ELSE q]))
    [] o.op = "reserve" -> Val(reg, <<>>)
    [] o.op = "swap"  -> [k |-> "ok", reg |-> [reg EXCEPT ![o.a] = B, ![o.b] = A], r |-> <<>>]
    [] o.op = "set"   -> IF o.x >= Len(A.l) THEN Refused(reg)
                         ELSE IF fits THEN Set1(reg, o.a, L(A.g, [A.l EXCEPT ![o.x + 1] = q])) ELSE Refused(reg)
    [] o.op = "mulat" -> IF A.g = B.g THEN Set1(reg, o.a, L(A.g, [A.l EXCEPT ![o.x + 1] = QAdd(A.g, A.l[o.x + 1], B.l[o.y + 1])]))
                         ELSE Refused(reg)
    [] o.op = "invat" -> Set1(reg, o.a, L(A.g, [A.l EXCEPT ![o.x + 1] = QNeg(A.g, A.l[o.x + 1])]))
    [] o.op = "at"    -> IF o.x >= Len(A.l) THEN Refused(reg) ELSE Val(reg, A.l[o.x + 1])
    [] o.op = "eq"    -> IF A.g = NoType \/ B.g = NoType
                         THEN Val(reg, <<B01(A.l = <<>> /\ B.l = <<>>), B01(~(A.l = <<>> /\ B.l = <<>>))>>)
                         ELSE IF A.g # B.g THEN Refused(reg)
                         ELSE Val(reg, <<B01(A.l = B.l), B01(A.l # B.l)>>)
    [] o.op = "perm"  -> Set1(reg, o.dst, L(A.g, PermRuns(A.l, o.p, o.q)))
=============================================================================
