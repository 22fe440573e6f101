-------------------------------- MODULE MapMC --------------------------------
(* All maps over a small domain and all operations: the sequence semantics of *)
(* MapStore agrees with finite functions.                                     *)
EXTENDS MapStore
CONSTANTS NK, NV
VARIABLES A, B, o
vars == <<A, B, o>>
KS == 1..NK
VS == 0..NV
Fun(m) == [k \in Keys(m) |-> At(m, k)]
Override(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Only(f, S) == [j \in S |-> f[j]]
\* incoming pairs applied in any order of distinct keys: value by key
Incoming(m, g, c, n) == [j \in DOMAIN m \cup DOMAIN g |->
   IF j \in DOMAIN m /\ j \in DOMAIN g THEN Combine(c, m[j], g[j]) ELSE IF j \in DOMAIN m THEN m[j] ELSE Fresh(n, g[j])]
Ops == [op : {"ins", "emp", "tem", "ioa", "idxset"}, k : KS, v : VS] \cup [op : {"idx", "look", "erasek"}, k : KS]
   \cup [op : {"merge"}, c : {"keep", "add", "take"}, n : {"id", "neg"}, rv : {0, 1}]
   \cup [op : {"eraser", "insm"}, x : 0..NK, y : 0..NK, c : {"add"}, n : {"neg"}] \cup [op : {"swap", "eq", "clear"}]
Enabled(a, b, q) == (q.op = "eraser" => q.x <= q.y /\ q.y <= Len(a)) /\ (q.op = "insm" => q.x <= q.y /\ q.y <= Len(b))
Full(q) == q @@ [a |-> 1, b |-> 2, dst |-> 3, m |-> 0]
Out(a, b, q) == Outcome(<<a, b, <<>>>>, Full(q))
Init == A = <<>> /\ B = <<>> /\ o = [op |-> "none"]
Small(m) == \A i \in 1..Len(m) : m[i][2] \in VS
Next == \E q \in Ops : Enabled(A, B, q) /\
          LET w == Out(A, B, q) IN Small(w.reg[1]) /\ A' = w.reg[1] /\ B' = w.reg[2] /\ o' = [op |-> q.op]
Spec == Init /\ [][Next]_vars
View == <<A, B>>
Sorted == Increasing(A) /\ Increasing(B)
\* every enabled operation in every reachable state agrees with the function semantics
Agrees == \A q \in Ops : Enabled(A, B, q) =>
  LET w == Out(A, B, q)  f == Fun(A)  g == Fun(B)  r == w.reg  h == Fun(r[1]) IN
  /\ Increasing(r[1]) /\ Increasing(r[2])
  /\ q.op \in {"ins", "emp", "tem"} => h = (IF q.k \in DOMAIN f THEN f ELSE Override(f, q.k, q.v)) /\ r[1][w.r[1] + 1][1] = q.k /\ w.r[2] = B01(q.k \notin DOMAIN f)
  /\ q.op = "ioa" => h = Override(f, q.k, q.v) /\ r[1][w.r[1] + 1] = <<q.k, q.v>> /\ w.r[2] = B01(q.k \notin DOMAIN f)
  /\ q.op = "idxset" => h = Override(f, q.k, q.v)
  /\ q.op = "idx" => h = (IF q.k \in DOMAIN f THEN f ELSE Override(f, q.k, 0)) /\ w.r = <<h[q.k]>>
  /\ q.op = "erasek" => h = Only(f, DOMAIN f \ {q.k}) /\ w.r = <<Cardinality(DOMAIN f) - Cardinality(DOMAIN h)>>
  /\ q.op = "eraser" => h = Only(f, {j \in DOMAIN f : Below(A, j) < q.x \/ Below(A, j) >= q.y})
  /\ q.op = "merge" => h = Incoming(f, g, q.c, q.n) /\ w.r[1] = Cardinality(DOMAIN f \cap DOMAIN g) /\ w.r[2] = Cardinality(DOMAIN g \ DOMAIN f)
  /\ q.op = "insm" => h = Incoming(f, Only(g, {j \in DOMAIN g : Below(B, j) >= q.x /\ Below(B, j) < q.y}), q.c, q.n)
  /\ q.op = "swap" => r[1] = B /\ r[2] = A
  /\ q.op = "eq" => w.r[1] = B01(f = g)
  /\ q.op = "look" => /\ (w.r[1] < Len(A)) = (q.k \in DOMAIN f) /\ (w.r[1] < Len(A) => A[w.r[1] + 1][1] = q.k)
                      /\ \A i \in 1..Len(A) : (A[i][1] < q.k) = (i <= w.r[4]) /\ (A[i][1] <= q.k) = (i <= w.r[5])
                      /\ w.r[2] = w.r[6] /\ w.r[2] = w.r[3]
=============================================================================
