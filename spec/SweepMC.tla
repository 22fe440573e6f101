------------------------------- MODULE SweepMC -------------------------------
(* The ground state search as a protocol, for every length and every starting *)
(* center: which pair is updated next, which environments it uses, where the  *)
(* orthogonality center is, and how the run ends.                             *)
(*   tensors  : iso[i] in {"L", "R", "C", "?"}: left isometry, right isometry,*)
(*              center, or nothing known                                      *)
(*   env      : env[i], i in 0..L-1 (edges at -1 and L always valid):         *)
(*              <<side, fresh>>, fresh when no tensor it was built from has   *)
(*              changed since                                                 *)
(* Sites are numbered from 0 as in the library.                               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MinL, MaxL, MaxSweeps
VARIABLES L, start, pc, pos, step, center, iso, env, k, sweep, seen, used
vars == <<L, start, pc, pos, step, center, iso, env, k, sweep, seen, used>>
NStep(n) == IF n = 2 THEN 1 ELSE n - 2
Left(i)  == IF i < 0 THEN <<"l", TRUE>> ELSE env[i]
Right(i) == IF i >= L THEN <<"r", TRUE>> ELSE env[i]
Init ==
  /\ L \in MinL..MaxL /\ start \in 0..(L - 1)
  /\ pc = "env" /\ k = 0 /\ sweep = 0 /\ seen = {} /\ used = {}
  /\ center = start /\ pos = start
  /\ step = IF L = 2 THEN 0 ELSE IF start = 0 THEN 1 ELSE -1
  /\ iso = [i \in 0..(L - 1) |-> IF i < start THEN "L" ELSE IF i > start THEN "R" ELSE "C"]
  /\ env = [i \in 0..(L - 1) |-> <<"?", FALSE>>]
\* environments around the starting position: everything left of it from the left, everything right of it from the right
GenerateEnv == pc = "env" /\ pc' = "shift"
  /\ env' = [i \in 0..(L - 1) |-> IF i < start THEN <<"l", TRUE>> ELSE IF i > start THEN <<"r", TRUE>> ELSE <<"?", FALSE>>]
  /\ UNCHANGED <<L, start, pos, step, center, iso, k, sweep, seen, used>>
\* a pair is named by its left site: the last site belongs to the pair of its left neighbour
Shift == pc = "shift" /\ pc' = "update"
  /\ pos' = (IF pos = L - 1 THEN pos - 1 ELSE pos)
  /\ UNCHANGED <<L, start, step, center, iso, env, k, sweep, seen, used>>
Update == pc = "update" /\ k < 2 * NStep(L)
  /\ LET fwd == step = 1
         f0 == [i \in 0..(L - 1) |-> <<env[i][1], env[i][2] /\ ~(env[i][1] = "l" /\ i >= pos) /\ ~(env[i][1] = "r" /\ i <= pos + 1)>>]
         nx == pos + step
     IN /\ used' = {Left(pos - 1), Right(pos + 2)}
        /\ iso' = [iso EXCEPT ![pos] = IF fwd THEN "L" ELSE "C", ![pos + 1] = IF fwd THEN "C" ELSE "R"]
        /\ center' = (IF fwd THEN pos + 1 ELSE pos)
        /\ env' = (IF fwd THEN [f0 EXCEPT ![pos] = <<"l", Left(pos - 1)[2]>>] ELSE [f0 EXCEPT ![pos + 1] = <<"r", Right(pos + 2)[2]>>])
        /\ seen' = seen \cup {pos}
        /\ pos' = nx
        /\ step' = (IF nx = 0 \/ nx = L - 2 THEN -step ELSE step)
  /\ k' = k + 1
  /\ UNCHANGED <<L, start, pc, sweep>>
EndSweep == pc = "update" /\ k = 2 * NStep(L)
  /\ sweep' = sweep + 1 /\ k' = 0
  /\ pc' \in (IF sweep + 1 = MaxSweeps THEN {"back"} ELSE {"swept", "back"})   \* converged or not
  /\ UNCHANGED <<L, start, pos, step, center, iso, env, seen, used>>
NextSweep == pc = "swept" /\ pc' = "update" /\ seen' = {}
  /\ UNCHANGED <<L, start, pos, step, center, iso, env, k, sweep, used>>
\* the center is carried back, one site at a time, from where it really is
Home == IF start = L - 1 THEN L - 2 ELSE start
Back == pc = "back"
  /\ (IF center = Home THEN pc' = "done" /\ UNCHANGED <<center, iso>>
     ELSE LET n == IF center < Home THEN center + 1 ELSE center - 1 IN
          /\ iso' = [iso EXCEPT ![center] = IF n > center THEN "L" ELSE "R", ![n] = "C"]
          /\ center' = n /\ pc' = "back")
  /\ UNCHANGED <<L, start, pos, step, env, k, sweep, seen, used>>
Done == pc = "done" /\ UNCHANGED vars
Next == GenerateEnv \/ Shift \/ Update \/ EndSweep \/ NextSweep \/ Back \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
InRange == pc = "update" => pos \in 0..(L - 2)
\* each update sees the environments of the tensors as they are
FreshEnvironments == used \subseteq {<<"l", TRUE>>, <<"r", TRUE>>} /\ (used # {} => Cardinality(used) = 2)
\* ... and the state is in mixed canonical form about one of the two sites it updates
CenterTrue == /\ \A i \in 0..(L - 1) : (i < center => iso[i] = "L") /\ (i > center => iso[i] = "R") /\ (i = center => iso[i] = "C")
              /\ (pc = "update" => center \in {pos, pos + 1})
EveryPair == pc \in {"swept", "back", "done"} /\ k = 0 /\ sweep > 0 => seen = 0..(L - 2)
\* a sweep leaves the search where it began, going the other way only at the right edge
Periodic == pc \in {"swept", "back", "done"} => pos = Home
Ends == pc = "done" => center = Home /\ sweep \in 1..MaxSweeps
Terminates == <>(pc = "done")
=============================================================================
