----------------------------- MODULE SolveTrace ------------------------------
(* Executions recorded from the real solvers, checked against SolveLoop:    *)
(* every recorded execution must be a behaviour of the specification, end   *)
(* as it ends, and report what an independent evaluation of the constraints *)
(* found at the configuration returned.                                     *)
EXTENDS SolveLoop, Json

CONSTANT File
Traces == ndJsonDeserialize(File)
VARIABLES t, i
tvars == <<lvars, t, i>>
T == Traces[t]
In(x, s) == \E k \in 1..Len(s) : s[k] = x

\* which part of the planned step each line search may take, in thousandths
Ratio(ls, r, prev) ==
  CASE ls = "constant" -> r = 1000
    [] ls = "fixed" -> r >= 199 /\ r <= 951 /\ r >= prev
    [] ls = "backtracking" -> r >= 199 /\ r <= 1000
    [] OTHER -> r >= 199 /\ r <= 1001
TInit == /\ t \in 1..Len(Traces) /\ i = 0
         /\ \E x \in 0..3 : In(x, Traces[t].c0) /\ Begin(Traces[t].kind, Traces[t].maxIt, Traces[t].dim0, x)
Consume == /\ i < Len(T.steps) /\ i' = i + 1 /\ t' = t
           /\ LET s == T.steps[i + 1] prev == IF i = 0 THEN 0 ELSE T.steps[i].ratio IN
              /\ (kind = "O" \/ Ratio(T.ls, s.ratio, prev))
              /\ \E x \in 0..2, d \in BOOLEAN : In(x, s.c) /\ (s.dec = "any" \/ (s.dec = "yes") = d) /\ Step(x, d)
\* the state at which the execution ended, judged at the configuration returned
Facts(e) == /\ In(e, T.end) /\ (e # 3 /\ T.undef = "no" => T.expl) /\ T.untouched /\ T.bounded
            /\ (T.worse => ~((kind # "O" /\ c0 <= 1) \/ (kind = "O" /\ c0 = 0)))
            /\ (n = 0 /\ T.undef = "no" => ~T.moved)
            /\ (e <= 1 /\ T.expl => T.verdict # "no") /\ (e >= 2 => T.verdict # "yes") /\ (st' = "SUCCESS" => T.expl)
Tiny == T.tiny # "no"
Return == /\ i = Len(T.steps) /\ UNCHANGED <<t, i>>
          /\ CASE T.undef = "start" -> Undefined
               [] T.undef = "step" -> Leave
               [] OTHER -> Infeasible \/ Settled \/ Finish \/ Budget \/ (Tiny /\ Stuck)
          /\ st' = T.st /\ Facts(ce')
TNext == Consume \/ Return
TSpec == TInit /\ [][TNext]_tvars
\* printed once per accepted execution
Report == pc = "done" => PrintT(ToJson([accepted |-> T.id]))
==============================================================================
