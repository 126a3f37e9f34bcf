------------------------------ MODULE SolveLoop ------------------------------
(* The iteration of the solvers, abstracting configurations by what decides *)
(* the control flow: the class of the error of the required levels,         *)
(*   0: at most a quarter of the squared threshold, 1: below it, 2: above,  *)
(*   3: an explicit function is not defined,                                *)
(* and whether a step decreased the error.                                  *)
(* kind  "S" substitution, "H" without substitution, "O" optimisation of    *)
(*       the optional last level.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxIts
VARIABLES kind, maxIt, dim0, c0, it, n, ed, c, nodec, seen0, st, ce, pc
lvars == <<kind, maxIt, dim0, c0, it, n, ed, c, nodec, seen0, st, ce, pc>>

Kinds == {"S", "H", "O"}
Max2(a, b) == IF a > b THEN a ELSE b
Enough == IF kind = "H" THEN c <= 1 ELSE c = 0

Begin(k, m, d, x) ==
  /\ kind = k /\ maxIt = m /\ dim0 = d /\ c0 = x /\ c = x
  /\ it = (IF k = "S" /\ x <= 1 THEN Max2(m, 2) - 2 ELSE 0)
  /\ n = 0 /\ ed = 3 /\ nodec = 0 /\ seen0 = (x = 0) /\ st = "none" /\ ce = 9 /\ pc = "loop"

End(s, e) == /\ st' = s /\ ce' = e /\ pc' = "done" /\ UNCHANGED <<kind, maxIt, dim0, c0, it, n, ed, c, nodec, seen0>>
\* the substitution solver accepts a start below the threshold whatever follows, and keeps the better configuration
Close(s) == IF kind = "S" /\ c0 <= 1 THEN \E e \in {0, 1} : e <= c0 /\ (e = c \/ e = c0) /\ End("SUCCESS", e)
            ELSE IF kind = "O" /\ seen0 THEN End(s, 0) ELSE End(s, c)
NoFreedom == kind # "H" /\ c0 # 0 /\ dim0
Settled == pc = "loop" /\ NoFreedom /\ c0 = 1 /\ End("SUCCESS", 1)
Running == pc = "loop" /\ ~NoFreedom /\ c0 # 3
Goes == IF kind = "O" THEN TRUE ELSE ~Enough /\ ed > 0

Infeasible == pc = "loop" /\ ((NoFreedom /\ c0 = 2) \/ (kind = "H" /\ c = 2 /\ dim0)) /\ End("INFEASIBLE", c)
\* an explicit function is not defined at the start, or after a step (or somewhere along it)
Undefined == pc = "loop" /\ c0 = 3 /\ End("INFEASIBLE", 3)
Leave == /\ Running /\ Goes /\ kind # "H" /\ it < maxIt
         /\ IF kind = "S" /\ c0 <= 1 THEN End("SUCCESS", c0) ELSE IF kind = "O" /\ seen0 THEN End("INFEASIBLE", 0) ELSE \E e \in {3, c} : End("INFEASIBLE", e)
Finish == Running /\ ~Goes /\ Close(IF Enough THEN "SUCCESS" ELSE IF kind = "H" /\ it >= maxIt THEN "MAX" ELSE "ERROR")
Budget == Running /\ Goes /\ ~(kind = "H" /\ dim0) /\ it >= maxIt /\ Close("MAX")
Stuck == Running /\ Goes /\ ~(kind = "H" /\ dim0) /\ it < maxIt /\ Close("INFEASIBLE")
Step(x, dec) ==
  /\ Running /\ Goes /\ ~(kind = "H" /\ dim0) /\ it < maxIt
  /\ (x < c => dec) /\ (x > c => ~dec)
  /\ LET d == dec \/ (kind = "H" /\ n = 0) IN
     /\ ed' = (IF d THEN 3 ELSE ed - 1) /\ nodec' = (IF d THEN 0 ELSE nodec + 1)
  \* optimisation: a step that leaves the constraints is undone when a good configuration is known
  /\ c' = (IF kind = "O" /\ x # 0 /\ seen0 THEN 0 ELSE x) /\ seen0' = (seen0 \/ x = 0)
  /\ it' = it + 1 /\ n' = n + 1
  /\ UNCHANGED <<kind, maxIt, dim0, c0, st, ce, pc>>

Init == \E k \in Kinds, m \in MaxIts, d \in BOOLEAN, x \in 0..3 : (k = "H" => x # 3) /\ Begin(k, m, d, x)
Next == Infeasible \/ Settled \/ Undefined \/ Leave \/ Finish \/ Budget \/ Stuck \/ \E x \in 0..2, dec \in BOOLEAN : Step(x, dec)
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Next)

(* ---------------------------------------------------------- properties *)
Done == pc = "done"
SuccessIsSatisfying == Done /\ st = "SUCCESS" => ce <= 1
WithinBudget == n <= maxIt
AcceptedAsIs == Done /\ kind # "O" /\ c0 = 0 => st = "SUCCESS" /\ n = 0 /\ ce = 0
AcceptedStart == Done /\ kind # "O" /\ c0 <= 1 => st = "SUCCESS" /\ ce <= 1
NotMadeWorse == Done /\ kind = "S" /\ c0 <= 1 => ce <= c0
MaxMeansBudget == Done /\ st = "MAX" /\ kind # "O" => n = maxIt
ErrorMeansThree == Done /\ st = "ERROR" => nodec >= 3
OptimumKept == Done /\ kind = "O" /\ seen0 => ce = 0
FailureIsHonest == Done /\ st # "SUCCESS" /\ kind # "O" => ce >= 2 \/ (kind = "S" /\ ce >= 1)
Terminates == <>Done
NextX == Next \/ (Done /\ UNCHANGED lvars)
SpecX == Init /\ [][NextX]_lvars /\ WF_lvars(Next)
==============================================================================
