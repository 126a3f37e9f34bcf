------------------------------- MODULE Space -------------------------------
(* Configuration spaces as products of one-dimensional variables, polynomial *)
(* functions on them, and resolution of explicit constraints: operators      *)
(* shared by the specifications of the constraint sets and of the solvers.   *)
(*                                                                          *)
(* "R" is a real (an integer here), "C" a point of the circle (a number of  *)
(* quarter turns, 2 configuration entries), "S" a filler (SO(3), 4          *)
(* configuration entries, 3 velocities) that shifts the indices.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANT Types

\* in exhaustive mode a test compares its last step only: the steps before it were compared by other tests
Strip(mode, rec) == IF mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec
Abs(x) == IF x < 0 THEN -x ELSE x
NV == Len(Types)
Vars == 1..NV
Act == {v \in Vars : Types[v] # "S"}
QS(t) == IF t = "R" THEN 1 ELSE IF t = "C" THEN 2 ELSE 4
VS(t) == IF t = "S" THEN 3 ELSE 1
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + Sum(f, a + 1, b)
QOff(v) == Sum(LAMBDA k : QS(Types[k]), 1, v - 1)
VOff(v) == Sum(LAMBDA k : VS(Types[k]), 1, v - 1)
NQtot == QOff(NV + 1)
NVtot == VOff(NV + 1)
QIdx(v) == {QOff(v) + k : k \in 0..QS(Types[v])-1}
VIdx(v) == {VOff(v) + k : k \in 0..VS(Types[v])-1}
QIdxs(X) == SetToSortSeq(UNION {QIdx(v) : v \in X}, <)
VIdxs(X) == SetToSortSeq(UNION {VIdx(v) : v \in X}, <)

(* constraints *)
Outs(c) == {v \in Vars : c.lo <= v /\ v <= c.hi}
OutDim(c) == c.hi - c.lo + 1
Ins(c) == Range(c.ins)
\* what the polynomial sees of a variable: the value of a real, 2 cos + sin of an angle
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 0 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 0 -> 0 [] k % 4 = 1 -> 1 [] k % 4 = 2 -> 0 [] OTHER -> -1
G(v, x) == IF Types[v] = "R" THEN x ELSE 2 * Cos(x) + Sin(x)
DG(v, x) == IF Types[v] = "R" THEN 1 ELSE Cos(x) - 2 * Sin(x)
Norm(v, x) == IF Types[v] = "C" THEN x % 4 ELSE x
\* k-th output, before the right-hand side
Poly(c, k, q) == LET g == [j \in 1..Len(c.ins) |-> G(c.ins[j], q[c.ins[j]])] IN
   c.b[k] + Sum(LAMBDA j : c.A[k][j] * g[j], 1, Len(c.ins))
          + (IF c.ins = <<>> THEN 0 ELSE c.c[k] * g[1] * g[1])
\* derivative of the k-th output with respect to input j
DPoly(c, k, j, q) == LET v == c.ins[j] IN
   (c.A[k][j] + (IF j = 1 THEN 2 * c.c[k] * G(v, q[v]) ELSE 0)) * DG(v, q[v])

Owner(set, v) == {i \in 1..Len(set) : v \in Outs(set[i])}
OutVars(set) == UNION {Outs(set[i]) : i \in 1..Len(set)}
\* variables that v transitively depends on
RECURSIVE Anc(_, _, _)
Anc(set, X, n) == IF n = 0 THEN X ELSE
   Anc(set, X \cup UNION {Ins(set[i]) : i \in {k \in 1..Len(set) : Outs(set[k]) \cap X # {}}}, n - 1)
Ancestors(set, X) == Anc(set, X, NV)
Malformed(c) == Ins(c) \cap Outs(c) # {}
\* acceptance
ExplicitComp(c) == \A k \in 1..OutDim(c) : c.comp[k] \in {"Equality", "EqualToZero"}
Accepts(set, c) == /\ ~Malformed(c) /\ ExplicitComp(c)
                   /\ Outs(c) \cap OutVars(set) = {}
                   /\ Outs(c) \cap Ancestors(set, Ins(c)) = {}
\* inputs of the set as a whole: read and not computed
InVars(set) == (UNION {Ins(set[i]) : i \in 1..Len(set)}) \ OutVars(set)

\* the configuration resolved from q: outputs evaluated from resolved inputs
RECURSIVE Res(_, _, _, _)
Res(set, r, q, v) == IF Owner(set, v) = {} THEN q[v] ELSE
   LET i == CHOOSE k \in Owner(set, v) : TRUE
       c == set[i]
       k == v - c.lo + 1
       q2 == [w \in Vars |-> IF w \in Ins(c) THEN Res(set, r, q, w) ELSE 0]
   IN Norm(v, Poly(c, k, q2) + r[i][k])
Solve(set, r, q) == [v \in Vars |-> Res(set, r, q, v)]
\* row of the derivative of variable v at a resolved configuration
RECURSIVE JRow(_, _, _)
JRow(set, q, v) == IF Owner(set, v) = {} THEN [w \in Vars |-> IF w = v THEN 1 ELSE 0] ELSE
   LET c == set[CHOOSE k \in Owner(set, v) : TRUE]
       k == v - c.lo + 1
       rows == [j \in 1..Len(c.ins) |-> JRow(set, q, c.ins[j])]
   IN [w \in Vars |-> Sum(LAMBDA j : DPoly(c, k, j, q) * rows[j][w], 1, Len(c.ins))]
\* implicit form: output minus function of input, angles in -1..2
Wrap(v, d) == IF Types[v] = "C" THEN (IF d % 4 = 3 THEN -1 ELSE d % 4) ELSE d
H(c, q) == [k \in 1..OutDim(c) |-> Wrap(c.lo + k - 1, q[c.lo + k - 1] - Poly(c, k, q))]
\* half turns are on the border of the domain of the logarithm
Safe(c, q) == \A k \in 1..OutDim(c) : Types[c.lo + k - 1] = "C" => H(c, q)[k] # 2
Err(c, r, q) == [k \in 1..OutDim(c) |-> H(c, q)[k] - r[k]]
OutTypes(c) == [k \in 1..OutDim(c) |-> Types[c.lo + k - 1]]
EqRhs(c, v) == [k \in 1..OutDim(c) |-> IF c.comp[k] = "Equality" THEN v[k] ELSE 0]
\* is a vector of errors (quarter turns for angles) shorter than thr?  (pi/2)^2 is 2.4674
SqR(e, t) == Sum(LAMBDA k : IF t[k] = "C" THEN 0 ELSE e[k] * e[k], 1, Len(e))
SqC(e, t) == Sum(LAMBDA k : IF t[k] = "C" THEN e[k] * e[k] ELSE 0, 1, Len(e))
Huge(e) == \E k \in 1..Len(e) : Abs(e[k]) > 100
Shorter(e, t, thr) == ~Huge(e) /\ 10000 * SqR(e, t) + 24674 * SqC(e, t) < 10000 * thr * thr
\* no verdict is asked when the length equals the threshold up to rounding
Clear(e, t, thr) == Huge(e) \/ SqC(e, t) = 0 \/ Abs(10000 * SqR(e, t) + 24674 * SqC(e, t) - 10000 * thr * thr) > 100
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)


\* a bound on the values the resolution can give, to stay within TLC's integers
Big == 20000
RECURSIVE Bd(_, _)
Bd(set, v) == IF Types[v] # "R" \/ Owner(set, v) = {} THEN 3 ELSE
   LET c == set[CHOOSE i \in Owner(set, v) : TRUE] k == v - c.lo + 1
       b == [j \in 1..Len(c.ins) |-> Bd(set, c.ins[j])]
       t == 70 + Sum(LAMBDA j : Abs(c.A[k][j]) * b[j], 1, Len(c.ins)) + (IF c.ins = <<>> THEN 0 ELSE c.c[k] * b[1] * b[1])
   IN IF t > Big THEN Big ELSE t
============================================================================
