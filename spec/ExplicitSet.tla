---------------------------- MODULE ExplicitSet ----------------------------
(* Set of explicit constraints (explicit-constraint-set.{hh,cc}).           *)
(*                                                                          *)
(* The configuration space is a product of one-dimensional variables:       *)
(* "R" a real (an integer here), "C" a point of the circle (a number of     *)
(* quarter turns, 2 configuration entries), plus fillers "S" (SO(3):        *)
(* 4 configuration entries, 3 velocities) that shift the indices and are    *)
(* never involved.  An explicit constraint computes the variables lo..hi    *)
(* from the variables `ins` by integer polynomials displaced by the         *)
(* right-hand side; each computed variable has a comparison type.           *)
(*                                                                          *)
(* State: the constraints accepted so far in order (cs), their right-hand   *)
(* sides (rhs), and a second set (cs2, rhs2), a copy taken earlier.         *)
EXTENDS Space

CONSTANTS Mode, Depth, MaxCs

VARIABLES cs, rhs, cs2, rhs2, known, last, hist
vars == <<cs, rhs, cs2, rhs2, known, last, hist>>
view == <<cs, rhs>>

Proj(set, r) == [
  outArgs |-> QIdxs(OutVars(set)), notOutArgs |-> QIdxs(Vars \ OutVars(set)), inArgs |-> QIdxs(InVars(set)),
  outDers |-> VIdxs(OutVars(set)), notOutDers |-> VIdxs(Vars \ OutVars(set)), inDers |-> VIdxs(InVars(set)),
  derFn |-> Flatten([v \in Vars |-> [k \in 1..VS(Types[v]) |-> IF Owner(set, v) = {} THEN -1 ELSE (CHOOSE i \in Owner(set, v) : TRUE) - 1]]),
  errSize |-> Sum(LAMBDA i : OutDim(set[i]), 1, Len(set)),
  dep |-> [i \in 1..Len(set) |-> LET A == Ancestors(set, Ins(set[i])) \ OutVars(set) IN
            Flatten([v \in Vars |-> [k \in 1..VS(Types[v]) |-> IF v \in A THEN 1 ELSE 0]])],
  dofDep |-> LET o == SetToSortSeq(OutVars(set), <) n == SetToSortSeq(InVars(set), <) IN
            [i \in 1..Len(o) |-> LET c == set[CHOOSE k \in Owner(set, o[i]) : TRUE] A == Ancestors(set, Ins(c)) IN
               [j \in 1..Len(n) |-> IF n[j] \in A THEN 1 ELSE 0]],
  rhs |-> Flatten(r)]

Do(rec, a, r) == /\ cs' = a /\ rhs' = r
                 /\ last' = rec /\ hist' = Append(hist, Strip(Mode, rec))

Zero(c) == [k \in 1..OutDim(c) |-> 0]
Add(c) == LET ok == Accepts(cs, c) IN
          /\ Len(cs) < MaxCs /\ (\A i \in 1..Len(cs) : cs[i].id # c.id)
          /\ LET a == IF ok THEN Append(cs, c) ELSE cs
                 r == IF ok THEN Append(rhs, Zero(c)) ELSE rhs
             IN Do([op |-> "add", c |-> c, exp |-> [ret |-> IF ok THEN Len(cs) ELSE -1,
                      contains |-> [i \in 1..Len(cs) |-> TRUE], containsNew |-> ok] @@ Proj(a, r)], a, r)
          /\ known' = known \cup {c} /\ UNCHANGED <<cs2, rhs2>>
U2 == UNCHANGED <<cs2, rhs2, known>>
SolveAt(q) == /\ LET s == Solve(cs, rhs, q) IN
                 Do([op |-> "solve", q |-> q, exp |-> [q |-> s,
                     J |-> [v \in Vars |-> JRow(cs, s, v)],
                     sat |-> TRUE, again |-> s, fill |-> TRUE]], cs, rhs)
              /\ U2
\* satisfaction with threshold thr: every constraint's error is shorter than thr
Check(q, thr) == /\ \A i \in 1..Len(cs) : Safe(cs[i], q)
                 /\ \A i \in 1..Len(cs) : Clear(Err(cs[i], rhs[i], q), OutTypes(cs[i]), thr)
                 /\ Do([op |-> "check", q |-> q, thr |-> thr,
                        exp |-> [err |-> Flatten([i \in 1..Len(cs) |-> Err(cs[i], rhs[i], q)]),
                                 ok |-> \A i \in 1..Len(cs) : Shorter(Err(cs[i], rhs[i], q), OutTypes(cs[i]), thr),
                                 each |-> [i \in 1..Len(cs) |-> Shorter(Err(cs[i], rhs[i], q), OutTypes(cs[i]), thr)]]], cs, rhs)
                 /\ U2
SetRhs(i, v) == LET w == EqRhs(cs[i], v) r == [rhs EXCEPT ![i] = w] IN
                Do([op |-> "setRhs", i |-> i - 1, v |-> w, exp |-> [rhs |-> Flatten(r), each |-> r]], cs, r) /\ U2
SetAllRhs(r) == Do([op |-> "setAllRhs", v |-> Flatten(r), exp |-> [rhs |-> Flatten(r), each |-> r]], cs, r) /\ U2
Reread == Do([op |-> "reread", exp |-> [rhs |-> Flatten(rhs), each |-> rhs]], cs, rhs) /\ U2
FromInput(q) == /\ \A i \in 1..Len(cs) : Safe(cs[i], q)
                /\ LET r == [i \in 1..Len(cs) |-> EqRhs(cs[i], H(cs[i], q))] IN
                   Do([op |-> "fromInput", q |-> q, exp |-> [rhs |-> Flatten(r), each |-> r, ret |-> Flatten(r)]], cs, r)
                /\ U2
FromInput1(i, q) == /\ Safe(cs[i], q)
                    /\ LET r == [rhs EXCEPT ![i] = EqRhs(cs[i], H(cs[i], q))] IN
                       Do([op |-> "fromInput1", i |-> i - 1, q |-> q, exp |-> [rhs |-> Flatten(r), each |-> r]], cs, r)
                    /\ U2
Copy == /\ cs2' = cs /\ rhs2' = rhs /\ UNCHANGED known
        /\ Do([op |-> "copy", exp |-> Proj(cs, rhs)], cs, rhs)
Swap == /\ cs2' = cs /\ rhs2' = rhs /\ UNCHANGED known
        /\ Do([op |-> "swap", exp |-> Proj(cs2, rhs2)], cs2, rhs2)

Init == /\ cs = <<>> /\ rhs = <<>> /\ cs2 = <<>> /\ rhs2 = <<>> /\ known = {} /\ last = [op |-> "init"]
        /\ hist = <<[op |-> "space", types |-> Types]>>

(* exhaustive exploration: one constraint per (inputs, outputs, comparison) *)
Ranges == {r \in Act \X Act : r[1] <= r[2] /\ (\A v \in r[1]..r[2] : v \in Act)}
Mk(X, lo, hi, cm) == LET ins == SetToSortSeq(X, <) IN
  [id |-> <<ins, lo, hi, cm>>, ins |-> ins, lo |-> lo, hi |-> hi,
   A |-> [k \in 1..(hi - lo + 1) |-> [j \in 1..Len(ins) |-> 1 + ((ins[j] + k + lo) % 3)]],
   b |-> [k \in 1..(hi - lo + 1) |-> k + lo], c |-> [k \in 1..(hi - lo + 1) |-> (k + Len(ins)) % 2],
   comp |-> [k \in 1..(hi - lo + 1) |-> IF cm = "mixed" THEN (IF k % 2 = 1 THEN "Equality" ELSE "EqualToZero") ELSE cm]]
Pool == {Mk(X, r[1], r[2], "mixed") : X \in SUBSET Act, r \in Ranges}
   \cup {Mk(X, r[1], r[2], "Superior") : X \in {{}}, r \in Ranges}
Q0(s) == [v \in Vars |-> IF Types[v] = "C" THEN (s + v) % 4 ELSE IF Types[v] = "S" THEN 0 ELSE ((s * v) % 5) - 2]
Next == \/ \E c \in Pool : Add(c)
        \/ \E s \in {3} : SolveAt(Q0(s)) \/ Check(Q0(s), 3) \/ Check(Solve(cs, rhs, Q0(s)), 1)
        \/ \E i \in 1..Len(cs) : (rhs[i] = Zero(cs[i])) /\ SetRhs(i, [k \in 1..OutDim(cs[i]) |-> IF (k + i) % 2 = 0 THEN 1 ELSE -1])
Spec == Init /\ [][Next]_vars

(* long random behaviours *)
\* mentioning hist keeps TLC from evaluating choices once and for all; TLCEval below, from repeating them
R(X) == IF hist = <<>> THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
RV(v) == IF Types[v] = "C" THEN R(0..3) ELSE IF Types[v] = "S" THEN 0 ELSE R(-2..2)
RQ == TLCEval([v \in Vars |-> RV(v)])
RRange == R({r \in Act \X Act : r[1] <= r[2] /\ r[2] <= r[1] + 2 /\ (\A u \in r[1]..r[2] : u \in Act)})
RCon == LET r == RRange
            X == TLCEval({v \in Act \ (IF R(1..12) = 1 THEN {} ELSE r[1]..r[2]) : R(1..5) <= 2})
            ins == SetToSortSeq(X, <) n == r[2] - r[1] + 1
            A == TLCEval([k \in 1..n |-> [j \in 1..Len(ins) |-> R(-1..2)]])
        IN TLCEval([id |-> R(1..1000000), ins |-> ins, lo |-> r[1], hi |-> r[2], A |-> A,
            b |-> [k \in 1..n |-> R(-2..2)], c |-> [k \in 1..n |-> IF R(1..4) = 1 THEN 1 ELSE 0],
            comp |-> [k \in 1..n |-> LET z == R(1..30) IN IF z = 1 THEN "Inferior" ELSE IF z = 2 THEN "Superior" ELSE IF z < 11 THEN "EqualToZero" ELSE "Equality"]])
RRhs(c) == TLCEval([k \in 1..OutDim(c) |-> IF Types[c.lo + k - 1] = "C" THEN R(-1..1) ELSE R(-3..3)])
SimAdd(c) == (Accepts(cs, c) => \A v \in Vars : Bd(Append(cs, c), v) < Big) /\ Add(c)
SimNext == \/ \E c \in {RCon} : SimAdd(c)
           \/ \E c \in {RCon} : SimAdd(c)
           \/ Cardinality(known) > 0 /\ \E c \in {R(known)} : SimAdd(c)
           \/ \E q \in {RQ} : SolveAt(q)
           \/ \E q \in {RQ} : SolveAt(q)
           \/ \E q \in {RQ}, t \in {R(1..6)} : Check(q, t)
           \/ \E q \in {RQ}, t \in {R(1..2)} : Check(Solve(cs, rhs, q), t)
           \/ Len(cs) > 0 /\ \E i \in {R(1..Len(cs))} : \E v \in {RRhs(cs[i])} : SetRhs(i, v)
           \/ Len(cs) > 0 /\ \E r \in {TLCEval([i \in 1..Len(cs) |-> EqRhs(cs[i], RRhs(cs[i]))])} : SetAllRhs(r)
           \/ Len(cs) > 0 /\ \E i \in {R(1..Len(cs))}, q \in {RQ} : FromInput1(i, q)
           \/ \E q \in {RQ} : FromInput(q)
           \/ Reread \/ Copy \/ (Len(cs2) > 0 /\ Swap)
SimSpec == Init /\ [][SimNext]_vars

(* Properties of the design, for the state and a few configurations *)
Qs == {Q0(1), Q0(2), Q0(3)}
TypeOK == Len(rhs) = Len(cs)
Partition == \A v \in Vars : Cardinality(Owner(cs, v)) <= 1
Acyclic == \A v \in OutVars(cs) : v \notin Ancestors(cs, UNION {Ins(cs[i]) : i \in Owner(cs, v)})
Resolved == \A q \in Qs : LET s == Solve(cs, rhs, q) IN
   /\ \A v \in Vars \ OutVars(cs) : s[v] = q[v]
   /\ Solve(cs, rhs, s) = s
   /\ \A i \in 1..Len(cs) : \A k \in 1..OutDim(cs[i]) : s[cs[i].lo + k - 1] = Norm(cs[i].lo + k - 1, Poly(cs[i], k, s) + rhs[i][k])
\* the set of accepted constraints determines the resolution, not their order
OrderFree == \A q \in Qs : Solve(cs, rhs, q) = Solve(Reverse(cs), Reverse(rhs), q)

Fresh == last'.op # "init"
Emit == IF Mode = "bfs" THEN PrintT(ToJson(Append(hist, last'))) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
============================================================================
