------------------------------ MODULE Problem ------------------------------
(* A constraint problem: solver::BySubstitution on top of                   *)
(* solver::HierarchicalIterative and ExplicitConstraintSet.                 *)
(*                                                                          *)
(* A problem is a record                                                    *)
(*   cons  the constraints added, in order (functions are identified by id) *)
(*   ex    which of them are resolved explicitly, in order of acceptance    *)
(*   st    the priority levels: for each, which constraints, in order       *)
(*   rhs   their right-hand sides, tm their re-parameterisation of time     *)
(*   frz   variables left alone (solver without substitution)               *)
(*   thr, ineq, opt, lbl   error and inequality thresholds, "the last level *)
(*         is optional", "solve level by level"                             *)
(* There are two problems, to study copies, extraction and merging.         *)
EXTENDS Space, LinAlg

CONSTANTS Mode, Depth, MaxCons, MaxPrio, LinearOnly, Solving, Saves

VARIABLES p, p2, known, last, hist
vars == <<p, p2, known, last, hist>>
view == <<p, p2, Len(known)>>

(* ---------------------------------------------------------- constraints *)
\* kind "imp": out_k = polynomial of the variables `ins`, of type to[k], compared with comp[k], counted if mask[k]
\* kind "exp": the variables lo..hi are polynomials of `ins`
Dim(c) == Len(c.to)
ActVars(c) == IF c.kind = "imp" THEN Ins(c) ELSE Ins(c) \cup Outs(c)
WrapT(t, d) == IF t = "C" THEN (IF d % 4 = 3 THEN -1 ELSE d % 4) ELSE d
NormT(t, x) == IF t = "C" THEN x % 4 ELSE x
\* value of the function of the constraint; angles of implicit constraints in 0..3, those of the implicit form of
\* explicit constraints are logarithms, in -1..2
Val(c, q) == IF c.kind = "imp" THEN [k \in 1..Dim(c) |-> NormT(c.to[k], Poly(c, k, q))] ELSE H(c, q)
\* the right-hand side of an angle is an angle for implicit constraints, a number for explicit ones
Diff(c, q, r) == [k \in 1..Dim(c) |-> IF c.kind = "imp" THEN WrapT(c.to[k], Val(c, q)[k] - r[k]) ELSE Val(c, q)[k] - r[k]]
RhsNorm(c, r) == [k \in 1..Dim(c) |-> IF c.comp[k] # "Equality" THEN 0 ELSE IF c.kind = "imp" THEN NormT(c.to[k], r[k]) ELSE r[k]]
ZeroR(c) == [k \in 1..Dim(c) |-> 0]
Ineq(cm) == cm \in {"Superior", "Inferior"}
AppIneq(cm, e, t) == CASE cm = "Superior" -> (IF e < t THEN e - t ELSE 0)
                       [] cm = "Inferior" -> (IF e > -t THEN e + t ELSE 0)
                       [] OTHER -> e
AllEq(c) == \A k \in 1..Dim(c) : c.comp[k] = "Equality"
HasRf(c) == c.rf # <<>>

(* -------------------------------------------------------------- problem *)
Empty == [cons |-> <<>>, ex |-> <<>>, st |-> <<>>, rhs |-> <<>>, tm |-> <<>>, thr |-> 1, ineq |-> 0, opt |-> FALSE, lbl |-> FALSE, sat |-> [v \in Vars |-> 0], frz |-> {}]
N(P) == Len(P.cons)
ExSet(P) == [k \in 1..Len(P.ex) |-> P.cons[P.ex[k]]]
ExRhs(P) == [k \in 1..Len(P.ex) |-> P.rhs[P.ex[k]]]
IsEx(P, i) == \E k \in 1..Len(P.ex) : P.ex[k] = i
Imps(P) == Flatten(P.st)
Out(P) == OutVars(ExSet(P))
Free(P) == Vars \ Out(P)
Prio(P, i) == IF IsEx(P, i) THEN 0 ELSE (CHOOSE l \in 1..Len(P.st) : \E k \in 1..Len(P.st[l]) : P.st[l][k] = i) - 1
Has(P, c) == \E i \in 1..N(P) : P.cons[i].id = c.id /\ P.cons[i].comp = c.comp
Clash(P, c) == \E i \in 1..N(P) : P.cons[i].id = c.id /\ P.cons[i].comp # c.comp
\* which constraints count in the Jacobian: those that depend on a variable left free
Active(P, i) == LET a == ActVars(P.cons[i]) IN
   (a \ Out(P)) \ P.frz # {} \/ Ancestors(ExSet(P), UNION {Ins(ExSet(P)[k]) : k \in {m \in 1..Len(P.ex) : Outs(ExSet(P)[m]) \cap a # {}}}) \ Out(P) # {}
ActRows(c) == SelectSeq([k \in 1..Dim(c) |-> k], LAMBDA k : c.mask[k])

ClearRhs(P) == [P EXCEPT !.rhs = [i \in 1..N(P) |-> ZeroR(P.cons[i])]]
\* adding a constraint also resets right-hand sides: those of the problem are cleared (in the model and by the driver)
AddTo(P, c, prio) ==
  IF Has(P, c) THEN P ELSE
  LET n == N(P) + 1
      base == [P EXCEPT !.cons = Append(@, c), !.rhs = Append(@, ZeroR(c)), !.tm = Append(@, <<1, 0>>)]
  IN IF c.kind = "exp" /\ Accepts(ExSet(P), c) THEN [base EXCEPT !.ex = Append(@, n)]
     ELSE LET lv == IF Len(P.st) > prio THEN P.st ELSE P.st \o [k \in 1..(prio + 1 - Len(P.st)) |-> <<>>]
          IN [base EXCEPT !.st = [lv EXCEPT ![prio + 1] = Append(@, n)]]
RECURSIVE MergeFrom(_, _, _)
MergeFrom(P, O, k) == IF k > N(O) THEN P ELSE MergeFrom(AddTo(P, O.cons[k], Prio(O, k)), O, k + 1)

(* ------------------------------------------------------ errors, verdicts *)
Err1(P, i, q) == LET c == P.cons[i] d == Diff(c, q, P.rhs[i]) IN
   [k \in 1..Dim(c) |-> IF ~c.mask[k] THEN 0 ELSE IF IsEx(P, i) THEN d[k] ELSE AppIneq(c.comp[k], d[k], P.ineq)]
ErrV(P, q) == Flatten([k \in 1..Len(Imps(P)) |-> Err1(P, Imps(P)[k], q)]) \o Flatten([k \in 1..Len(P.ex) |-> Err1(P, P.ex[k], q)])
Required(P) == Range(P.ex) \cup UNION {Range(P.st[l]) : l \in 1..(IF P.opt /\ Len(P.st) > 0 THEN Len(P.st) - 1 ELSE Len(P.st))}
Sat1(P, i, q) == Shorter(Err1(P, i, q), P.cons[i].to, P.thr)
Sat(P, q) == \A i \in Required(P) : Sat1(P, i, q)
\* configurations at which no half turn, no border of a threshold makes the answer depend on rounding
NoHalf(c, d) == \A k \in 1..Dim(c) : c.to[k] = "C" => d[k] # 2
SafeAt(P, q) == \A i \in 1..N(P) : /\ (P.cons[i].kind = "exp" => Safe(P.cons[i], q))
                                   /\ (P.cons[i].kind = "imp" => NoHalf(P.cons[i], Diff(P.cons[i], q, P.rhs[i])))
ClearAt(P, q) == SafeAt(P, q) /\ \A i \in 1..N(P) : Clear(Err1(P, i, q), P.cons[i].to, P.thr)

(* -------------------------------------------------------------- Jacobian *)
\* derivative of the k-th output with respect to every variable
DRow(c, k, q) == LET f == [v \in Vars |-> IF v \in Ins(c) THEN DPoly(c, k, CHOOSE j \in 1..Len(c.ins) : c.ins[j] = v, q) ELSE 0] IN
   IF c.kind = "imp" THEN f ELSE [v \in Vars |-> (IF v = c.lo + k - 1 THEN 1 ELSE 0) - f[v]]
\* rows of the reduced Jacobian of constraint i: <<row over the variables>>, outputs substituted
RedRows(P, i, q) == LET c == P.cons[i] set == ExSet(P) d == Diff(c, q, P.rhs[i]) IN
  IF ~Active(P, i) THEN <<>> ELSE
  [m \in 1..Len(ActRows(c)) |-> LET k == ActRows(c)[m] r == DRow(c, k, q) IN
     IF Ineq(c.comp[k]) /\ AppIneq(c.comp[k], d[k], P.ineq) = 0 THEN [v \in Vars |-> 0] ELSE
     [v \in Vars |-> IF v \in Out(P) THEN 0 ELSE r[v] + Sum(LAMBDA o : IF o \in Out(P) /\ r[o] # 0 THEN r[o] * JRow(set, q, o)[v] ELSE 0, 1, NV)]]
LevelRows(P, l, q) == Flatten([k \in 1..Len(P.st[l]) |-> RedRows(P, P.st[l][k], q)])
LevelErr(P, l, q) == Flatten([k \in 1..Len(P.st[l]) |-> LET i == P.st[l][k] e == Err1(P, i, q) a == ActRows(P.cons[i]) IN
                        IF Active(P, i) THEN [m \in 1..Len(a) |-> e[a[m]]] ELSE <<>>])
\* over the free velocity variables, in order
Expand(P, row) == Flatten([v \in Vars |-> IF v \in Out(P) \cup P.frz THEN <<>> ELSE IF Types[v] = "S" THEN <<0, 0, 0>> ELSE <<row[v]>>])
RedJ(P, q) == Flatten([l \in 1..Len(P.st) |-> [m \in 1..Len(LevelRows(P, l, q)) |-> Expand(P, LevelRows(P, l, q)[m])]])
RedDim(P) == Sum(LAMBDA k : IF Active(P, Imps(P)[k]) THEN Len(ActRows(P.cons[Imps(P)[k]])) ELSE 0, 1, Len(Imps(P)))

(* ----------------------------------------- descent: exact least squares *)
FV(P) == SetToSortSeq({v \in (Vars \ Out(P)) \ P.frz : Types[v] # "S"}, <)
RatRows(P, rows) == [m \in 1..Len(rows) |-> [j \in 1..Len(FV(P)) |-> Q(rows[m][FV(P)[j]])]]
\* a variable at a bound is left out of a level that would push it out: sat[v] is -1 (lower), 1 (upper), 0
ZRows(P, l, q) == LET rows == LevelRows(P, l, q) e == LevelErr(P, l, q) IN
   IF \A v \in Vars : P.sat[v] = 0 THEN rows ELSE
   [m \in 1..Len(rows) |-> [v \in Vars |-> IF P.sat[v] * Sum(LAMBDA k : rows[k][v] * e[k], 1, Len(rows)) < 0 THEN 0 ELSE rows[m][v]]]
\* first-order change of each level: as little error as the levels above allow.  Once a level given by itself leaves
\* an error above the threshold, "level by level" gives up the following ones.
RECURSIVE Levels(_, _, _, _, _, _, _)
\* first-order changes of every level, as rationals ("any": on the border of the threshold).
\* stop: "no", or the levels below are left alone ("yes"), or unknown ("any")
Levels(P, q, l, x, N_, n, stop) ==
  IF l > Len(P.st) THEN [x |-> x, N |-> N_, n |-> n, stop |-> stop] ELSE
  LET rows == ZRows(P, l, q) A == RatRows(P, rows) m == Len(FV(P))
      b == [k \in 1..Len(rows) |-> Q(-LevelErr(P, l, q)[k])]
      res == VAdd(b, VNeg(MV(A, IF P.lbl /\ l > 1 THEN Shortest(x, N_, n, m) ELSE x)))
      sq == RSum(LAMBDA k : RMul(res[k], res[k]), 1, Len(rows))
      thr == Q(P.thr * P.thr)
  IN IF Len(rows) = 0 THEN Levels(P, q, l + 1, x, N_, n, stop) ELSE
     LET s == LeastIn(A, b, x, N_, n, m) IN
     IF P.lbl /\ sq = thr /\ l < Len(P.st) THEN [x |-> s.x, stop |-> "any"]
     ELSE IF P.lbl /\ RLess(thr, sq) /\ l < Len(P.st) THEN [x |-> Shortest(s.x, s.N, s.n, m), stop |-> "yes"]
     ELSE Levels(P, q, l + 1, s.x, s.N, s.n, stop)
Descent(P, q) == LET m == Len(FV(P)) IN Levels(P, q, 1, [j \in 1..m |-> RZero], IdM(m), m, "no")
(* ------------------------------------- solving affine problems exactly *)
\* With full Newton steps an affine problem reaches its hierarchical optimum in one step.
Affine(P) == \A i \in 1..N(P) : (\A k \in 1..Dim(P.cons[i]) : P.cons[i].c[k] = 0 /\ P.cons[i].to[k] = "R" /\ ~Ineq(P.cons[i].comp[k]))
                /\ \A v \in ActVars(P.cons[i]) : Types[v] = "R"
SolveStep(P, q) == LET m == Len(FV(P)) z == [j \in 1..m |-> RZero] IN
   IF RedDim(P) = 0 THEN z ELSE Shortest(Levels([P EXCEPT !.lbl = FALSE], q, 1, z, IdM(m), m, "no").x,
                                         Levels([P EXCEPT !.lbl = FALSE], q, 1, z, IdM(m), m, "no").N,
                                         Levels([P EXCEPT !.lbl = FALSE], q, 1, z, IdM(m), m, "no").n, m)
\* values after moving the free variables by x; the outputs of explicit constraints follow
Moved(P, q, x) == [v \in Vars |->
   IF Types[v] = "S" THEN RZero
   ELSE IF v \in P.frz THEN Q(q[v])
   ELSE IF v \notin Out(P) THEN RAdd(Q(q[v]), x[CHOOSE j \in 1..Len(FV(P)) : FV(P)[j] = v])
   ELSE LET r == JRow(ExSet(P), q, v) IN RAdd(Q(q[v]), RSum(LAMBDA j : RMul(Q(r[FV(P)[j]]), x[j]), 1, Len(FV(P))))]
\* squared error of implicit constraint i after the move
SqErr(P, i, q, x) == LET c == P.cons[i] e == Err1(P, i, q) rows == RedRows(P, i, q) a == ActRows(c) IN
   RSum(LAMBDA m : LET y == IF rows = <<>> THEN Q(e[a[m]])
                            ELSE RAdd(Q(e[a[m]]), RSum(LAMBDA j : RMul(Q(rows[m][FV(P)[j]]), x[j]), 1, Len(FV(P))))
                   IN RMul(y, y), 1, Len(a))
ReqImp(P) == UNION {Range(P.st[l]) : l \in 1..(IF P.opt /\ Len(P.st) > 0 THEN Len(P.st) - 1 ELSE Len(P.st))}
WorstSq(P, q, x) == IF ReqImp(P) = {} THEN RZero ELSE RMax({SqErr(P, i, q, x) : i \in ReqImp(P)})
\* [st |-> status, x |-> step] from a configuration where explicit constraints are satisfied
Outcome(P, q, maxIt) ==
  LET m == Len(FV(P)) z == [j \in 1..m |-> RZero]
      T == Q(P.thr * P.thr) T4 == RMul(T, <<1, 4>>)
      e0 == WorstSq(P, q, z) x == SolveStep(P, q) e1 == WorstSq(P, q, x)
      still == \A j \in 1..m : x[j] = RZero
      unknown == [st |-> "any", x |-> <<Bad>>]
  IN IF AnyBad(x) \/ IsBad(e0) \/ IsBad(e1) \/ (\E i \in ReqImp(P) : IsBad(SqErr(P, i, q, z)) \/ IsBad(SqErr(P, i, q, x)))
        \/ e0 \in {T, T4} \/ e1 \in {T, T4} THEN unknown
     ELSE IF ~RLess(T4, e0) THEN [st |-> "SUCCESS", x |-> z]
     ELSE IF RedDim(P) = 0 THEN [st |-> IF RLess(e0, T) THEN "SUCCESS" ELSE "INFEASIBLE", x |-> z]
     ELSE IF RLess(e0, T) THEN (IF maxIt = 0 THEN [st |-> "SUCCESS", x |-> z] ELSE IF RLess(e1, e0) THEN [st |-> "SUCCESS", x |-> x] ELSE IF still THEN [st |-> "SUCCESS", x |-> z] ELSE unknown)
     ELSE IF maxIt = 0 THEN [st |-> "MAX", x |-> z]
     ELSE IF still THEN [st |-> "INFEASIBLE", x |-> z]
     ELSE IF ~RLess(T4, e1) THEN [st |-> "SUCCESS", x |-> x]
     ELSE IF maxIt = 1 THEN [st |-> "MAX", x |-> x]
     ELSE [st |-> "INFEASIBLE", x |-> x]

\* without substitution (no explicit constraint): the loop of HierarchicalIterative, which stops at the threshold itself
OutcomeH(P, q, maxIt) ==
  LET m == Len(FV(P)) z == [j \in 1..m |-> RZero]
      T == Q(P.thr * P.thr)
      e0 == WorstSq(P, q, z) x == SolveStep(P, q) e1 == WorstSq(P, q, x)
      still == \A j \in 1..m : x[j] = RZero
  IN IF AnyBad(x) \/ IsBad(e0) \/ IsBad(e1) \/ (\E i \in ReqImp(P) : IsBad(SqErr(P, i, q, z)) \/ IsBad(SqErr(P, i, q, x)))
        \/ e0 = T \/ e1 = T THEN [st |-> "any", x |-> <<Bad>>]
     ELSE IF RLess(e0, T) THEN [st |-> "SUCCESS", x |-> z]
     ELSE IF RedDim(P) = 0 THEN [st |-> "INFEASIBLE", x |-> z]
     ELSE IF maxIt = 0 THEN [st |-> "MAX", x |-> z]
     ELSE IF still THEN [st |-> "INFEASIBLE", x |-> z]
     ELSE IF RLess(e1, T) THEN [st |-> "SUCCESS", x |-> x]
     ELSE IF maxIt = 1 THEN [st |-> "MAX", x |-> x]
     ELSE [st |-> "INFEASIBLE", x |-> x]

(* ------------------------------------------------------------ projection *)
Dot(r, x, P) == Sum(LAMBDA j : r[FV(P)[j]] * x[j], 1, Len(FV(P)))
Kernel(P, rows) == {x \in [1..Len(FV(P)) -> IF Len(FV(P)) <= 4 THEN -2..2 ELSE -1..1] : \A m \in 1..Len(rows) : Dot(rows[m], x, P) = 0}
FreeVec(P, x, s) == Flatten([v \in Vars |-> IF v \in Out(P) THEN <<>> ELSE IF Types[v] = "S" THEN s ELSE <<x[CHOOSE j \in 1..Len(FV(P)) : FV(P)[j] = v]>>])

(* ----------------------------------------------------------- projections *)
Ids(P, s) == [k \in 1..Len(s) |-> P.cons[s[k]].id]
UsedFree(P) == LET a == UNION {ActVars(P.cons[i]) : i \in Range(Imps(P))} IN
   (a \ Out(P)) \cup (Ancestors(ExSet(P), UNION {Ins(ExSet(P)[k]) : k \in {m \in 1..Len(P.ex) : Outs(ExSet(P)[m]) \cap a # {}}}) \ Out(P))
ActV(P) == UNION {ActVars(P.cons[i]) : i \in Range(Imps(P))}
Bits(f(_), idx(_)) == Flatten([v \in Vars |-> [k \in 1..idx(Types[v]) |-> f(v)]])
Struct(P, O, kn) == [
  cons |-> Ids(P, [k \in 1..N(P) |-> k]), explicit |-> [i \in 1..N(P) |-> IsEx(P, i)],
  stacks |-> [l \in 1..Len(P.st) |-> Ids(P, P.st[l])],
  contains |-> [k \in 1..Len(kn) |-> Has(P, kn[k])],
  dim |-> Sum(LAMBDA k : Dim(P.cons[Imps(P)[k]]), 1, Len(Imps(P))), redDim |-> RedDim(P),
  errSize |-> Sum(LAMBDA i : Dim(P.cons[i]), 1, N(P)),
  rhsSize |-> Sum(LAMBDA i : IF P.cons[i].kind = "imp" THEN Sum(LAMBDA k : QS(P.cons[i].to[k]), 1, Dim(P.cons[i])) ELSE Dim(P.cons[i]), 1, N(P)),
  free |-> VIdxs(Free(P)), impDof |-> VIdxs(UsedFree(P)),
  actQ |-> Bits(LAMBDA v : IF v \in ActV(P) THEN 1 ELSE 0, QS), actV |-> Bits(LAMBDA v : IF v \in ActV(P) THEN 1 ELSE 0, VS),
  subm |-> \A i \in 1..N(O) : \E j \in 1..N(P) : P.cons[j].id = O.cons[i].id]
RhsEach(P) == [i \in 1..N(P) |-> P.rhs[i]]
RhsAll(P) == Flatten([k \in 1..Len(Imps(P)) |-> P.rhs[Imps(P)[k]]]) \o Flatten([k \in 1..Len(P.ex) |-> P.rhs[P.ex[k]]])
Opts(P) == [thr |-> P.thr, ineq |-> P.ineq, opt |-> P.opt, lbl |-> P.lbl]
Whole(P, O, kn) == Struct(P, O, kn) @@ [each |-> RhsEach(P), all |-> RhsAll(P), opts |-> Opts(P)]

(* --------------------------------------------------------------- actions *)
\* whatever is done to the first problem does not show in the second one, and is answered in the same way by a
\* problem that was saved and restored
Do(rec, a, b) == LET r == [rec EXCEPT !.exp = @ @@ [indep |-> TRUE, mirror |-> TRUE]] IN
   p' = a /\ p2' = b /\ last' = r /\ hist' = Append(hist, Strip(Mode, r))
Same == UNCHANGED known
KnownIdx(c) == {k \in 1..Len(known) : known[k].id = c.id /\ known[k].comp = c.comp}
DoAdd(c, prio, dup) ==
  LET refused == ~Has(p, c) /\ (Clash(p, c) \/ (c.kind = "exp" /\ Malformed(c)))
      a == IF Has(p, c) \/ refused THEN p ELSE ClearRhs(AddTo(p, c, prio))
      kn == IF KnownIdx(c) = {} THEN Append(known, c) ELSE known
  IN /\ Do([op |-> "add", c |-> c, prio |-> prio, dup |-> dup,
            exp |-> [ret |-> IF refused THEN "refused" ELSE IF Has(p, c) THEN "already" ELSE "added"] @@ Whole(a, p2, kn)], a, p2)
     /\ known' = kn
CanMerge == /\ \A i \in 1..N(p2) : ~(\E j \in 1..N(p) : p.cons[j].id = p2.cons[i].id /\ p.cons[j].comp # p2.cons[i].comp)
            /\ \A i \in 1..N(p2) : p2.tm[i] = <<1, 0>>
DoMerge == /\ LET a == ClearRhs(MergeFrom(p, p2, 1)) IN
              Do([op |-> "merge", exp |-> Whole(a, p2, known)], a, p2) /\ Same
DoCopy == Do([op |-> "copy", exp |-> Whole(p, p, known) @@ [like |-> TRUE]], p, p) /\ Same
\* save and restore, in an archive of some kind, with or without bounds, by value or by pointer
DoSave(kind, bd, ptr) == Do([op |-> "save", kind |-> kind, box |-> bd, ptr |-> ptr, exp |-> [like |-> TRUE] @@ Whole(p, p2, known)], p, p2) /\ Same
DoSwap == Do([op |-> "swap", exp |-> Whole(p2, p, known)], p2, p) /\ Same
\* sub-problem on the time interval [a, b], in place of the second problem; the first one is unchanged
DoExtract(a, b) == LET e == [p EXCEPT !.tm = [i \in 1..N(p) |-> IF HasRf(p.cons[i])
                                 THEN (IF a > b THEN <<-p.tm[i][1], p.tm[i][2] + p.tm[i][1] * a>> ELSE <<p.tm[i][1], p.tm[i][2] + p.tm[i][1] * a>>)
                                 ELSE p.tm[i]]] IN
   Do([op |-> "extract", a |-> a, b |-> b, exp |-> Whole(p, e, known) @@ [like |-> TRUE]], p, e) /\ Same
DoOpts(o) == LET a == [p EXCEPT !.thr = o.thr, !.ineq = o.ineq, !.opt = o.opt, !.lbl = o.lbl] IN
   Do([op |-> "opts", o |-> o, exp |-> [opts |-> Opts(a)]], a, p2) /\ Same

ExpRhs(P) == [each |-> RhsEach(P), all |-> RhsAll(P)]
DoSetRhs(i, v, viaDup) == LET w == RhsNorm(p.cons[i], v) a == [p EXCEPT !.rhs[i] = w] IN
   Do([op |-> "setRhs", i |-> p.cons[i].id, v |-> w, dup |-> viaDup, exp |-> ExpRhs(a) @@ [ret |-> TRUE]], a, p2) /\ Same
\* a constraint that is not in the problem is not found, and nothing changes
DoSetUnknown(k) == /\ ~\E i \in 1..N(p) : p.cons[i].id = known[k].id
                   /\ Do([op |-> "setRhs", i |-> known[k].id, v |-> ZeroR(known[k]), dup |-> FALSE, exp |-> ExpRhs(p) @@ [ret |-> FALSE]], p, p2) /\ Same
AllOf(r) == Flatten([k \in 1..Len(Imps(p)) |-> r[Imps(p)[k]]]) \o Flatten([k \in 1..Len(p.ex) |-> r[p.ex[k]]])
DoSetAll(r) == LET a == [p EXCEPT !.rhs = r] IN
   Do([op |-> "setAll", v |-> AllOf(r), exp |-> ExpRhs(a)], a, p2) /\ Same
DoReread == Do([op |-> "reread", exp |-> ExpRhs(p)], p, p2) /\ Same
\* right-hand sides read off a configuration: equality components then have no error
FromC(c, q) == RhsNorm(c, Val(c, q))
SafeVal(c, q) == c.kind = "exp" => Safe(c, q)
DoFrom(q) == /\ TRUE = (\A i \in 1..N(p) : SafeVal(p.cons[i], q))
             /\ LET a == [p EXCEPT !.rhs = [i \in 1..N(p) |-> FromC(p.cons[i], q)]] IN
                Do([op |-> "from", q |-> q, exp |-> ExpRhs(a) @@ [ret |-> RhsAll(a)]], a, p2) /\ Same
DoFrom1(i, q) == /\ TRUE = SafeVal(p.cons[i], q)
                 /\ LET a == [p EXCEPT !.rhs[i] = FromC(p.cons[i], q)] IN
                    Do([op |-> "from1", i |-> p.cons[i].id, q |-> q, exp |-> ExpRhs(a) @@ [ret |-> TRUE]], a, p2) /\ Same
At(c, tm, t) == LET u == tm[2] + tm[1] * t IN RhsNorm(c, [k \in 1..Dim(c) |-> c.rf[k][1] + c.rf[k][2] * u])
DoAt(t) == LET a == [p EXCEPT !.rhs = [i \in 1..N(p) |-> IF HasRf(p.cons[i]) THEN At(p.cons[i], p.tm[i], t) ELSE p.rhs[i]]] IN
   Do([op |-> "at", t |-> t, exp |-> ExpRhs(a)], a, p2) /\ Same

DoCheck(q) == /\ TRUE = ClearAt(p, q)
              /\ Do([op |-> "check", q |-> q, exp |-> [err |-> ErrV(p, q), ok |-> Sat(p, q),
                       each |-> [i \in 1..N(p) |-> Sat1(p, i, q)], eachErr |-> [i \in 1..N(p) |-> Err1(p, i, q)]]], p, p2)
              /\ Same
Solved(q) == Solve(ExSet(p), ExRhs(p), q)
\* frz: variables that the solver without substitution leaves alone
DoJac(q, frz) == /\ TRUE = SafeAt(p, Solved(q))
            /\ Do([op |-> "jac", q |-> Solved(q), frz |-> [v \in Vars |-> v \in frz], exp |-> [J |-> RedJ(p, Solved(q))] @@
                    (IF p.ex # <<>> THEN [J2 |-> <<>>, rd2 |-> -1] ELSE LET P == [p EXCEPT !.frz = frz] IN [J2 |-> RedJ(P, q), rd2 |-> RedDim(P)])], p, p2) /\ Same
\* the exact descent is only asked for small real-valued problems (32-bit integers)
SmallRows(P, q) == /\ \A i \in Range(Imps(P)) : \A k \in 1..Dim(P.cons[i]) : P.cons[i].to[k] = "R"
                   /\ \A l \in 1..Len(P.st) : LET rows == LevelRows(P, l, q) e == LevelErr(P, l, q) IN
                        /\ Len(rows) <= 3
                        /\ \A m \in 1..Len(rows) : Abs(e[m]) <= 9 /\ \A v \in Vars : Abs(rows[m][v]) <= 2
                   /\ Len(FV(P)) <= 4
DoStep(q) == LET s == Solved(q) IN
   /\ TRUE = (RedDim(p) > 0 /\ SafeAt(p, s) /\ SmallRows(p, s))
   /\ Do([op |-> "step", q |-> s, exp |-> [fixed |-> TRUE, Jdq |-> LET d == Descent(p, s) IN
         IF d.stop = "any" THEN "any" ELSE
         LET c == Flatten([l \in 1..Len(p.st) |-> MV(RatRows(p, LevelRows(p, l, s)), d.x)]) IN RatsJ(c)]], p, p2) /\ Same
DoProj(x, w, s) == LET q == Solved(w.q) rows == Flatten([l \in 1..Len(p.st) |-> LevelRows(p, l, q)])
                       v == [j \in 1..Len(FV(p)) |-> x[j] + Sum(LAMBDA m : w.w[((m - 1) % Len(w.w)) + 1] * rows[m][FV(p)[j]], 1, Len(rows))] IN
   Do([op |-> "proj", q |-> q, v |-> FreeVec(p, v, s), free |-> VIdxs(Free(p)), exp |-> [res |-> FreeVec(p, x, s)]], p, p2) /\ Same

Tight(P, q) == LET r == Flatten([l \in 1..Len(P.st) |-> LevelRows(P, l, q)]) IN
   Len(r) <= 5 /\ Len(FV(P)) <= 5 /\ (\A m \in 1..Len(r) : \A v \in Vars : Abs(r[m][v]) <= 3)
\* level errors at the end, rows of required and optional levels alike
FinalErr(P, q, x) == Flatten([k \in 1..Len(Imps(P)) |-> LET i == Imps(P)[k] c == P.cons[i] e == Err1(P, i, q) rows == RedRows(P, i, q) IN
   [r \in 1..Dim(c) |-> IF ~c.mask[r] THEN RZero ELSE IF rows = <<>> THEN Q(e[r])
       ELSE LET m == CHOOSE m \in 1..Len(ActRows(c)) : ActRows(c)[m] = r IN
            RAdd(Q(e[r]), RSum(LAMBDA j : RMul(Q(rows[m][FV(P)[j]]), x[j]), 1, Len(FV(P))))]])
DoSolve(q, maxIt, frz) == LET s == Solved(q) IN
   /\ TRUE = (Affine(p) /\ ~p.lbl /\ Tight(p, s))
   /\ \E o \in {Outcome(p, s, maxIt)}, P \in {[p EXCEPT !.frz = frz]} : \E h \in {IF p.ex = <<>> THEN OutcomeH(P, s, maxIt) ELSE [st |-> "none", x |-> <<>>]} :
      Do([op |-> "solve", q |-> q, maxIt |-> maxIt, frz |-> [v \in Vars |-> v \in frz], exp |-> [st |-> o.st, q |-> IF AnyBad(o.x) THEN "any" ELSE RatsJ(Moved(p, s, o.x)),
            lvl |-> IF AnyBad(o.x) THEN "any" ELSE RatsJ(FinalErr(p, s, o.x)),
            st2 |-> h.st, q2 |-> IF h.st = "none" THEN <<>> ELSE IF AnyBad(h.x) THEN "any" ELSE RatsJ(Moved(P, s, h.x))]], p, p2) /\ Same

(* ------------------------------------------------- one step within bounds *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the value of the free variables is clamped after the step; outputs of explicit constraints follow (they may be outside)
ClampR(x, lo, hi) == IF IsBad(x) THEN x ELSE IF RLess(x, Q(lo)) THEN Q(lo) ELSE IF RLess(Q(hi), x) THEN Q(hi) ELSE x
SatAt(q, lo, hi) == [v \in Vars |-> IF Types[v] # "R" THEN 0 ELSE IF q[v] <= lo[v] THEN -1 ELSE IF q[v] >= hi[v] THEN 1 ELSE 0]
Bounded(P, q, lo, hi) ==
  LET z == [j \in 1..Len(FV(P)) |-> RZero] T == Q(P.thr * P.thr) e0 == WorstSq(P, q, z)
      x == SolveStep([P EXCEPT !.sat = SatAt(q, lo, hi)], q)
      y == [j \in 1..Len(FV(P)) |-> LET v == FV(P)[j] IN RAdd(ClampR(RAdd(Q(q[v]), x[j]), lo[v], hi[v]), RNeg(Q(q[v])))]
  IN IF IsBad(e0) \/ AnyBad(x) THEN <<Bad>> ELSE IF ~RLess(T, e0) \/ RedDim(P) = 0 THEN <<Bad>>
     ELSE IF \A j \in 1..Len(x) : x[j] = RZero THEN z ELSE y
DoBounded(q, lo, hi) == LET s == Solved(q) IN
   /\ TRUE = (Affine(p) /\ ~p.lbl /\ Tight(p, s))
   /\ \E x \in {Bounded(p, s, lo, hi)} :
      Do([op |-> "bstep", q |-> q, lo |-> lo, hi |-> hi, exp |-> [inside |-> TRUE, q |-> IF AnyBad(x) THEN "any" ELSE RatsJ(Moved(p, s, x)),
          q2 |-> IF p.ex # <<>> THEN <<>> ELSE IF AnyBad(x) THEN "any" ELSE RatsJ(Moved(p, s, x))],
          free |-> [v \in Vars |-> v \notin Out(p)]], p, p2) /\ Same

\* an execution of a solver, recorded and checked against SolveLoop (SolveTrace); the returned configuration is judged
\* from the description of the constraints given here
\* an explicit function may be undefined where its first variable is greater than a limit (99: defined everywhere)
Judged(P, lim) == [i \in 1..N(P) |-> [id |-> P.cons[i].id, lim |-> lim[i], rhs |-> P.rhs[i], ex |-> IsEx(P, i), req |-> i \in Required(P),
                cost |-> P.opt /\ Len(P.st) > 0 /\ (\E k \in 1..Len(P.st[Len(P.st)]) : P.st[Len(P.st)][k] = i)]]
DoRun(o) == Do([op |-> "run", o |-> o, j |-> Judged(p, o.lim), ineq |-> p.ineq, dim0 |-> RedDim(p) = 0, levels |-> Len(p.st),
                out |-> [v \in Vars |-> v \in Out(p)], used |-> [v \in Vars |-> v \in UsedFree(p)],
                exp |-> [clean |-> TRUE]], p, p2) /\ Same

Init == /\ p = Empty /\ p2 = Empty /\ known = <<>> /\ last = [op |-> "init"]
        /\ hist = <<[op |-> "space", types |-> Types, unitless |-> ~Solving]>>

(* ------------------------------------------------ exhaustive exploration *)
Rows2(n, m, s) == [k \in 1..n |-> [j \in 1..m |-> ((k * 2 + j + s) % 4) - 1]]
Imp(id, ins, to, comp, mask, s) == [kind |-> "imp", id |-> id, ins |-> ins, to |-> to, comp |-> comp, mask |-> mask, lo |-> 0, hi |-> 0,
   A |-> Rows2(Len(to), Len(ins), s), b |-> [k \in 1..Len(to) |-> (k + s) % 3], c |-> [k \in 1..Len(to) |-> (k + s) % 2], rf |-> <<>>]
Exp(id, ins, lo, hi, comp, mask, s) == [kind |-> "exp", id |-> id, ins |-> ins, to |-> [k \in 1..(hi - lo + 1) |-> Types[lo + k - 1]], comp |-> comp, mask |-> mask,
   lo |-> lo, hi |-> hi, A |-> Rows2(hi - lo + 1, Len(ins), s), b |-> [k \in 1..(hi - lo + 1) |-> (k + s) % 3], c |-> [k \in 1..(hi - lo + 1) |-> 0], rf |-> <<>>]
WithRf(c, s) == [c EXCEPT !.rf = [k \in 1..Dim(c) |-> <<s, (k % 2) + 1>>]]
T == TRUE
F == FALSE
\* for Types = <<"R", "C", "R", "S", "R">>
Pool == { Imp(1, <<1, 3>>, <<"R">>, <<"Equality">>, <<T>>, 0),
          Imp(2, <<1, 5>>, <<"R", "R">>, <<"Superior", "Equality">>, <<T, T>>, 1),
          Imp(3, <<2>>, <<"C", "R">>, <<"Equality", "Inferior">>, <<T, F>>, 2),
          WithRf(Imp(4, <<5>>, <<"C", "R">>, <<"Equality", "Equality">>, <<T, T>>, 3), 1),
          Imp(5, <<1, 2, 3>>, <<"R", "R", "R">>, <<"EqualToZero", "Superior", "Inferior">>, <<F, T, T>>, 1),
          WithRf(Exp(6, <<1, 2>>, 3, 3, <<"Equality">>, <<T>>, 1), -1),
          Exp(7, <<5>>, 1, 2, <<"Equality", "EqualToZero">>, <<T, F>>, 2),
          Exp(8, <<3>>, 5, 5, <<"EqualToZero">>, <<T>>, 0),
          Exp(9, <<>>, 2, 3, <<"Equality", "Equality">>, <<T, T>>, 1),
          Exp(10, <<1>>, 5, 5, <<"Superior">>, <<T>>, 2),
          Exp(11, <<1>>, 5, 5, <<"Equality">>, <<F>>, 1) }
QV(s) == [v \in Vars |-> IF Types[v] = "C" THEN (s + v) % 4 ELSE IF Types[v] = "S" THEN 0 ELSE ((s * v) % 5) - 2]
RhsV(c, s) == RhsNorm(c, [k \in 1..Dim(c) |-> IF c.to[k] = "C" THEN ((k + s) % 3) - 1 ELSE ((s * k + c.id) % 5) - 2])
Adding == N(p) < MaxCons
Next == \/ (\A i \in 1..N(p) : p.rhs[i] = ZeroR(p.cons[i])) /\ p.thr = 1 /\ p2 = Empty /\
           \/ \E c \in Pool, prio \in 0..MaxPrio : Adding /\ DoAdd(c, prio, FALSE)
           \/ \E i \in 1..N(p) : DoAdd(p.cons[i], 1, i % 2 = 0)
           \/ \E i \in 1..N(p) : DoSetRhs(i, RhsV(p.cons[i], 1), FALSE)
           \/ \E t \in {2, -1} : DoAt(t)
           \/ \E s \in {1} : DoFrom(QV(s))
           \/ \E i \in 1..N(p) : DoFrom1(i, QV(2))
           \/ \E i \in 1..N(p) : DoSetAll([j \in 1..N(p) |-> RhsV(p.cons[j], i)])
           \/ \E i \in 1..Len(known) : DoSetUnknown(i)
           \/ DoOpts([thr |-> 2, ineq |-> 1, opt |-> TRUE, lbl |-> FALSE])
           \/ DoCopy \/ DoExtract(1, 3) \/ DoExtract(2, -1)
        \/ (p2 # Empty /\ DoSwap)
        \/ \E s \in {1, 2} : DoCheck(QV(s)) \/ DoJac(QV(s), IF s = 1 THEN {} ELSE {1, 2}) \/ DoStep(QV(s))
        \/ DoCheck(Solved(QV(3)))
        \/ \E k \in (IF Saves THEN {"text", "xml", "binary"} ELSE {}) : DoSave(k, N(p) % 2 = 0, k = "xml")
        \/ DoReread
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------ random behaviours *)
R(X) == IF hist = <<>> THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
RQ == TLCEval([v \in Vars |-> IF Types[v] = "C" THEN R(0..3) ELSE IF Types[v] = "S" THEN 0 ELSE R(-2..2)])
RSub_(X, num, den) == TLCEval({v \in X : R(1..den) <= num})
RRange == R({r \in Act \X Act : r[1] <= r[2] /\ r[2] <= r[1] + 2 /\ (\A u \in r[1]..r[2] : u \in Act)})
NewId == Len(known) + 1
RMask(n) == LET z == R(1..4) IN [k \in 1..n |-> z > 1 \/ R(1..2) = 1]
RRf(n, to, ok) == IF ok /\ R(1..2) = 1 THEN [k \in 1..n |-> IF LinearOnly \/ to[k] = "R" THEN <<R(-2..2), R(-2..2)>> ELSE <<R(-1..2), R(-1..1)>>] ELSE <<>>
RImp == LET n == R(1..3) ins == SetToSortSeq(RSub_(Act, 2, 4), <) to == TLCEval([k \in 1..n |-> IF ~LinearOnly /\ R(1..4) = 1 THEN "C" ELSE "R"])
            eqs == R(1..2) = 1
            comp == TLCEval([k \in 1..n |-> IF eqs THEN "Equality" ELSE IF to[k] = "C" THEN R({"Equality", "EqualToZero"}) ELSE R({"Equality", "Equality", "EqualToZero", "Superior", "Inferior"})])
        IN TLCEval([kind |-> "imp", id |-> NewId, ins |-> ins, to |-> to, comp |-> comp, mask |-> RMask(n), lo |-> 0, hi |-> 0,
             A |-> [k \in 1..n |-> [j \in 1..Len(ins) |-> R(-1..1)]], b |-> [k \in 1..n |-> R(-2..2)],
             c |-> [k \in 1..n |-> IF ~LinearOnly /\ R(1..4) = 1 THEN 1 ELSE 0], rf |-> RRf(n, to, eqs)])
RExp == LET r == RRange n == r[2] - r[1] + 1 ins == SetToSortSeq(RSub_(Act \ (IF R(1..15) = 1 THEN {} ELSE r[1]..r[2]), 2, 5), <)
            eqs == R(1..2) = 1
            to == TLCEval([k \in 1..n |-> Types[r[1] + k - 1]])
            comp == TLCEval([k \in 1..n |-> IF eqs THEN "Equality" ELSE LET z == R(1..30) IN IF z = 1 /\ to[k] = "R" THEN "Inferior" ELSE IF z = 2 /\ to[k] = "R" THEN "Superior" ELSE IF z < 11 THEN "EqualToZero" ELSE "Equality"])
        IN TLCEval([kind |-> "exp", id |-> NewId, ins |-> ins, to |-> to, comp |-> comp, mask |-> RMask(n), lo |-> r[1], hi |-> r[2],
             A |-> [k \in 1..n |-> [j \in 1..Len(ins) |-> R(-1..1)]], b |-> [k \in 1..n |-> R(-2..2)],
             c |-> [k \in 1..n |-> IF ~LinearOnly /\ R(1..4) = 1 THEN 1 ELSE 0], rf |-> IF \A k \in 1..n : to[k] = "R" THEN RRf(n, to, eqs) ELSE <<>>])
RRhs(c) == RhsNorm(c, TLCEval([k \in 1..Dim(c) |-> IF c.to[k] = "C" THEN (IF c.kind = "imp" THEN R(0..3) ELSE R(-1..1)) ELSE R(-3..3)]))
OkBd(P) == LET s == ExSet(P) IN \A v \in Vars : Bd(s, v) < 1000
SimAdd(c, prio, dup) == IF N(p) < MaxCons /\ OkBd(AddTo(p, c, prio)) THEN DoAdd(c, prio, dup) ELSE DoReread
Variant(c) == [c EXCEPT !.comp = [k \in 1..Dim(c) |-> IF c.comp[k] = "Equality" THEN "EqualToZero" ELSE "Equality"], !.rf = <<>>]
\* one successor is computed per step: the action is drawn first
Adds(k) ==
  CASE k <= 3 -> \E c \in {RImp}, pr \in {R(0..MaxPrio)} : SimAdd(c, pr, FALSE)
    [] k <= 6 -> \E c \in {RExp}, pr \in {R(0..MaxPrio)} : SimAdd(c, pr, FALSE)
    [] k = 7 -> IF Len(known) > 0 THEN \E i \in {R(1..Len(known))}, pr \in {R(0..MaxPrio)}, d \in {R({TRUE, FALSE})} : SimAdd(known[i], pr, d)
                ELSE \E c \in {RImp} : SimAdd(c, 0, FALSE)
    [] OTHER -> \E i \in {R(0..N(p))} :
         IF i > 0 /\ ~IsEx(p, i) /\ p.cons[i].kind = "imp" /\ KnownIdx(Variant(p.cons[i])) = {} THEN
           LET c == Variant(p.cons[i]) IN
             Do([op |-> "add", c |-> c, prio |-> 0, dup |-> FALSE, exp |-> [ret |-> "refused"] @@ Whole(p, p2, known)], p, p2) /\ Same
         ELSE DoReread
Changing(k) ==
  CASE k >= 8 -> \E kd \in {R({"text", "xml", "binary"})}, bd \in {R({TRUE, FALSE})}, ptr \in {R({TRUE, FALSE})} : DoSave(kd, bd, ptr)
    [] k = 1 -> IF N(p2) > 0 /\ CanMerge /\ OkBd(MergeFrom(p, p2, 1)) THEN DoMerge ELSE DoCopy
    [] k = 2 -> DoCopy
    [] k <= 4 -> IF N(p2) > 0 THEN DoSwap ELSE DoExtract(3, 1)
    [] k = 5 -> \E a \in {R(-2..0)}, b \in {R(1..3)}, rev \in {R({TRUE, FALSE})} : IF rev THEN DoExtract(b, a) ELSE DoExtract(a, b)
    [] OTHER -> \E o \in {TLCEval([thr |-> R(1..5), ineq |-> R(0..2), opt |-> R({TRUE, FALSE}), lbl |-> R(1..3) = 1])} : DoOpts(o)
Few(P(_)) == {q \in {RQ, RQ, RQ} : P(q)}
Setting(k) ==
  CASE k <= 2 -> \E i \in {R(1..N(p))}, d \in {R({TRUE, FALSE})} : \E v \in {RRhs(p.cons[i])} : DoSetRhs(i, v, d)
    [] k = 3 -> \E r \in {TLCEval([i \in 1..N(p) |-> RRhs(p.cons[i])])} : DoSetAll(r)
    [] k = 4 -> \E i \in {R(1..Len(known))} : IF \E j \in 1..N(p) : p.cons[j].id = known[i].id THEN DoReread ELSE DoSetUnknown(i)
    [] k = 5 -> \E s \in {Few(LAMBDA q : \A i \in 1..N(p) : SafeVal(p.cons[i], q))} : IF s = {} THEN DoReread ELSE \E q \in {R(s)} : DoFrom(q)
    [] k = 6 -> \E i \in {R(1..N(p))}, q \in {RQ} : IF SafeVal(p.cons[i], q) THEN DoFrom1(i, q) ELSE DoReread
    [] OTHER -> IF \E i \in 1..N(p) : HasRf(p.cons[i]) THEN \E t \in {R(-3..3)} : DoAt(t) ELSE DoReread
Asking(k) ==
  CASE k <= 2 -> \E s \in {Few(LAMBDA q : ClearAt(p, q))} : IF s = {} THEN DoReread ELSE \E q \in {R(s)} : DoCheck(q)
    [] k = 3 -> \E s \in {{q \in {Solved(RQ), Solved(RQ)} : ClearAt(p, q)}} : IF s = {} THEN DoReread ELSE \E q \in {R(s)} : DoCheck(q)
    [] k <= 5 -> \E s \in {Few(LAMBDA q : SafeAt(p, Solved(q)))} : IF s = {} THEN DoReread ELSE \E q \in {R(s)}, f \in {IF R(1..2) = 1 THEN {} ELSE RSub_(Act, 1, 3)} : DoJac(q, f)
    [] k = 6 -> IF RedDim(p) = 0 THEN DoReread ELSE
                \E s \in {Few(LAMBDA q : SafeAt(p, Solved(q)) /\ SmallRows(p, Solved(q)))} : IF s = {} THEN DoReread ELSE \E q \in {R(s)} : DoStep(q)
    [] k >= 11 -> IF ~LinearOnly \/ p.lbl THEN DoReread ELSE
         \E q \in {RQ}, lo \in {TLCEval([v \in Vars |-> R(-2..1)])}, w \in {TLCEval([v \in Vars |-> R(0..2)])} :
         \E y \in {TLCEval([v \in Vars |-> IF Types[v] = "R" /\ R(1..4) > 1 THEN Clamp(q[v], lo[v], lo[v] + w[v]) ELSE q[v]])} :
         IF Affine(p) /\ Tight(p, Solved(y)) THEN DoBounded(y, lo, [v \in Vars |-> lo[v] + w[v]]) ELSE DoReread
    [] k >= 8 -> IF ~LinearOnly \/ p.lbl THEN DoReread ELSE \E q \in {RQ}, mi \in {R({0, 1, 2, 20, 20, 20})}, f \in {IF R(1..2) = 1 THEN {} ELSE RSub_(Act, 1, 3)} :
                 IF Affine(p) /\ Tight(p, Solved(q)) THEN DoSolve(q, mi, f) ELSE DoReread
    [] OTHER -> IF RedDim(p) = 0 THEN DoReread ELSE
       \E s \in {Few(LAMBDA q : SafeAt(p, Solved(q)))} : IF s = {} THEN DoReread ELSE
       \E q \in {R(s)}, w \in {TLCEval([k2 \in 1..3 |-> R(-2..2)])}, f \in {TLCEval([k2 \in 1..3 |-> R(-1..1)])} :
        LET rows == Flatten([l \in 1..Len(p.st) |-> LevelRows(p, l, Solved(q))]) IN
        \E x \in {R(Kernel(p, rows))} : DoProj(x, [q |-> q, w |-> w], f)
RRun == LET so == R({"constant", "backtracking", "fixed", "norm"}) z == R(1..4) IN
   TLCEval([ls |-> so, maxIt |-> R({0, 1, 2, 3, 10, 40, 40}), den |-> R({1, 1, 10, 100, 10000}), q |-> RQ,
     lim |-> LET some == R(1..3) = 1 IN [i \in 1..N(p) |-> IF some /\ IsEx(p, i) /\ p.cons[i].ins # <<>> /\ Types[p.cons[i].ins[1]] = "R" THEN R({99, -1, 0, 1, 2, 3}) ELSE 99],
     again |-> R(1..4) = 1, pert |-> R(0..4), opt |-> p.opt /\ R(1..2) = 1, h |-> p.ex = <<>> /\ R(1..2) = 1,
     frozen |-> RSub_(Act, 1, 4), lo |-> IF z = 1 THEN R({-3, -2, -1}) ELSE -100, hi |-> IF z = 1 THEN R({0, 1, 2}) ELSE 100])
SimNext == /\ Len(hist) < Depth
           /\ IF Solving /\ N(p) > 0 /\ R(1..2) = 1 THEN \E o \in {RRun} : DoRun([o EXCEPT !.frozen = [v \in Vars |-> o.h /\ v \in o.frozen]])
              ELSE IF N(p) = 0 THEN \E k \in {R(1..7)} : Adds(k)
              ELSE IF N(p) < MaxCons /\ R(1..4) = 1 THEN \E k \in {R(1..8)} : Adds(k)
              ELSE \E g \in {R(1..8)} : CASE g = 1 -> \E k \in {R(1..(IF Saves THEN 11 ELSE 7))} : Changing(k)
                                         [] g <= 4 -> \E k \in {R(1..8)} : Setting(k)
                                         [] OTHER -> IF Solving THEN \E k \in {R(1..8)} : Setting(k) ELSE \E k \in {R(1..(IF LinearOnly THEN 13 ELSE 7))} : Asking(k)
SimSpec == Init /\ [][SimNext]_vars

(* ------------------------------------------------ properties of the design *)
\* every constraint is at exactly one place
Placed == \A i \in 1..N(p) : Cardinality({k \in 1..Len(p.ex) : p.ex[k] = i})
            + Cardinality({m \in (1..Len(p.st)) \X (1..N(p)) : m[2] <= Len(p.st[m[1]]) /\ p.st[m[1]][m[2]] = i}) = 1
NoDup == \A i, j \in 1..N(p) : i # j => p.cons[i].id # p.cons[j].id
Partition == \A v \in Vars : Cardinality(Owner(ExSet(p), v)) <= 1
Acyclic == \A v \in Out(p) : v \notin Ancestors(ExSet(p), UNION {Ins(ExSet(p)[i]) : i \in Owner(ExSet(p), v)})
RhsShape == \A i \in 1..N(p) : p.rhs[i] = RhsNorm(p.cons[i], p.rhs[i])
\* right-hand sides read off a configuration leave no error on equality components
FromOk == last.op = "from" => \A i \in 1..N(p) : \A k \in 1..Dim(p.cons[i]) :
             p.cons[i].comp[k] = "Equality" => Diff(p.cons[i], last.q, p.rhs[i])[k] = 0
\* resolving makes every explicit constraint exactly satisfied
ResolveOk == \A q \in {QV(1), QV(2)} : \A k \in 1..Len(p.ex) : Safe(p.cons[p.ex[k]], Solved(q)) =>
               LET d == Diff(p.cons[p.ex[k]], Solved(q), p.rhs[p.ex[k]]) IN
               \A m \in 1..Len(d) : d[m] = 0 \/ (p.cons[p.ex[k]].to[m] = "C" /\ d[m] % 4 = 0)
Emit == IF Mode = "bfs" THEN PrintT(ToJson(Append(hist, last'))) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
============================================================================
