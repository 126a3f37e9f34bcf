------------------------------ MODULE Placement ------------------------------
(* Constraints that give the configuration of a joint: relative poses of a    *)
(* free-flying joint, and joints (or part of them, or variables that are not  *)
(* those of a joint) locked at a value.  Poses and values are also given by    *)
(* plain functions: "rel" and "const".                                        *)
(*                                                                           *)
(* State: a robot, where it stands, and a pool of constraints.  Each one      *)
(* has two forms that must agree: a function of the whole configuration, and  *)
(* a map from its input variables and a right hand side to its output         *)
(* variables.                                                                 *)
EXTENDS Pose
CONSTANTS Mode, Depth, Saves
VARIABLES cons, last
vars == <<rb, ext, cons, last, hist>>
bfsview == <<rb, cons, last>>
Strip(rec) == IF Mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec
Vec(t) == t \in {"PX", "PY", "PZ", "T3"}
Turn(t) == t \in {"RX", "RY", "RZ"}
Values(t, x) == IF t = "T3" THEN x ELSE <<x>>

(* ----------------------------------------------------------- relative poses *)
Inputs(c) == IF c.kind \in {"pose", "rel"} THEN OnPath(c.j1, rb[c.j2].parent) ELSE {}
\* a right hand side holds the rows compared to a value, and no other one
Held(c, X) == [t |-> [k \in D3 |-> IF c.comp[k] = "E" THEN X.t[k] ELSE 0], R |-> IF c.comp[4] = "E" THEN X.R ELSE Id3]

(* ------------------------------------------------------------ locked joints *)
\* dl: an increment; a number of units per translation, k quarter turns about axis m
Plus(t, x, dl) == CASE t = "T3" -> VPlus(x, dl.d) [] Vec(t) -> x + dl.d[1] [] Turn(t) -> x + dl.k [] t = "S" -> Mul(x, RQ(dl.m, dl.k))
                    [] OTHER -> PMul(x, IF dl.k # 0 THEN [R |-> RQ(dl.m, dl.k), t |-> Zero3] ELSE [R |-> Id3, t |-> dl.d])
Conf(t, x) == CASE Vec(t) -> [v |-> Values(t, x)] [] Turn(t) -> [qt |-> x % 4] [] t = "S" -> [R |-> x] [] OTHER -> x
\* increment from a to b
Diff(t, a, b) == CASE t = "T3" -> [v |-> VMinus(b, a)] [] Vec(t) -> [v |-> <<b - a>>] [] Turn(t) -> [qt |-> (b - a) % 4]
                   [] t = "S" -> [R |-> Mul(Trans(a), b)] [] OTHER -> PMul(PInv(a), b)
\* values of the variables of a constraint on numbers
At(c, qq, e) == IF c.kind = "extra" THEN [i \in 1..Len(c.v) |-> e[c.index + i]] ELSE LET x == Values(rb[c.j].type, qq[c.j]) IN [i \in 1..Len(c.v) |-> x[c.index + i]]
\* a function of the variables on the path to joint 1, whose value is a pose of joint 2
Given(c, qq) == Placed(c, Poses(rb, qq), IdP)
Step(dl) == IF dl.k # 0 THEN [R |-> RQ(dl.m, dl.k), t |-> Zero3] ELSE [R |-> Id3, t |-> dl.d]
GivenVel(c, qq, X) == Map(PlacedVel(c, Poses(rb, qq), IdP), LAMBDA w : LET a == AdInv(X, <<w[1], w[2], w[3]>>, <<w[4], w[5], w[6]>>) IN a[1] \o a[2])
ByFn(c) == c.kind \in {"rel", "const"}
\* what it keeps of the difference between its output and its function
Kept(c, X) == IF c.hold THEN X ELSE IdP
\* a set of explicit constraints only takes outputs that follow each other
Whole(c) == c.kind = "const" => \A i \in 2..Len(c.js) : c.js[i] = c.js[i - 1] + 1
OutType(c, i) == rb[c.js[i]].type
Each(c, f(_)) == [parts |-> TLCEval([i \in 1..Len(c.js) |-> f(i)])]
Shifted(v, d) == [i \in 1..Len(v) |-> v[i] + d[((i - 1) % 3) + 1]]

(* --------------------------------------------------------------- both forms *)
Out(c, qq, r) == CASE c.kind = "pose" -> Placed(c, Poses(rb, qq), r) [] c.kind = "lock" -> Conf(rb[c.j].type, Plus(rb[c.j].type, c.x, r))
   [] c.kind = "rel" -> PMul(Given(c, qq), Step(r)) [] c.kind = "const" -> Each(c, LAMBDA i : Conf(OutType(c, i), Plus(OutType(c, i), c.xs[i], r))) [] OTHER -> [v |-> Shifted(c.v, r.d)]
OutJac(c, qq, r) == IF c.kind \notin {"pose", "rel"} \/ Inputs(c) = {} THEN <<>> ELSE LET V == IF c.kind = "rel" THEN GivenVel(c, qq, Step(r)) ELSE PlacedVel(c, Poses(rb, qq), r) S == Inputs(c) IN
   RowsOf(Cat([k \in Cols |-> IF OwnerOf(rb, k) \in S THEN <<V[k]>> ELSE <<>>]), 6)
Fn(c, qq, e) == CASE c.kind = "pose" -> Rel(c, Poses(rb, qq)) [] c.kind = "lock" -> Diff(rb[c.j].type, c.x, qq[c.j])
   [] c.kind = "rel" -> PMul(PInv(Given(c, qq)), qq[c.j2]) [] c.kind = "const" -> Each(c, LAMBDA i : Diff(OutType(c, i), c.xs[i], qq[c.js[i]]))
   [] OTHER -> [v |-> LET y == At(c, qq, e) IN [i \in 1..Len(c.v) |-> y[i] - c.v[i]]]
Zero6 == <<0, 0, 0, 0, 0, 0>>
FirstOf(c) == CASE c.kind = "extra" -> RNV(rb) + c.index [] c.kind = "part" -> JVOff(rb, c.j) + c.index [] OTHER -> JVOff(rb, c.j)
FnJac(c, qq, e) == IF c.kind = "pose" THEN LET V == RelVel(c, Poses(rb, qq)) IN [rows |-> Wide(RowsOf(Map(V, LAMBDA x : x.v \o x.wb), 6))]
   ELSE IF c.kind = "rel" THEN LET X == Fn(c, qq, e) V == GivenVel(c, qq, X) S == Inputs(c) o == JVOff(rb, c.j2) IN
        [diff |-> X, cols |-> [k \in 1..(RNV(rb) + ext) |-> IF k > RNV(rb) THEN Zero6 ELSE IF OwnerOf(rb, k) = c.j2 THEN [i \in 1..6 |-> IF i = k - o THEN 1 ELSE 0]
                                                          ELSE IF OwnerOf(rb, k) \in S THEN [i \in 1..6 |-> -V[k][i]] ELSE Zero6]]
   ELSE IF c.kind = "const" THEN Each(c, LAMBDA i : [diff |-> Diff(OutType(c, i), c.xs[i], qq[c.js[i]]), first |-> JVOff(rb, c.js[i]), size |-> RNV(rb) + ext])
   ELSE [diff |-> Fn(c, qq, e), first |-> FirstOf(c), size |-> RNV(rb) + ext]
\* the configuration it gives when it is made to hold what it holds at q1
Solved(c, q1, e1, q2) == CASE c.kind = "pose" -> Placed(c, Poses(rb, q2), Held(c, Rel(c, Poses(rb, q1)))) [] c.kind = "lock" -> Conf(rb[c.j].type, q1[c.j])
   [] c.kind = "rel" -> PMul(Given(c, q2), Kept(c, PMul(PInv(Given(c, q1)), q1[c.j2]))) [] c.kind = "const" -> Each(c, LAMBDA i : Conf(OutType(c, i), IF c.hold THEN q1[c.js[i]] ELSE c.xs[i])) [] OTHER -> [v |-> At(c, q1, e1)]
\* the logarithm of a half turn is not determined: neither is the verdict on what holds one
Half(r) == r[1][1] + r[2][2] + r[3][3] = -1
HoldsHalf(c, q1) == IF ~ByFn(c) THEN FALSE ELSE c.hold /\ IF c.kind = "rel" THEN Half(PMul(PInv(Given(c, q1)), q1[c.j2]).R)
                    ELSE \E i \in 1..Len(c.js) : CASE Turn(OutType(c, i)) -> (q1[c.js[i]] - c.xs[i]) % 4 = 2 [] OutType(c, i) = "S" -> Half(Mul(Trans(c.xs[i]), q1[c.js[i]]))
                                                     [] OutType(c, i) = "FF" -> Half(Mul(Trans(c.xs[i].R), q1[c.js[i]].R)) [] OTHER -> FALSE
ExtFlags(c, on) == IF c.kind = "extra" /\ on THEN [i \in 1..ext |-> c.index < i /\ i <= c.index + Len(c.v)] ELSE [i \in 1..ext |-> FALSE]
Chosen(c, S, n(_), on) == Cat([k \in 1..Len(rb) |-> [i \in 1..n(k) |-> k \in S /\ (c.kind = "part" /\ on => c.index < i /\ i <= c.index + Len(c.v))]]) \o ExtFlags(c, on)
Owned(c) == CASE c.kind \in {"pose", "rel"} -> {c.j2} [] c.kind = "const" -> {c.js[i] : i \in 1..Len(c.js)} [] c.kind = "extra" -> {} [] OTHER -> {c.j}
Info(c) == LET nq(k) == JNQ(rb[k].type) nv(k) == JNV(rb[k].type) IN
   [inC |-> Chosen(c, Inputs(c), nq, FALSE), inV |-> Chosen(c, Inputs(c), nv, FALSE), outC |-> Chosen(c, Owned(c), nq, TRUE), outV |-> Chosen(c, Owned(c), nv, TRUE),
    pair |-> CASE c.kind = "pose" -> IF \A k \in 1..6 : c.mask[k] THEN (IF c.j1 <= c.j2 THEN <<c.j1, c.j2>> ELSE <<c.j2, c.j1>>) ELSE <<0, 0>>
               [] c.kind = "lock" -> <<rb[c.j].parent, c.j>> [] c.kind = "rel" -> IF Inputs(c) = {} THEN <<rb[c.j2].parent, c.j2>> ELSE <<0, 0>>
               [] c.kind = "const" -> IF Len(c.js) = 1 /\ OutType(c, 1) = "FF" THEN <<rb[c.js[1]].parent, c.js[1]>> ELSE <<0, 0>> [] OTHER -> <<0, 0>>,
    \* joints whose relative pose matters to the function, and to the map
    dep |-> CASE c.kind = "pose" -> IF c.j1 <= c.j2 THEN <<c.j1, c.j2>> ELSE <<c.j2, c.j1>> [] c.kind = "lock" -> <<rb[c.j].parent, c.j>> [] c.kind = "rel" -> IF Inputs(c) = {} THEN <<rb[c.j2].parent, c.j2>> ELSE <<0, 0>>
              [] c.kind = "const" -> IF Len(c.js) = 1 THEN <<rb[c.js[1]].parent, c.js[1]>> ELSE <<0, 0>> [] c.kind = "part" -> IF Len(c.v) = JNQ(rb[c.j].type) THEN <<rb[c.j].parent, c.j>> ELSE <<0, 0>> [] OTHER -> <<0, 0>>,
    xdep |-> IF c.kind \in {"pose", "rel"} THEN (IF c.j1 <= c.j2 THEN <<c.j1, c.j2>> ELSE <<c.j2, c.j1>>) ELSE <<0, 0>>,
    nv |-> CASE c.kind \in {"pose", "rel"} -> 6 [] c.kind = "const" -> FoldLeft(LAMBDA a, i : a + JNV(rb[i].type), 0, c.js) [] c.kind = "lock" -> JNV(rb[c.j].type) [] OTHER -> Len(c.v)]

(* ------------------------------------ a problem: one implicit, one explicit *)
\* the function of pose constraint c, made to hold what it holds at q1, where explicit constraint d (made to hold what it
\* holds at q1) is resolved: error and derivative with respect to the variables left free.  d = <<>>: no explicit constraint
Put(qq, j, x) == [qq EXCEPT ![j] = x]
Resolved(d, q1, q2) == IF d = <<>> THEN q2 ELSE CASE d.kind = "pose" -> Put(q2, d.j2, Placed(d, Poses(rb, q2), Held(d, Rel(d, Poses(rb, q1)))))
   [] d.kind = "rel" -> Put(q2, d.j2, Solved(d, q1, <<>>, q2)) [] d.kind = "const" -> FoldLeft(LAMBDA z, i : Put(z, d.js[i], IF d.hold THEN q1[d.js[i]] ELSE d.xs[i]), q2, [i \in 1..Len(d.js) |-> i])
   [] d.kind = "lock" -> Put(q2, d.j, q1[d.j])
   [] d.kind = "part" -> Put(q2, d.j, IF rb[d.j].type = "T3" THEN [i \in D3 |-> IF d.index < i /\ i <= d.index + Len(d.v) THEN q1[d.j][i] ELSE q2[d.j][i]] ELSE q1[d.j]) [] OTHER -> q2
OutCol(d, k) == IF d = <<>> THEN FALSE ELSE CASE d.kind = "extra" -> (k > RNV(rb) + d.index /\ k <= RNV(rb) + d.index + Len(d.v))
   [] d.kind = "part" -> (k > JVOff(rb, d.j) + d.index /\ k <= JVOff(rb, d.j) + d.index + Len(d.v))
   [] OTHER -> k <= RNV(rb) /\ OwnerOf(rb, k) \in Owned(d)
FreeCols(d) == SelectSeq([k \in 1..(RNV(rb) + ext) |-> k], LAMBDA k : ~OutCol(d, k))
Task(c, d, q1, q2) == LET qq == Resolved(d, q1, q2) X1 == Held(c, Rel(c, Poses(rb, q1))) X2 == Rel(c, Poses(rb, qq)) V == RelVel(c, Poses(rb, qq))
                          W == IF d # <<>> /\ d.kind = "pose" THEN PlacedVel(d, Poses(rb, q2), Held(d, Rel(d, Poses(rb, q1)))) ELSE IF d # <<>> /\ d.kind = "rel" THEN GivenVel(d, q2, Kept(d, PMul(PInv(Given(d, q1)), q1[d.j2]))) ELSE <<>>
                          o == IF d # <<>> /\ d.kind \in {"pose", "rel"} THEN JVOff(rb, d.j2) ELSE 0
                          row(k, f(_)) == IF k > RNV(rb) THEN Zero3 ELSE IF W = <<>> \/ OwnerOf(rb, k) = d.j2 THEN f(V[k])
                             ELSE VPlus(f(V[k]), FoldLeft(LAMBDA a, m : VPlus(a, VScale(W[k][m], f(V[o + m]))), Zero3, <<1, 2, 3, 4, 5, 6>>)) IN
   [mask |-> c.mask, err |-> [t |-> VMinus(X2.t, X1.t), R |-> Mul(Trans(X1.R), X2.R)],
    pos |-> RowsOf(Map(FreeCols(d), LAMBDA k : row(k, LAMBDA x : x.v)), 3), ang |-> RowsOf(Map(FreeCols(d), LAMBDA k : row(k, LAMBDA x : x.wb)), 3)]

Same(c, d) == c.kind = d.kind /\ CASE c.kind = "lock" -> c.j = d.j /\ (c.j = d.j => c.x = d.x) [] c.kind = "const" -> c.hold = d.hold /\ c.js = d.js /\ (c.js = d.js => c.xs = d.xs) [] OTHER -> c = d

(* ------------------------------------------------------------------ actions *)
Do(rec, b, x, C) == /\ rb' = b /\ ext' = x /\ cons' = C /\ last' = rec /\ hist' = Append(hist, Strip(rec))
DoRobot(b, x) == Do([op |-> "robot", joints |-> b, extra |-> x], b, x, <<>>)
DoMk(c) == Do([op |-> "mk", c |-> c], rb, ext, Append(cons, c))
DoCopy(i) == Do([op |-> "copy", i |-> i], rb, ext, Append(cons, cons[i]))
\* a constraint restored from an archive is as the one that was saved
DoSave(i, a) == Do([op |-> "save", i |-> i, ar |-> a, exp |-> [saved |-> TRUE]], rb, ext, Append(cons, cons[i]))
DoConf(qq) == Do([op |-> "conf", q |-> qq], rb, ext, cons)
DoInfo(i) == Do([op |-> "info", i |-> i, exp |-> Info(cons[i])], rb, ext, cons)
DoOut(i, qq, r) == Do([op |-> "out", i |-> i, q |-> qq, r |-> r, exp |-> [out |-> Out(cons[i], qq, r)]], rb, ext, cons)
DoOutJac(i, qq, r) == Do([op |-> "outjac", i |-> i, q |-> qq, r |-> r, exp |-> [outjac |-> OutJac(cons[i], qq, r)]], rb, ext, cons)
DoFn(i, qq, e) == Do([op |-> "fn", i |-> i, q |-> qq, e |-> e, exp |-> [fn |-> Fn(cons[i], qq, e)]], rb, ext, cons)
DoFnJac(i, qq, e) == Do([op |-> "fnjac", i |-> i, q |-> qq, e |-> e, exp |-> [fnjac |-> FnJac(cons[i], qq, e)]], rb, ext, cons)
\* hold what holds at q1, then solve from q2
DoSolve(i, q1, e1, q2, e2) == Do([op |-> "solve", i |-> i, q1 |-> q1, e1 |-> e1, q2 |-> q2, e2 |-> e2, exp |-> [solved |-> Solved(cons[i], q1, e1, q2), kept |-> TRUE, ok |-> IF HoldsHalf(cons[i], q1) THEN "any" ELSE TRUE]], rb, ext, cons)
DoTask(i, d, q1, e1, q2, e2) == \E t \in {Task(cons[i], IF d = 0 THEN <<>> ELSE cons[d], q1, q2)} :
   Do([op |-> "task", i |-> i, d |-> d, q1 |-> q1, e1 |-> e1, q2 |-> q2, e2 |-> e2, exp |-> [serr |-> t, redJ |-> t, honest |-> TRUE]], rb, ext, cons)
DoEq(i, k) == Do([op |-> "eq", i |-> i, k |-> k, exp |-> [equal |-> Same(cons[i], cons[k]), sym |-> TRUE]], rb, ext, cons)
Init == rb = <<>> /\ ext = 0 /\ cons = <<>> /\ last = [op |-> "init"] /\ hist = <<>>

(* -------------------------------------------------- exhaustive exploration *)
J(t, p, M) == [type |-> t, parent |-> p, M |-> M, mass |-> 1, com |-> Zero3]
Rb0 == <<J("PX", 0, [R |-> RQ(3, 1), t |-> <<0, 1, 0>>]), J("FF", 1, [R |-> RQ(2, 1), t |-> <<1, 0, 1>>]), J("RZ", 1, [R |-> Mul(RQ(1, 1), RQ(2, 1)), t |-> <<1, 0, 2>>]),
         J("S", 3, [R |-> RQ(1, 1), t |-> <<0, 0, 1>>]), J("FF", 0, IdP), J("T3", 4, [R |-> RQ(1, 2), t |-> <<0, 1, 0>>])>>
Confs0 == {<<0, IdP, 0, Id3, IdP, Zero3>>, <<2, [R |-> RQ(1, 1), t |-> <<1, 2, 0>>], 1, Mul(RQ(1, 1), RQ(2, 1)), [R |-> Mul(RQ(3, 1), RQ(2, 3)), t |-> <<0, -1, 1>>], <<1, 2, -1>>>>}
Fr0 == {IdP, [R |-> Mul(RQ(2, 1), RQ(3, 1)), t |-> <<1, 0, 2>>]}
Rhs0 == {IdP, [R |-> Id3, t |-> <<1, 0, -2>>], [R |-> Mul(RQ(1, 1), RQ(3, 1)), t |-> <<0, 2, 1>>]}
Comps0 == {<<"E", "E", "E", "E", "E", "E">>, <<"Z", "E", "E", "Z", "Z", "Z">>}
T6 == [k \in 1..6 |-> TRUE]
Poses0 == {[kind |-> "pose", j1 |-> p[1], j2 |-> p[2], F1 |-> F1, F2 |-> F2, comp |-> m, mask |-> T6] : p \in {<<0, 2>>, <<1, 2>>, <<4, 2>>, <<5, 2>>, <<0, 5>>, <<6, 5>>, <<3, 5>>}, F1 \in Fr0, F2 \in Fr0, m \in Comps0}
Dl0 == {[d |-> <<0, 0, 0>>, m |-> 1, k |-> 0], [d |-> <<2, -1, 1>>, m |-> 2, k |-> 0], [d |-> <<1, 0, 2>>, m |-> 3, k |-> 1]}
Parts0 == {[kind |-> "part", j |-> 6, index |-> 1, v |-> <<2>>], [kind |-> "part", j |-> 6, index |-> 1, v |-> <<2, 1>>], [kind |-> "part", j |-> 6, index |-> 0, v |-> <<2, 1, 0>>], [kind |-> "part", j |-> 1, index |-> 0, v |-> <<3>>]}
Extras0 == {[kind |-> "extra", index |-> 0, v |-> <<1>>], [kind |-> "extra", index |-> 1, v |-> <<2, 3>>], [kind |-> "extra", index |-> 2, v |-> <<3>>]}
Rels0 == {[kind |-> "rel", j1 |-> p[1], j2 |-> p[2], F1 |-> F1, F2 |-> F2, hold |-> h] : p \in {<<0, 2>>, <<1, 2>>, <<4, 2>>, <<0, 5>>, <<6, 5>>}, F1 \in Fr0, F2 \in Fr0, h \in BOOLEAN}
Consts0 == {[kind |-> "const", js |-> js, xs |-> [i \in 1..Len(js) |-> qq[js[i]]], hold |-> h] : js \in {<<2>>, <<4>>, <<2, 4>>, <<4, 6>>, <<2, 5>>, <<3, 4>>}, qq \in Confs0, h \in BOOLEAN}
E0 == {<<0, 0, 0>>, <<1, -1, 2>>}
Increments(c) == IF c.kind = "pose" THEN Rhs0 ELSE Dl0
NextMk == \/ rb = <<>> /\ DoRobot(Rb0, 3)
          \/ rb # <<>> /\ cons = <<>> /\ ((\E c \in Poses0 : DoMk(c)) \/ (\E c \in Rels0 : DoMk(c)) \/ (\E c \in Consts0 : DoMk(c)) \/ (\E c \in Parts0 : DoMk(c)) \/ (\E c \in Extras0 : DoMk(c)) \/ (\E j \in 1..6, qq \in Confs0 : DoMk([kind |-> "lock", j |-> j, x |-> qq[j]])))
NextRun == cons # <<>> /\ last.op = (IF Saves THEN "save" ELSE "mk") /\ (DoInfo(Len(cons)) \/ \E qq \in Confs0 : \/ \E r \in Increments(cons[1]) : DoOut(Len(cons), qq, r) \/ DoOutJac(Len(cons), qq, r)
                                                                           \/ \E e \in E0 : DoFn(Len(cons), qq, e) \/ DoFnJac(Len(cons), qq, e) \/ \E q1 \in Confs0 : TRUE = Whole(cons[1]) /\ DoSolve(Len(cons), q1, e, qq, <<4, 5, 6>>))
NextSave == Saves /\ cons # <<>> /\ last.op = "mk" /\ DoSave(1, "text")
Next == NextMk \/ NextSave \/ NextRun
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- random behaviours *)
Free == {j \in 1..Len(rb) : rb[j].type = "FF"}
RRhs == CASE R(1..3) = 1 -> IdP [] R(1..3) = 1 -> [R |-> Id3, t |-> RV3(2)] [] OTHER -> RPose(2)
RComp == LET z == R({"E", "E", "Z"}) IN TLCEval([k \in 1..6 |-> IF k <= 3 THEN R({"E", "E", "Z"}) ELSE z])
RDl == LET k == R({0, 0, 1, -1}) IN TLCEval([d |-> RV3(2), m |-> R(1..3), k |-> k])
RPlace == \* an object, or something that it does not carry
   LET b == R(Free) s == {a \in 0..Len(rb) : b \notin Above(rb, a)} IN
   TLCEval([kind |-> "pose", j1 |-> R(s), j2 |-> b, F1 |-> RFrame, F2 |-> RFrame, comp |-> RComp, mask |-> IF R(1..4) = 1 THEN RMask(6) ELSE T6])
RRel == LET c == RPlace IN TLCEval([kind |-> "rel", j1 |-> c.j1, j2 |-> c.j2, F1 |-> c.F1, F2 |-> c.F2, hold |-> R({TRUE, TRUE, FALSE})])
RConst == LET qq == RConf(rb) n == J1 m == J1 js == IF n < Len(rb) /\ R(1..2) = 1 THEN <<n, n + 1>> ELSE IF n < m THEN <<n, m>> ELSE IF m < n THEN <<m, n>> ELSE <<n>> IN TLCEval([kind |-> "const", js |-> js, xs |-> [i \in 1..Len(js) |-> qq[js[i]]], hold |-> R({TRUE, TRUE, FALSE})])
NonNull(m) == IF \E k \in 1..6 : m[k] THEN m ELSE T6
Places == {i \in 1..Len(cons) : cons[i].kind = "pose"}
Solvable == {i \in 1..Len(cons) : Whole(cons[i])}
Linear == {j \in 1..Len(rb) : Vec(rb[j].type)}
RLock == LET k == R(1..4) IN
   CASE k = 1 /\ ext > 0 -> (LET i == R(0..(ext - 1)) IN TLCEval([kind |-> "extra", index |-> i, v |-> [a \in 1..R(1..(ext - i)) |-> R(-2..2)]]))
     [] k = 2 /\ Linear # {} -> (LET j == R(Linear) n == JNV(rb[j].type) i == R(0..(n - 1)) IN TLCEval([kind |-> "part", j |-> j, index |-> i, v |-> [a \in 1..R(1..(n - i)) |-> R(-2..2)]]))
     [] OTHER -> (LET j == J1 qq == RConf(rb) IN TLCEval([kind |-> "lock", j |-> j, x |-> qq[j]]))
One(S) == CHOOSE x \in S : TRUE
RCon == One({CASE Free # {} /\ k <= 4 -> RPlace [] Free # {} /\ k <= 6 -> RRel [] k = 7 -> RConst [] OTHER -> RLock : k \in {R(1..9)}})
RInc(c) == IF c.kind = "pose" THEN RRhs ELSE RDl
RExt == TLCEval([k \in 1..ext |-> R(-2..2)])
SimNext == /\ Len(hist) < Depth
   /\ IF rb = <<>> THEN \E n \in {R(1..5)} : \E b \in {RRobot(n)} : DoRobot(IF R(1..4) > 1 THEN [b EXCEPT ![R(1..n)].type = "FF"] ELSE b, R(0..3))
      ELSE \E k \in {IF cons = <<>> THEN 1 ELSE R(1..20)} :
      CASE Saves /\ k \in {1, 5} /\ cons # <<>> /\ Len(cons) < 12 -> \E i \in {R(1..Len(cons))}, a \in {R({"text", "xml", "binary"})} : DoSave(i, a)
        [] k <= 3 /\ Len(cons) < 8 -> \E c \in {IF cons # <<>> /\ R(1..4) = 1 THEN cons[R(1..Len(cons))] ELSE RCon} : DoMk(IF c.kind = "pose" THEN [c EXCEPT !.mask = NonNull(@)] ELSE c)
        [] k = 4 -> \E qq \in {RConf(rb)} : DoConf(qq)
        [] k = 5 -> DoInfo(R(1..Len(cons)))
        [] k = 6 -> \E i \in {R(1..Len(cons))} : DoEq(i, R(1..Len(cons)))
        [] k = 7 /\ Len(cons) < 8 -> DoCopy(R(1..Len(cons)))
        [] k \in 8..10 -> \E i \in {R(1..Len(cons))}, qq \in {RConf(rb)} : \E r \in {RInc(cons[i])} : DoOut(i, qq, r)
        [] k \in 11..12 -> \E i \in {R(1..Len(cons))}, qq \in {RConf(rb)} : \E r \in {RInc(cons[i])} : DoOutJac(i, qq, r)
        [] k \in 13..14 -> \E i \in {R(1..Len(cons))}, qq \in {RConf(rb)}, e \in {RExt} : DoFn(i, qq, e)
        [] k \in 15..16 -> \E i \in {R(1..Len(cons))}, qq \in {RConf(rb)}, e \in {RExt} : DoFnJac(i, qq, e)
        [] k >= 17 /\ Places # {} -> \E i \in {R(Places)}, d \in {R({0} \cup Solvable)}, q1 \in {RConf(rb)}, e1 \in {RExt}, q2 \in {RConf(rb)}, e2 \in {RExt} : DoTask(i, IF d = i THEN 0 ELSE d, q1, e1, q2, e2)
        [] Solvable = {} -> DoInfo(R(1..Len(cons)))
        [] OTHER -> \E i \in {R(Solvable)}, q1 \in {RConf(rb)}, e1 \in {RExt}, q2 \in {RConf(rb)}, e2 \in {RExt} : DoSolve(i, q1, e1, q2, e2)
SimSpec == Init /\ [][SimNext]_vars

(* -------------------------------------------------- properties of the design *)
\* both forms agree: where the output is what is computed, the function is the right hand side
With(qq, j, x) == [qq EXCEPT ![j] = x]
Agree == last.op = "out" /\ cons[last.i].kind = "pose" => LET c == cons[last.i] X == Placed(c, Poses(rb, last.q), last.r) IN
   Rel(c, Poses(rb, With(last.q, c.j2, X))) = last.r
\* whatever the configuration of the joint was, and those of joints that are not inputs
OnlyInputs == last.op = "out" /\ cons[last.i].kind = "pose" => LET c == cons[last.i] IN
   Placed(c, Poses(rb, [k \in 1..Len(rb) |-> IF k \in Inputs(c) THEN last.q[k] ELSE CASE Vec(rb[k].type) -> (IF rb[k].type = "T3" THEN Zero3 ELSE 0) [] Turn(rb[k].type) -> 0 [] rb[k].type = "S" -> Id3 [] OTHER -> IdP]), last.r)
   = Placed(c, Poses(rb, last.q), last.r)
\* moving an input and its output along the derivative leaves the function where it is
VSum6(V, w, o, f(_)) == FoldLeft(LAMBDA a, b : VPlus(a, b), Zero3, [m \in 1..6 |-> VScale(w[m], f(V[o + m]))])
Tangent == last.op = "outjac" /\ cons[last.i].kind = "pose" => LET c == cons[last.i] P0 == Poses(rb, last.q) X == Placed(c, P0, last.r) qq == With(last.q, c.j2, X)
                                                              V == RelVel(c, Poses(rb, qq)) W == PlacedVel(c, P0, last.r) o == JVOff(rb, c.j2) IN
   \A k \in Cols : OwnerOf(rb, k) # c.j2 => LET s(f(_)) == VPlus(f(V[k]), VSum6(V, W[k], o, f)) IN s(LAMBDA x : x.v) = Zero3 /\ s(LAMBDA x : x.wb) = Zero3
\* solving twice changes nothing, and solving from where it holds neither
Idempotent == last.op = "solve" /\ cons[last.i].kind = "pose" => LET c == cons[last.i] X == Solved(c, last.q1, last.e1, last.q2) IN
   /\ Solved(c, last.q1, last.e1, With(last.q2, c.j2, X)) = X
   /\ Held(c, Rel(c, Poses(rb, With(last.q2, c.j2, X)))) = Held(c, Rel(c, Poses(rb, last.q1)))
Emit == IF Mode = "bfs" /\ last'.op \in {"info", "out", "outjac", "fn", "fnjac", "solve"} THEN PrintT(ToJson(hist \o <<last'>>)) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
