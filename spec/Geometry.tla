------------------------------ MODULE Geometry ------------------------------
(* Functions of the configuration of a robot: relative poses of frames,      *)
(* positions of the center of mass, distances, static equilibrium.           *)
(*                                                                          *)
(* State: a robot, where it stands (functions are computed for any           *)
(* configuration, wherever the robot stands), and a pool of functions whose  *)
(* frames may be changed.  Rotations are given as matrices: the harness      *)
(* takes the logarithm of them.                                              *)
EXTENDS Pose
CONSTANTS Mode, Depth, Saves
VARIABLES fns, last
vars == <<rb, ext, fns, last, hist>>
bfsview == <<rb, fns, last>>
Strip(rec) == IF Mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec
(* ---------------------------------------------------------- relative poses *)
HasPos(f) == f.cls \in {"P", "T", "TS"}
HasOri(f) == f.cls \in {"O", "T", "OS", "TS"}
Quat(f) == f.cls \in {"OS", "TS"}
PosMask(f) == IF HasPos(f) THEN <<f.mask[1], f.mask[2], f.mask[3]>> ELSE <<FALSE, FALSE, FALSE>>
OriMask(f) == IF ~HasOri(f) THEN <<FALSE, FALSE, FALSE>> ELSE LET o == IF HasPos(f) THEN 3 ELSE 0 IN <<f.mask[o + 1], f.mask[o + 2], f.mask[o + 3]>>
GtVal(f, P) == LET X == Rel(f, P) IN [pos |-> Masked(PosMask(f), X.t), rot |-> X.R, quat |-> Quat(f), om |-> OriMask(f)]
GtJac(f, P) == LET X == Rel(f, P) V == RelVel(f, P) IN
   [pos |-> Wide(Masked(PosMask(f), RowsOf(Map(V, LAMBDA x : x.v), 3))), w |-> Wide(RowsOf(Map(V, LAMBDA x : IF Quat(f) THEN x.wb ELSE x.ws), 3)),
    rot |-> X.R, quat |-> Quat(f), om |-> OriMask(f), half |-> HalfTurn(X.R)]
Info(f) == LET S == OnPath(f.j1, f.j2) IN [active |-> Flags(S, LAMBDA k : JNQ(rb[k].type)), activeD |-> Flags(S, LAMBDA k : JNV(rb[k].type)),
   pair |-> IF f.j1 <= f.j2 THEN <<f.j1, f.j2>> ELSE <<f.j2, f.j1>>, ref |-> PMul(PInv(f.F1), f.F2),
   nq |-> Len(Masked(PosMask(f), Zero3)) + (IF Quat(f) THEN 4 ELSE Len(Masked(OriMask(f), Zero3))), nv |-> Len(Masked(PosMask(f), Zero3)) + Len(Masked(OriMask(f), Zero3))]

(* ---------------------------------------- values that are fractions: n / d *)
Roots(f) == Range(f.roots)
RComV(f, P) == LET S == Roots(f) m == MassOf(rb, S) A == P[f.j] C == Columns(rb, P, f.j) s == ComSum(rb, P, S) x == VMinus(s, VScale(m, A.t)) IN
   VJ(VMinus(App(Trans(A.R), x), VScale(m, f.ref)), m,
      [c \in Cols |-> App(Trans(A.R), VMinus(VMinus(ComVel(rb, P, S, c), VScale(m, PointVel(P, f.j, C[c], Zero3))), Cross(AngVel(P, f.j, C[c]), x)))])
FeetV(f, P) == LET S == Roots(f) m == MassOf(rb, S) s == ComSum(rb, P, S) l == PApp(P[f.jl], f.pl) r == PApp(P[f.jr], f.pr) A == P[f.jref]
      CL == Columns(rb, P, f.jl) CR == Columns(rb, P, f.jr) CA == Columns(rb, P, f.jref)
      u == VMinus(r, l) e2 == VMinus(VScale(2, s), VScale(m, VPlus(l, r))) x == Cross(e2, u) xl == VMinus(s, VScale(m, l)) xr == VMinus(s, VScale(m, r)) IN
   \* everything over 2 m
   VJ(<<2 * (s[3] - m * f.ref[3]), App(Trans(A.R), x)[3], 2 * Dot(xl, u), 2 * Dot(xr, u)>>, 2 * m,
      [c \in Cols |-> LET ds == ComVel(rb, P, S, c) dl == PointVel(P, f.jl, CL[c], f.pl) dr == PointVel(P, f.jr, CR[c], f.pr) du == VMinus(dr, dl)
                          de2 == VMinus(VScale(2, ds), VScale(m, VPlus(dl, dr))) w == AngVel(P, f.jref, CA[c]) IN
         <<2 * ds[3], App(Trans(A.R), VMinus(VPlus(Cross(de2, u), Cross(e2, du)), Cross(w, x)))[3],
           2 * (Dot(VMinus(ds, VScale(m, dl)), u) + Dot(xl, du)), 2 * (Dot(VMinus(ds, VScale(m, dr)), u) + Dot(xr, du))>>])
\* square of the distance, and its derivative over 2
DistV(f, P) == LET d == VMinus(PApp(PoseOf(P, f.j1), f.p1), PApp(PoseOf(P, f.j2), f.p2)) C1 == Columns(rb, P, f.j1) C2 == Columns(rb, P, f.j2) IN
   VJ(<<Dot(d, d)>>, 1, [c \in Cols |-> <<Dot(d, VMinus(PointVel(P, f.j1, C1[c], f.p1), PointVel(P, f.j2, C2[c], f.p2)))>>])
\* distance between balls of radius 1/4 about the centers of mass of two bodies, or of a body and points of the world
\* (the library places bodies only when joints are numbered depth first)
WPoint(k) == IF k = 1 THEN <<1, 1, 0>> ELSE <<-1, 0, 2>>
BodyF(f, w) == [j1 |-> f.j1, j2 |-> f.j2, p1 |-> rb[f.j1].com, p2 |-> IF f.j2 = 0 THEN WPoint(w) ELSE rb[f.j2].com]
Nearest(f, P) == LET S == Range(f.obs) IN CHOOSE w \in S : \A v \in S : DistV(BodyF(f, w), P).n[1] <= DistV(BodyF(f, v), P).n[1]
BodiesV(f, P) == DistV(BodyF(f, Nearest(f, P)), P)
BodiesOk(f, P) == LET S == Range(f.obs) IN BodiesV(f, P).n[1] > 0 /\ \A v, w \in S : v # w => DistV(BodyF(f, w), P).n[1] # DistV(BodyF(f, v), P).n[1]
\* position of a function with a mask, as a fraction
FracV(f, P) == CASE f.kind = "com" -> RComV(f, P) [] f.kind = "feet" -> FeetV(f, P)
   [] f.kind = "gt" -> LET V == RelVel(f, P) IN VJ(Rel(f, P).t, 1, [c \in Cols |-> V[c].v])
(* static equilibrium: forces u along the normals, of least norm, that balance gravity best *)
SDot(x, y) == SumTo([k \in 1..Len(x) |-> x[k] * y[k]], Len(x))
Gram(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> SDot(A[i], A[j])]])
GDet(G) == IF Len(G) = 1 THEN G[1][1] ELSE G[1][1] * G[2][2] - G[1][2] * G[2][1]
Adj(G) == IF Len(G) = 1 THEN <<<<1>>>> ELSE <<<<G[2][2], -G[1][2]>>, <<-G[2][1], G[1][1]>>>>
MV(M, x) == [i \in 1..Len(M) |-> SDot(M[i], x)]
Grav == <<0, 0, 1, 0, 0, 0>>
\* one column per contact: normal, and moment of it about the center of mass, all times the mass
PhiCol(f, P, k) == LET S == Roots(f) m == MassOf(rb, S) ct == f.contacts[k] p == PApp(P[ct.j], ct.p) n == App(P[ct.j].R, ct.n) IN
   VScale(m, n) \o Cross(VMinus(ComSum(rb, P, S), VScale(m, p)), n)
DPhiCol(f, P, k, c) == LET S == Roots(f) m == MassOf(rb, S) ct == f.contacts[k] p == PApp(P[ct.j], ct.p) n == App(P[ct.j].R, ct.n) C == Columns(rb, P, ct.j)
                           dp == PointVel(P, ct.j, C[c], ct.p) dn == Cross(AngVel(P, ct.j, C[c]), n) IN
   VScale(m, dn) \o VPlus(Cross(VMinus(ComVel(rb, P, S, c), VScale(m, dp)), n), Cross(VMinus(ComSum(rb, P, S), VScale(m, p)), dn))
Phi(f, P) == TLCEval([k \in 1..Len(f.contacts) |-> PhiCol(f, P, k)])
Abs(x) == IF x < 0 THEN -x ELSE x
StatOk(f, P) == LET A == Phi(f, P) D == GDet(Gram(A)) IN D > 0 /\ D < (IF Len(A) = 1 THEN 3000 ELSE 800) /\ \A c \in 1..Len(A), k \in 1..6 : Abs(A[c][k]) <= 10 /\ \A v \in Cols : Abs(DPhiCol(f, P, c, v)[k]) <= 10
StatVal(f, P) == LET A == Phi(f, P) G == Gram(A) D == GDet(G) m == MassOf(rb, Roots(f)) x == MV(Adj(G), [i \in 1..Len(A) |-> SDot(A[i], Grav)]) IN
   [val |-> [i \in 1..Len(A) |-> [n |-> m * x[i], d |-> D]] \o [k \in 1..6 |-> [n |-> SumTo([i \in 1..Len(A) |-> A[i][k] * x[i]], Len(A)) - D * Grav[k], d |-> D]],
    pushes |-> \A i \in 1..Len(A) : x[i] >= 0]
StatJac(f, P) == LET A == Phi(f, P) G == Gram(A) D == GDet(G) X == Adj(G) m == MassOf(rb, Roots(f)) x == MV(X, [i \in 1..Len(A) |-> SDot(A[i], Grav)]) n == Len(A)
      J == TLCEval([v \in Cols |-> LET dA == TLCEval([c \in 1..n |-> DPhiCol(f, P, c, v)])
              dx == TLCEval(MV(X, [i \in 1..n |-> D * SDot(dA[i], Grav) - SumTo([j \in 1..n |-> (SDot(dA[i], A[j]) + SDot(A[i], dA[j])) * x[j]], n)])) IN
              [u |-> [i \in 1..n |-> m * dx[i]], g |-> [k \in 1..6 |-> SumTo([i \in 1..n |-> dA[i][k] * x[i] * D + A[i][k] * dx[i]], n)]]]) IN
   [n |-> Wide(RowsOf(Map(J, LAMBDA y : y.u \o y.g), n + 6)), d |-> D * D]
(* distance to a configuration: differences joint by joint *)
Mod4(x) == LET y == x % 4 IN IF y > 2 THEN y - 4 ELSE y
JDiff(t, a, b) == CASE t \in {"PX", "PY", "PZ"} -> [v |-> b - a] [] t \in {"RX", "RY", "RZ"} -> [qt |-> Mod4(b - a)]
   [] t = "T3" -> [d |-> VMinus(b, a)] [] t = "S" -> [R |-> Mul(Trans(a), b), half |-> HalfTurn(Mul(Trans(a), b))] [] OTHER -> LET X == PMul(PInv(a), b) IN [R |-> X.R, t |-> X.t, half |-> HalfTurn(X.R)]
ConfV(f, qq) == [conf |-> [k \in 1..Len(rb) |-> JDiff(rb[k].type, qq[k], f.goal[k])], weights |-> f.weights, extra |-> ext]
ConfInfo(f) == LET S == {k \in 1..Len(rb) : \E i \in 1..JNV(rb[k].type) : f.weights[JVOff(rb, k) + i] # 0} IN
   [active |-> Flags(S, LAMBDA k : JNQ(rb[k].type)), activeD |-> Flags(S, LAMBDA k : JNV(rb[k].type))]
(* minus the logarithm of the product of the singular values of a derivative *)
ManipV(f, P) == LET g == fns[f.i] e == FracV(g, P) act == CASE g.kind = "gt" -> OnPath(g.j1, g.j2) [] OTHER -> 1..Len(rb)
                    rows == Masked(g.mask, RowsOf(e.J, Len(g.mask))) IN [det |-> GDet(Gram(rows)), d |-> e.d, rows |-> Len(rows)]
ManipOk(f, P) == LET g == fns[f.i] e == FracV(g, P) rows == Masked(g.mask, RowsOf(e.J, Len(g.mask))) IN \A r \in 1..Len(rows), c \in Cols : Abs(rows[r][c]) <= 30
DistOk(f, P) == DistV(f, P).n[1] > 0
\* functions that may be computed there
Def(f, qq) == LET P == Poses(rb, qq) IN CASE f.kind = "dist" -> DistOk(f, P) [] f.kind = "bodies" -> BodiesOk(f, P) [] f.kind = "stat" -> StatOk(f, P) [] f.kind = "manip" -> ManipOk(f, P) [] OTHER -> TRUE
Frac(m, e) == [n |-> Masked(m, e.n), d |-> e.d]
FracJ(m, e) == [n |-> Wide(Masked(m, RowsOf(e.J, Len(e.n)))), d |-> e.d]
Value(f, qq) == LET P == Poses(rb, qq) IN
   CASE f.kind = "gt" -> GtVal(f, P) [] f.kind \in {"com", "feet"} -> Frac(f.mask, FracV(f, P)) [] f.kind = "dist" -> [sq |-> DistV(f, P).n[1], less |-> 0] [] f.kind = "bodies" -> [sq |-> BodiesV(f, P).n[1], less |-> 1]
     [] f.kind = "stat" -> [frac |-> StatVal(f, P).val] [] f.kind = "conf" -> ConfV(f, qq) [] f.kind = "manip" -> ManipV(f, P)
Jacob(f, qq) == LET P == Poses(rb, qq) IN
   CASE f.kind = "gt" -> GtJac(f, P) [] f.kind \in {"com", "feet"} -> FracJ(f.mask, FracV(f, P)) [] f.kind \in {"dist", "bodies"} -> LET e == IF f.kind = "dist" THEN DistV(f, P) ELSE BodiesV(f, P) IN [sq |-> e.n[1], n |-> Wide(RowsOf(e.J, 1)), d |-> 1]
     [] f.kind = "stat" -> StatJac(f, P) [] f.kind = "conf" -> ConfV(f, qq) [] OTHER -> [skip |-> TRUE]

(* ------------------------------------------------------------------ actions *)
Do(rec, b, x, F) == /\ rb' = b /\ ext' = x /\ fns' = F /\ last' = rec /\ hist' = Append(hist, Strip(rec))
DoRobot(b, x) == Do([op |-> "robot", joints |-> b, extra |-> x], b, x, <<>>)
DoMk(f) == Do([op |-> "mk", fn |-> f], rb, ext, Append(fns, f))
\* the robot is moved elsewhere
DoConf(qq) == Do([op |-> "conf", q |-> qq], rb, ext, fns)
\* a joint or a frame is replaced
Changed(f, w, x) == CASE w = "j1" -> [f EXCEPT !.j1 = x] [] w = "j2" -> [f EXCEPT !.j2 = x] [] w = "F1" -> [f EXCEPT !.F1 = x] [] w = "F2" -> [f EXCEPT !.F2 = x]
   [] w = "ref" -> [f EXCEPT !.F1 = x, !.F2 = IdP] [] w = "weights" -> [f EXCEPT !.weights = x]
DoSet(i, w, x) == Do([op |-> "set", i |-> i, what |-> w, x |-> x], rb, ext, [fns EXCEPT ![i] = Changed(@, w, x)])
DoVal(i, qq) == Do([op |-> "val", i |-> i, q |-> qq, exp |-> [val |-> Value(fns[i], qq)]], rb, ext, fns)
DoJac(i, qq) == Do([op |-> "jac", i |-> i, q |-> qq, exp |-> [jac |-> Jacob(fns[i], qq)]], rb, ext, fns)
DoInfo(i) == Do([op |-> "info", i |-> i, exp |-> CASE fns[i].kind = "gt" -> Info(fns[i]) [] fns[i].kind = "conf" -> ConfInfo(fns[i]) [] OTHER -> [ok |-> TRUE]], rb, ext, fns)
(* functions given the same arguments are equal; those whose values differ are not *)
GoalDiffers(f, g) == \E k \in 1..Len(rb) : LET a == f.goal[k] b == g.goal[k] t == rb[k].type IN
   /\ \A i \in 1..JNV(t) : f.weights[JVOff(rb, k) + i] # 0
   /\ CASE t \in {"PX", "PY", "PZ", "T3"} -> a # b [] t \in {"RX", "RY", "RZ"} -> Mod4(a - b) # 0 [] OTHER -> a # b
Alike(f, g) == CASE f.kind # g.kind -> "no"
   [] f.kind = "gt" -> IF [f EXCEPT !.variant = ""] = [g EXCEPT !.variant = ""] THEN "yes" ELSE "no"
   [] f.kind = "dist" -> IF f = g THEN "yes" ELSE "no"
   [] f.kind = "bodies" -> IF f.j1 = g.j1 /\ f.j2 = g.j2 /\ Range(f.obs) = Range(g.obs) THEN "yes" ELSE IF {f.j1, f.j2} = {g.j1, g.j2} /\ f.j1 # g.j1 THEN "any" ELSE "no"
   [] f.kind = "conf" -> IF f.weights # g.weights THEN "no" ELSE IF f.goal = g.goal THEN (IF \E k \in 1..Len(rb) : rb[k].type \in {"S", "FF"} THEN "any" ELSE "yes")
                         ELSE IF GoalDiffers(f, g) THEN "no" ELSE "any"
   [] f.kind = "manip" -> "any"
   [] OTHER -> IF f = g THEN "any" ELSE "no" \* centers of mass are compared by address
DoEq(i, k) == Do([op |-> "eq", i |-> i, k |-> k, exp |-> [equal |-> LET a == Alike(fns[i], fns[k]) IN CASE i = k \/ a = "yes" -> TRUE [] a = "no" -> FALSE [] OTHER -> "any", sym |-> TRUE]], rb, ext, fns)
\* a function restored from an archive is as the one that was saved
DoSave(i, a) == Do([op |-> "save", i |-> i, ar |-> a, exp |-> [saved |-> TRUE]], rb, ext, Append(fns, fns[i]))
Init == rb = <<>> /\ ext = 0 /\ fns = <<>> /\ last = [op |-> "init"] /\ hist = <<>>

(* -------------------------------------------------- exhaustive exploration *)
Rb0 == <<[type |-> "PX", parent |-> 0, M |-> [R |-> RQ(3, 1), t |-> <<0, 1, 0>>], mass |-> 1, com |-> <<1, 0, 0>>],
         [type |-> "RZ", parent |-> 1, M |-> [R |-> Mul(RQ(1, 1), RQ(2, 1)), t |-> <<1, 0, 2>>], mass |-> 2, com |-> <<0, 1, 0>>],
         [type |-> "S", parent |-> 2, M |-> [R |-> RQ(1, 1), t |-> <<0, 0, 1>>], mass |-> 1, com |-> <<0, 1, 1>>],
         [type |-> "RY", parent |-> 1, M |-> IdP, mass |-> 1, com |-> <<0, 0, 1>>]>>
Confs0 == {<<0, 0, Id3, 0>>, <<2, 1, Mul(RQ(1, 1), RQ(2, 1)), 3>>}
Fr0 == {IdP, [R |-> Id3, t |-> <<1, 0, 2>>], [R |-> Mul(RQ(2, 1), RQ(3, 1)), t |-> Zero3], [R |-> RQ(1, 1), t |-> <<0, 2, -1>>]}
T3 == <<TRUE, TRUE, TRUE>>
Masks0(c) == IF c \in {"P", "O"} THEN {T3, <<FALSE, TRUE, TRUE>>} ELSE IF c = "OS" THEN {T3} ELSE IF c = "T" THEN {T3 \o T3, <<TRUE, FALSE, TRUE, FALSE, TRUE, TRUE>>} ELSE {T3 \o T3, <<FALSE, FALSE, TRUE>> \o T3}
Gt(c, rel, j1, j2, F1, F2, m, v) == [kind |-> "gt", cls |-> c, rel |-> rel, j1 |-> j1, j2 |-> j2, F1 |-> F1, F2 |-> F2, mask |-> m, variant |-> v]
Pairs0 == {<<0, 3>>, <<3, 4>>, <<4, 3>>, <<2, 3>>, <<3, 0>>}
Fns0 == {Gt(c, p[1] # 0, p[1], p[2], F1, F2, m, "frames") : c \in {"P", "O", "T", "OS", "TS"}, p \in Pairs0, F1 \in Fr0, F2 \in Fr0, m \in Masks0("P") \cup Masks0("T") \cup Masks0("TS")}
FnOk(f) == f.mask \in Masks0(f.cls)
NextMk == \/ rb = <<>> /\ DoRobot(Rb0, 1)
          \/ rb # <<>> /\ fns = <<>> /\ \E f \in {g \in Fns0 : FnOk(g)} : DoMk(f)
NextRun == fns # <<>> /\ last.op = (IF Saves THEN "save" ELSE "mk") /\ (DoInfo(Len(fns)) \/ \E qq \in Confs0 : DoVal(Len(fns), qq) \/ DoJac(Len(fns), qq))
NextSave == Saves /\ fns # <<>> /\ last.op = "mk" /\ DoSave(1, "text")
Next == NextMk \/ NextSave \/ NextRun
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- random behaviours *)
RRoots == LET a == R(ComRoots(rb)) c == {b \in ComRoots(rb) : DepthFirst(rb) /\ a \notin Above(rb, b) /\ b \notin Above(rb, a)} IN IF c = {} \/ R(1..2) = 1 THEN <<a>> ELSE SetToSortSeq({a, R(c)}, <)
NonEmpty(m) == IF \E k \in 1..Len(m) : m[k] THEN m ELSE [m EXCEPT ![1] = TRUE]
RGt == LET c == R({"P", "O", "T", "OS", "TS", "P", "T"}) rel == R({TRUE, TRUE, FALSE}) a == IF rel THEN J0 ELSE 0 b0 == IF a = 0 THEN J1 ELSE J0 v == R({"ref", "frames"})
           m == CASE c \in {"P", "O"} -> NonEmpty(RMask(3)) [] c = "T" -> NonEmpty(RMask(6)) [] c = "OS" -> T3 [] OTHER -> RMask(3) \o T3 IN
       TLCEval(Gt(c, rel, a, b0, RFrame, IF v = "ref" THEN IdP ELSE RFrame, m, v))
RNormal == LET i == R(1..3) IN VScale(R({-1, 1}), E3(i))
RWeights == TLCEval([k \in 1..(RNV(rb) + ext) |-> R({0, 1, 1, 2, 3})])
ManipBase == {i \in 1..Len(fns) : \/ (fns[i].kind = "gt" /\ fns[i].cls = "P" /\ Cardinality({k \in 1..3 : fns[i].mask[k]}) <= 2 /\ 
                                       Cardinality({c \in Cols : OwnerOf(rb, c) \in OnPath(fns[i].j1, fns[i].j2)}) >= 2)
                                  \/ (fns[i].kind = "com" /\ Cardinality({k \in 1..3 : fns[i].mask[k]}) <= 2 /\ RNV(rb) >= 2)}
RFn == LET k == R(1..16) IN
   CASE k <= 6 -> RGt
     [] k \in 7..8 /\ ComRoots(rb) # {} -> TLCEval([kind |-> "com", roots |-> RRoots, j |-> J1, ref |-> RV3(2), mask |-> NonEmpty(RMask(3))])
     [] k = 9 /\ ComRoots(rb) # {} -> TLCEval([kind |-> "feet", roots |-> RRoots, jl |-> J1, jr |-> J1, jref |-> J1, pl |-> RV3(1), pr |-> RV3(1), ref |-> RV3(1), mask |-> NonEmpty(RMask(4))])
     [] k \in 10..11 -> TLCEval([kind |-> "dist", j1 |-> J1, j2 |-> J0, p1 |-> RV3(2), p2 |-> RV3(2)])
     [] k = 14 /\ DepthFirst(rb) -> \* two bodies, or a body and the world
          (LET a == J1 b == J0 IN TLCEval([kind |-> "bodies", j1 |-> a, j2 |-> IF a = b THEN 0 ELSE b, obs |-> IF a = b \/ b = 0 THEN R({<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}) ELSE <<1>>]))
     [] k = 12 /\ ComRoots(rb) # {} -> TLCEval([kind |-> "stat", roots |-> RRoots, contacts |-> [i \in 1..R(1..2) |-> [j |-> J1, p |-> RV3(1), n |-> RNormal]]])
     [] k = 13 /\ ManipBase # {} -> TLCEval([kind |-> "manip", i |-> R(ManipBase)])
     [] OTHER -> TLCEval([kind |-> "conf", goal |-> RConf(rb), weights |-> RWeights, bool |-> FALSE])
Settable == {i \in 1..Len(fns) : fns[i].kind = "gt" /\ \A k \in 1..Len(fns) : fns[k].kind = "manip" => fns[k].i # i}
Savable == {i \in 1..Len(fns) : fns[i].kind \in {"gt", "com"}}
Again(f) == IF f.kind = "gt" THEN [f EXCEPT !.variant = "frames"] ELSE f
SimNext == /\ Len(hist) < Depth
   /\ IF rb = <<>> THEN \E n \in {R(1..5)} : \E b \in {RRobot(n)} : DoRobot(b, R({0, 0, 1, 2}))
      ELSE \E k \in {IF fns = <<>> THEN 1 ELSE R(1..16)} :
      CASE Saves /\ k \in {1, 9} /\ Savable # {} /\ Len(fns) < 12 -> \E i \in {R(Savable)}, a \in {R({"text", "xml", "binary"})} : DoSave(i, a)
        [] k <= 4 /\ Len(fns) < 8 -> \E f \in {IF fns # <<>> /\ R(1..3) = 1 THEN Again(fns[R(1..Len(fns))]) ELSE RFn} : DoMk(f)
        [] k \in 9..10 -> \E i \in {R(1..Len(fns))} : DoEq(i, R({x \in 1..Len(fns) : R(1..2) = 1 \/ fns[x].kind = fns[i].kind} \cup {i}))
        [] k = 5 -> \E qq \in {RConf(rb)} : DoConf(qq)
        [] k = 6 -> DoInfo(R(1..Len(fns)))
        [] k \in 7..8 /\ Settable # {} -> \E i \in {R(Settable)}, w \in {R({"j1", "j2", "F1", "F2", "ref"})} : LET f == fns[i] IN
             CASE w = "j1" /\ f.rel -> \E j \in {J0} : IF j = 0 /\ f.j2 = 0 THEN DoSet(i, "F1", IdP) ELSE DoSet(i, w, j)
               [] w = "j2" -> \E j \in {IF f.j1 = 0 THEN J1 ELSE J0} : DoSet(i, w, j)
               [] w = "j1" -> DoInfo(i)
               [] OTHER -> \E x \in {RFrame} : DoSet(i, w, x)
        [] OTHER -> \E i \in {R(1..Len(fns))}, qq \in {RConf(rb)} : IF TRUE = Def(fns[i], qq) THEN (IF R(1..2) = 1 THEN DoVal(i, qq) ELSE DoJac(i, qq)) ELSE DoConf(qq)
SimSpec == Init /\ [][SimNext]_vars

(* -------------------------------------------------- properties of the design *)
Moved(qq, k, m, s) == CASE rb[k].type \in {"PX", "PY", "PZ", "RX", "RY", "RZ"} -> [qq EXCEPT ![k] = @ + s]
                     [] rb[k].type = "S" -> [qq EXCEPT ![k] = Mul(@, RQ(m, s))]
                     [] rb[k].type = "T3" -> [qq EXCEPT ![k] = VPlus(@, VScale(s, E3(m)))]
                     [] OTHER -> [qq EXCEPT ![k] = PMul(@, IF m <= 3 THEN [R |-> Id3, t |-> VScale(s, E3(m))] ELSE [R |-> RQ(m - 3, s), t |-> Zero3])]
IsShift(c) == LET k == OwnerOf(rb, c) IN rb[k].type \in {"PX", "PY", "PZ", "T3"} \/ (rb[k].type = "FF" /\ c - JVOff(rb, k) <= 3)
There(c, s) == LET k == OwnerOf(rb, c) IN Poses(rb, Moved(last.q, k, c - JVOff(rb, k), s))
\* moving a variable by one or two units either way, exactly: values are polynomials of degree 4 at most in translations,
\* and affine in the cosine and the sine of angles
DerivExact == last.op = "jac" /\ fns[last.i].kind \in {"gt", "com", "feet", "dist"} => LET f == fns[last.i] P == Poses(rb, last.q) IN
   CASE f.kind = "gt" -> LET V == RelVel(f, P) IN \A c \in Cols : LET a == Rel(f, There(c, 1)) b == Rel(f, There(c, -1)) X == Rel(f, P) IN
          /\ VMinus(a.t, b.t) = VScale(2, V[c].v)
          /\ IF IsShift(c) THEN a.R = X.R /\ V[c].ws = Zero3 /\ V[c].wb = Zero3
             ELSE \A i \in D3 : LET m == Mul(Skew(V[c].ws), X.R) m2 == Mul(X.R, Skew(V[c].wb)) IN VMinus(a.R[i], b.R[i]) = VScale(2, m[i]) /\ m[i] = m2[i]
     [] f.kind = "com" -> LET e == RComV(f, P) IN \A c \in Cols : VMinus(RComV(f, There(c, 1)).n, RComV(f, There(c, -1)).n) = VScale(2, e.J[c])
     [] f.kind = "feet" -> LET e == FeetV(f, P) IN \A c \in {x \in Cols : IsShift(x)} : LET a == FeetV(f, There(c, 1)).n b == FeetV(f, There(c, -1)).n a2 == FeetV(f, There(c, 2)).n b2 == FeetV(f, There(c, -2)).n IN
          \A k \in 1..4 : 12 * e.J[c][k] = 8 * (a[k] - b[k]) - (a2[k] - b2[k])
     [] f.kind = "dist" -> LET e == DistV(f, P) IN \A c \in Cols : DistV(f, There(c, 1)).n[1] - DistV(f, There(c, -1)).n[1] = 4 * e.J[c][1]
\* variables off the path between the joints do not matter
OffPath == last.op = "jac" /\ fns[last.i].kind = "gt" => LET f == fns[last.i] V == RelVel(f, Poses(rb, last.q)) IN
   \A c \in Cols : OwnerOf(rb, c) \notin OnPath(f.j1, f.j2) => V[c].v = Zero3 /\ V[c].ws = Zero3 /\ Rel(f, There(c, 1)) = Rel(f, Poses(rb, last.q))
\* exchanging the frames inverts the pose
Exchange == last.op \in {"val", "jac"} /\ fns[last.i].kind = "gt" => LET f == fns[last.i] P == Poses(rb, last.q) IN
   PMul(Rel(f, P), Rel([f EXCEPT !.j1 = f.j2, !.j2 = f.j1, !.F1 = f.F2, !.F2 = f.F1], P)) = IdP
Emit == IF Mode = "bfs" /\ last'.op \in {"val", "jac", "info"} THEN PrintT(ToJson(hist \o <<last'>>)) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
