------------------------------- MODULE Contact -------------------------------
(* Plane contact surfaces: convex polygons attached to the joints of a robot, *)
(* and functions that compare the closest floor and object surfaces.          *)
(*                                                                            *)
(* State: a robot, a pool of shapes, a pool of contact functions.  Polygons   *)
(* are integer, in planes normal to an axis, with an integer center and an    *)
(* edge along an axis from which frames are built (the first one; the last    *)
(* but one once the sequence is reversed).                                    *)
EXTENDS Pose
CONSTANTS Mode, Depth
VARIABLES shapes, fns, last
vars == <<rb, ext, shapes, fns, last, hist>>
bfsview == <<rb, shapes, fns, last>>
Strip(rec) == IF Mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec

(* --------------------------------------------------------------- polygons *)
Neg(v) == VScale(-1, v)
UnitOf(v) == LET k == CHOOSE i \in D3 : v[i] # 0 IN VScale(IF v[k] > 0 THEN 1 ELSE -1, E3(k))
Next1(p, i) == p[(i % Len(p)) + 1]
Edge(p, i) == VMinus(Next1(p, i), p[i])
VSum(p) == FoldLeft(VPlus, Zero3, p)
Center(p) == LET s == VSum(p) IN <<s[1] \div Len(p), s[2] \div Len(p), s[3] \div Len(p)>>
Normal(p) == IF Len(p) = 1 THEN E3(1) ELSE UnitOf(Cross(Edge(p, 1), Edge(p, 2)))
\* frame at the center: x along the normal, z along the first edge
Frame(p) == IF Len(p) = 1 THEN [R |-> Id3, t |-> p[1]]
            ELSE LET n == Normal(p) u == UnitOf(Edge(p, 1)) IN [R |-> Trans(<<n, Cross(u, n), u>>), t |-> Center(p)]
Flip(p) == Reverse(p)
(* fractions *)
Fr(n, d) == [n |-> n, d |-> d]
Lt(a, b) == a.n * b.d < b.n * a.d
Le(a, b) == a.n * b.d <= b.n * a.d
\* square of the distance from a point to a segment
SegSq(a, p, v) == LET w == VMinus(a, p) c1 == Dot(v, w) c2 == Dot(v, v) IN
   IF c1 <= 0 THEN Fr(Dot(w, w), 1) ELSE IF c1 >= c2 THEN LET x == VMinus(w, v) IN Fr(Dot(x, x), 1) ELSE Fr(Dot(w, w) * c2 - c1 * c1, c2)
\* closest point of a segment
SegPt(a, p, v) == LET c1 == Dot(v, VMinus(a, p)) c2 == Dot(v, v) IN
   IF c1 <= 0 THEN [n |-> p, d |-> 1] ELSE IF c1 >= c2 THEN [n |-> VPlus(p, v), d |-> 1] ELSE [n |-> VPlus(VScale(c2, p), VScale(c1, v)), d |-> c2]
Side(p, i, a) == Dot(Cross(Edge(p, i), Normal(p)), VMinus(a, p[i]))
Strict(p, a) == \A i \in 1..Len(p) : Side(p, i, a) < 0
\* on the line of an edge: rounding decides
OnLine(p, a) == \E i \in 1..Len(p) : Side(p, i, a) = 0
EdgeSq(p, a) == LET S == {SegSq(a, p[i], Edge(p, i)) : i \in 1..Len(p)} IN CHOOSE x \in S : \A y \in S : Le(x, y)
SignedDist(p, a) == [inside |-> Strict(p, a), sq |-> EdgeSq(p, a)]
\* intersection of a line with the plane of a polygon
Cut(c, n, a, u) == [n |-> VPlus(VScale(Dot(n, u), a), VScale(Dot(n, VMinus(c, a)), u)), d |-> Dot(n, u)]
ShapeInfo(s) == IF Len(s.pts) = 2 THEN [center |-> Center(s.pts), dim |-> 2] ELSE [center |-> Center(s.pts), normal |-> Normal(s.pts), frame |-> Frame(s.pts), dim |-> Len(s.pts)]

(* ----------------------------------------------------------------- contacts *)
\* of floor k and object i of function f: floors are reversed, so that their normal goes into them
Fl(f, k) == [j |-> f.floors[k].j, pts |-> Flip(f.floors[k].pts)]
Pair(f, P, k, i) ==
   LET fl == Fl(f, k) ob == f.objects[i] c == PApp(PInv(PoseOf(P, fl.j)), PApp(PoseOf(P, ob.j), Center(ob.pts)))
       n == Normal(fl.pts) dn == Dot(n, VMinus(c, Center(fl.pts))) a == VMinus(c, VScale(dn, n)) s == SignedDist(fl.pts, a) IN
   TLCEval([k |-> k, i |-> i, dn |-> dn, inside |-> s.inside, line |-> OnLine(fl.pts, a), sq |-> IF s.inside THEN Fr(dn * dn, 1) ELSE Fr(s.sq.n + dn * dn * s.sq.d, s.sq.d)])
Pairs(f, P) == TLCEval({Pair(f, P, k, i) : k \in 1..Len(f.floors), i \in 1..Len(f.objects)})
Closest(S) == CHOOSE x \in S : \A y \in S : Le(x.sq, y.sq)
\* the closest pair is unique, and no center is above the line of an edge
Clear(f, P) == LET S == Pairs(f, P) IN (\A x \in S : ~x.line) /\ (\A x, y \in S : x # y => x.sq.n * y.sq.d # y.sq.n * x.sq.d)
RelOf(f, b) == [j1 |-> f.floors[b.k].j, j2 |-> f.objects[b.i].j, F1 |-> Frame(Flip(f.floors[b.k].pts)), F2 |-> Frame(f.objects[b.i].pts)]
Radius2(f) == LET S == UNION {{LET x == VMinus(f.floors[k].pts[m], Center(f.floors[k].pts)) IN Dot(x, x) : m \in 1..Len(f.floors[k].pts)} : k \in 1..Len(f.floors)} IN Max(S)
CValue(f, qq) == LET P == Poses(rb, qq) b == Closest(Pairs(f, P)) X == Rel(RelOf(f, b), P) IN
   [kind |-> f.kind, x |-> X.t, rot |-> X.R, inside |-> b.inside, point |-> Len(f.objects[b.i].pts) = 1, m |-> f.margin, k |-> b.k - 1, i |-> b.i - 1, r2 |-> Radius2(f)]
CJac(f, qq) == LET P == Poses(rb, qq) b == Closest(Pairs(f, P)) g == RelOf(f, b) X == Rel(g, P) V == RelVel(g, P) IN
   [kind |-> f.kind, pos |-> Wide(RowsOf(Map(V, LAMBDA x : x.v), 3)), w |-> Wide(RowsOf(Map(V, LAMBDA x : x.ws), 3)), rot |-> X.R, half |-> HalfTurn(X.R),
    inside |-> b.inside, point |-> Len(f.objects[b.i].pts) = 1]
\* objects whose center is above a floor, by less than some halves
Forces(f, qq, h) == LET P == Poses(rb, qq) S == {x \in Pairs(f, P) : x.inside /\ -2 * x.dn < h} IN
   {[j |-> f.objects[x.i].j, s |-> f.floors[x.k].j, pts |-> f.objects[x.i].pts, n |-> Normal(f.floors[x.k].pts)] : x \in S}
NForces(f, qq, h) == LET P == Poses(rb, qq) IN Cardinality({x \in Pairs(f, P) : x.inside /\ -2 * x.dn < h})
NoLine(f, qq) == LET P == Poses(rb, qq) IN \A x \in Pairs(f, P) : ~x.line
FInfo(f) == LET S == UNION {OnPath(f.floors[k].j, f.objects[i].j) : k \in 1..Len(f.floors), i \in 1..Len(f.objects)}
                jf == {f.floors[k].j : k \in 1..Len(f.floors)} jo == {f.objects[i].j : i \in 1..Len(f.objects)} IN
   [active |-> Flags(S, LAMBDA k : JNQ(rb[k].type)), activeD |-> Flags(S, LAMBDA k : JNV(rb[k].type)),
    pair |-> IF Cardinality(jf) > 1 \/ Cardinality(jo) > 1 THEN <<0, 0>> ELSE LET a == Max(jf) b == Max(jo) IN IF a <= b THEN <<a, b>> ELSE <<b, a>>]

(* ----------------------------------------------------------- placed objects *)
\* the objects are surfaces of one free-flying joint that carries no floor: a right hand side of the "hold" function gives the configuration of this joint
Placeable(f) == LET jo == f.objects[1].j IN f.kind = "hold" /\ rb[jo].type = "FF" /\ \A x \in 1..Len(f.objects) : f.objects[x].j = jo /\ Len(f.objects[x].pts) > 1 /\ \A k \in 1..Len(f.floors) : jo \notin Above(rb, f.floors[k].j)
\* object i on floor k, at the margin from it
OnFloor(f, k, i) == LET g == RelOf(f, [k |-> k, i |-> i]) IN [g EXCEPT !.F1 = PMul(@, [R |-> Id3, t |-> <<-f.margin, 0, 0>>])]
OnIt(r) == [R |-> RQ(1, r.th), t |-> <<0, r.y, r.z>>]
HoldInputs(f) == UNION {OnPath(f.floors[k].j, rb[f.objects[1].j].parent) : k \in 1..Len(f.floors)}
HoldOut(f, qq, r) == Placed(OnFloor(f, r.k, r.i), Poses(rb, qq), OnIt(r))
HoldJac(f, qq, r) == LET S == HoldInputs(f) V == PlacedVel(OnFloor(f, r.k, r.i), Poses(rb, qq), OnIt(r)) IN
   IF S = {} THEN <<>> ELSE RowsOf(Cat([k \in Cols |-> IF OwnerOf(rb, k) \in S THEN <<V[k]>> ELSE <<>>]), 6)
\* rotation about the normal kept by the right hand side: that of the logarithm along it
Kept(X) == CASE Col(X, 1) = E3(1) -> X [] X[3][2] = X[2][3] /\ (X[1][1] = -1 \/ Trans(X) # X) -> Id3 [] OTHER -> <<>>
\* what is held at a configuration
HeldAt(f, qq) == LET P == Poses(rb, qq) b == Closest(Pairs(f, P)) X == Rel(RelOf(f, b), P) IN [b |-> b, R |-> Kept(X.R), t |-> IF b.inside THEN [X.t EXCEPT ![1] = 0] ELSE Zero3]
HoldSolved(f, q1, q2) == LET h == HeldAt(f, q1) IN Placed(OnFloor(f, h.b.k, h.b.i), Poses(rb, q2), [R |-> h.R, t |-> h.t])
Then(f, q2, X) == [q2 EXCEPT ![f.objects[1].j] = X]
\* whether the function is then what is held: unless another pair is closer
Known(f, q1, q2, X) == LET h == HeldAt(f, q1) P == Poses(rb, Then(f, q2, X)) b == Closest(Pairs(f, P)) IN
   IF Clear(f, P) THEN (IF b.k = h.b.k /\ b.i = h.b.i THEN (IF b.inside THEN TRUE ELSE "any") ELSE "any") ELSE "any"
HoldInfo(f) == LET S == HoldInputs(f) o == f.objects[1].j z == [k \in 1..ext |-> FALSE] fl(T, n(_)) == Cat([k \in 1..Len(rb) |-> [m \in 1..n(rb[k].type) |-> k \in T]]) \o z IN
   [inC |-> fl(S, JNQ), inV |-> fl(S, JNV), outC |-> fl({o}, JNQ), outV |-> fl({o}, JNV), comp |-> <<"Z", "Z", "Z", "Z", "Z", "E", "E", "E">>]

(* ------------------------------------------------------------------ actions *)
Do(rec, b, x, S, F) == /\ rb' = b /\ ext' = x /\ shapes' = S /\ fns' = F /\ last' = rec /\ hist' = Append(hist, Strip(rec))
DoRobot(b, x) == Do([op |-> "robot", joints |-> b, extra |-> x], b, x, <<>>, <<>>)
DoConf(qq) == Do([op |-> "conf", q |-> qq], rb, ext, shapes, fns)
DoShape(s) == Do([op |-> "shape", j |-> s.j, pts |-> s.pts, exp |-> ShapeInfo(s)], rb, ext, Append(shapes, s), fns)
DoReverse(i) == LET s == [shapes[i] EXCEPT !.pts = Flip(@)] IN Do([op |-> "reverse", i |-> i, exp |-> ShapeInfo(s)], rb, ext, [shapes EXCEPT ![i] = s], fns)
DoCopy(i) == Do([op |-> "copy", i |-> i, exp |-> ShapeInfo(shapes[i])], rb, ext, Append(shapes, shapes[i]), fns)
DoSame(i, k) == Do([op |-> "same", i |-> i, k |-> k, exp |-> [same |-> shapes[i] = shapes[k]]], rb, ext, shapes, fns)
DoLocal(i, a) == Do([op |-> "local", i |-> i, a |-> a, exp |-> [dist |-> SignedDist(shapes[i].pts, a), within |-> Strict(shapes[i].pts, a)]], rb, ext, shapes, fns)
DoLine(i, a, u) == Do([op |-> "line", i |-> i, a |-> a, u |-> u, exp |-> [cut |-> Cut(Center(shapes[i].pts), Normal(shapes[i].pts), a, u)]], rb, ext, shapes, fns)
\* the same for a point a of the plane, and a line through it, in the world
DoWorld(i, qq, a, u) == LET s == shapes[i] X == PoseOf(Poses(rb, qq), s.j) w == PApp(X, a) v == App(X.R, u) IN
   Do([op |-> "world", i |-> i, q |-> qq, p |-> w, a |-> VPlus(w, v), u |-> v, exp |-> [center |-> PApp(X, Center(s.pts)), normal |-> App(X.R, Normal(s.pts)),
       cut |-> [n |-> w, d |-> 1], within |-> Strict(s.pts, a), through |-> Strict(s.pts, a), dist |-> SignedDist(s.pts, a)]], rb, ext, shapes, fns)
\* the frame of a shape whose second axis is as close as possible to a direction of the world
DoAlign(i, qq, y) == LET s == shapes[i] X == PoseOf(Poses(rb, qq), s.j) l == App(Trans(X.R), y) n == Normal(s.pts) p == VMinus(l, VScale(Dot(l, n), n)) IN
   Do([op |-> "align", i |-> i, q |-> qq, y |-> y, exp |-> [align |-> IF p = Zero3 THEN [frame |-> Frame(s.pts)] ELSE [c |-> Center(s.pts), n |-> n, y |-> p]]], rb, ext, shapes, fns)
DoSeg(a, p, v) == Do([op |-> "seg", a |-> a, p |-> p, v |-> v, exp |-> [pt |-> SegPt(a, p, v)]], rb, ext, shapes, fns)
DoMk(f) == Do([op |-> "mk", fn |-> f, pl |-> Placeable([f EXCEPT !.kind = "hold"]), exp |-> [nq |-> CASE f.kind = "contact" -> 5 [] f.kind = "compl" -> 3 [] OTHER -> 8]], rb, ext, shapes, Append(fns, f))
DoVal(i, qq) == Do([op |-> "val", i |-> i, q |-> qq, exp |-> [val |-> CValue(fns[i], qq)]], rb, ext, shapes, fns)
DoJac(i, qq) == Do([op |-> "jac", i |-> i, q |-> qq, exp |-> [jac |-> CJac(fns[i], qq)]], rb, ext, shapes, fns)
\* the value of a function with its complement tells the surfaces and their relative pose
DoDecode(i, qq) == LET v == CValue(fns[i], qq) IN
   Do([op |-> "decode", i |-> i, q |-> qq, exp |-> [decode |-> [k |-> v.k, i |-> v.i, pose |-> [R |-> v.rot, t |-> VPlus(v.x, <<v.m, 0, 0>>)]]]], rb, ext, shapes, fns)
DoForces(i, qq, h) == Do([op |-> "forces", i |-> i, q |-> qq, h |-> h, exp |-> [forces |-> [set |-> SetToSeq(Forces(fns[i], qq, h)), n |-> NForces(fns[i], qq, h)]]], rb, ext, shapes, fns)
DoInfo(i) == Do([op |-> "info", i |-> i, exp |-> FInfo(fns[i])], rb, ext, shapes, fns)
\* functions of the same surfaces are equal, those with other surfaces are not
Content(f) == [kind |-> f.kind, fl |-> f.floors, ob |-> f.objects]
DoEq(i, k) == Do([op |-> "eq", i |-> i, k |-> k, exp |-> [equal |-> IF Content(fns[i]) = Content(fns[k]) THEN (IF fns[i].margin = fns[k].margin THEN TRUE ELSE IF fns[i].kind = "compl" THEN "any" ELSE FALSE) ELSE FALSE]], rb, ext, shapes, fns)
DoHold(i) == Do([op |-> "hold", i |-> i, exp |-> HoldInfo(fns[i])], rb, ext, shapes, fns)
DoPlace(i, qq, r) == Do([op |-> "place", i |-> i, q |-> qq, r |-> r, exp |-> [out |-> HoldOut(fns[i], qq, r), outjac |-> HoldJac(fns[i], qq, r)]], rb, ext, shapes, fns)
\* hold what holds at q1, then solve from q2
DoSolve(i, q1, q2) == LET X == HoldSolved(fns[i], q1, q2) IN
   Do([op |-> "solve", i |-> i, q1 |-> q1, q2 |-> q2, exp |-> [solved |-> X, kept |-> TRUE, ok |-> Known(fns[i], q1, q2, X)]], rb, ext, shapes, fns)
Init == rb = <<>> /\ ext = 0 /\ shapes = <<>> /\ fns = <<>> /\ last = [op |-> "init"] /\ hist = <<>>

(* ------------------------------------------------------- exhaustive instance *)
\* polygons of the plane with an integer center
Poly0 == <<<<<<0, 0>>, <<4, 0>>, <<4, 2>>, <<0, 2>>>>, <<<<0, 6>>, <<0, 0>>, <<3, 0>>>>, <<<<0, 0>>, <<6, 0>>, <<4, 2>>, <<2, 2>>>>,
           <<<<0, 0>>, <<4, 0>>, <<6, 2>>, <<2, 2>>>>, <<<<0, 0>>, <<3, 0>>, <<5, 2>>, <<2, 4>>, <<0, 4>>>>, <<<<1, 0>>, <<3, 0>>, <<4, 1>>, <<4, 4>>, <<0, 4>>, <<0, 3>>>>,
           <<<<0, 0>>, <<2, 0>>, <<2, 8>>, <<0, 8>>>>, <<<<0, 3>>, <<0, 0>>, <<3, 0>>>>, <<<<0, 0>>>>, <<<<0, 0>>, <<4, 0>>>>>>
Sum2(p, m) == SumTo([i \in 1..Len(p) |-> p[i][m]], Len(p)) \div Len(p)
\* polygon k centered at t, in the plane of the first two axes of R
Place(k, R1, t) == LET p == Poly0[k] IN TLCEval([i \in 1..Len(p) |-> VPlus(t, App(R1, <<p[i][1] - Sum2(p, 1), p[i][2] - Sum2(p, 2), 0>>))])
At(j, k, R1, t) == [j |-> j, pts |-> Place(k, R1, t)]
Rb0 == <<[type |-> "FF", parent |-> 0, M |-> IdP, mass |-> 1, com |-> Zero3], [type |-> "RY", parent |-> 1, M |-> [R |-> RQ(1, 1), t |-> <<1, 0, 2>>], mass |-> 1, com |-> Zero3],
         [type |-> "PZ", parent |-> 0, M |-> [R |-> RQ(2, 2), t |-> <<0, 1, 0>>], mass |-> 1, com |-> Zero3]>>
Confs0 == {<<[R |-> Id3, t |-> <<1, 1, 3>>], 1, 2>>, <<[R |-> RQ(3, 1), t |-> <<8, -3, 1>>], 3, 5>>, <<[R |-> Mul(RQ(3, 3), RQ(1, 2)), t |-> <<0, 1, -2>>], 0, 1>>}
Floors0 == {<<At(0, 1, Id3, Zero3)>>, <<At(0, 5, RQ(3, 1), <<1, 0, 1>>), At(3, 4, RQ(1, 1), <<0, 3, 0>>)>>, <<At(3, 2, RQ(2, 2), <<1, 1, 0>>), At(3, 1, Id3, <<9, 1, 0>>)>>}
Objects0 == {<<At(1, 1, RQ(1, 2), <<0, 0, -1>>)>>, <<At(1, 8, RQ(2, 1), <<1, 0, 0>>), At(1, 3, RQ(1, 2), <<0, 2, -1>>)>>, <<At(2, 6, Id3, <<1, 0, 0>>), At(1, 7, RQ(1, 3), Zero3)>>, <<At(1, 9, Id3, <<1, 0, -1>>)>>}
Kinds(ob) == IF \E i \in 1..Len(ob) : Len(ob[i].pts) = 1 THEN {"contact"} ELSE {"contact", "compl", "hold"}
Fns0 == UNION {{[kind |-> k, floors |-> fl, objects |-> ob, margin |-> m] : k \in Kinds(ob), m \in {0, 2}} : fl \in Floors0, ob \in Objects0}
Shapes0 == {At(j, k, R1, <<1, -1, 2>>) : j \in {0, 2}, k \in 1..10, R1 \in {Id3, RQ(1, 1), Mul(RQ(2, 1), RQ(3, 1))}}
Plane(p, a, b) == LET F == Frame(p) IN VPlus(F.t, VPlus(VScale(a, Col(F.R, 2)), VScale(b, Col(F.R, 3))))
Sides0 == {-5, -2, -1, 0, 1, 3, 6}
NextMk == \/ rb = <<>> /\ DoRobot(Rb0, 1)
          \/ last.op = "robot" /\ ((\E f \in Fns0 : DoMk(f)) \/ (\E s \in Shapes0 : DoShape(s)) \/ (\E v \in {<<1, 0, 0>>, <<0, -2, 0>>, <<3, 4, 0>>}, x \in -2..5, y \in -2..5 : DoSeg(<<x, y, 1>>, <<1, 1, 0>>, v)))
NextRun == fns # <<>> /\ last.op = "mk" /\ (DoInfo(1) \/ (Placeable(fns[1]) /\ DoHold(1)) \/ \E qq \in Confs0 :
              \/ (TRUE = Clear(fns[1], Poses(rb, qq)) /\ (DoVal(1, qq) \/ DoJac(1, qq) \/ (fns[1].kind = "hold" /\ DoDecode(1, qq))))
              \/ (Placeable(fns[1]) /\ \E k \in 1..Len(fns[1].floors), m \in 1..Len(fns[1].objects), th \in {0, 1, 2}, y \in {-1, 1} : DoPlace(1, qq, [k |-> k, i |-> m, y |-> y, z |-> y + 1, th |-> th, inside |-> th # 1]))
              \/ (Placeable(fns[1]) /\ TRUE = Clear(fns[1], Poses(rb, qq)) /\ TRUE = (HeldAt(fns[1], qq).R # <<>>) /\ \E q2 \in Confs0 : DoSolve(1, qq, q2))
              \/ (fns[1].kind = "contact" /\ TRUE = NoLine(fns[1], qq) /\ \E h \in {1, 5, 21} : DoForces(1, qq, h)))
OnShape(p) == (\E a, b \in Sides0 : TRUE = (~OnLine(p, Plane(p, a, b))) /\ DoLocal(1, Plane(p, a, b)))
   \/ (\E u \in {<<1, 0, 2>>, <<1, -1, 1>>} : Dot(u, Normal(p)) # 0 /\ DoLine(1, <<3, 4, -2>>, u)) \/ (\E qq \in Confs0, y \in {<<1, 0, 2>>, <<0, 0, -3>>} : DoAlign(1, qq, y))
NextShape == \/ (Len(shapes) = 2 /\ last.op = "copy" /\ DoSame(1, 2))
             \/ (Len(shapes) = 1 /\ last.op \in {"shape", "reverse"} /\ ((Len(hist) < 5 /\ DoReverse(1)) \/ (last.op = "reverse" /\ DoCopy(1)) \/ (Len(shapes[1].pts) > 2 /\ OnShape(shapes[1].pts))))
Next == NextMk \/ NextRun \/ NextShape
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- random behaviours *)
One(S) == CHOOSE x \in S : TRUE
\* (random choices are bound by sets of one element)
RAt(j, ks) == One({At(a[1], a[2], a[3], a[4]) : a \in {<<j, R(ks), R(Rots), RV3(3)>>}})
RFloors(n) == TLCEval([k \in 1..n |-> RAt(R({0, 0, J0}), 1..8)])
\* (often objects of a free-flying joint)
Free(jf) == {j \in (1..Len(rb)) \ jf : rb[j].type = "FF"}
RObjects(n, jf) == One({TLCEval([k \in 1..n |-> RAt(IF x[2] THEN x[3] ELSE R((1..Len(rb)) \ jf), x[1])]) : x \in {<<R({1..8, 1..9}), R(1..3) > 1, R(IF Free(jf) # {} /\ R(1..3) > 1 THEN Free(jf) ELSE (1..Len(rb)) \ jf)>>}})
JF(fl) == {fl[k].j : k \in 1..Len(fl)}
RPlane(p) == One({Plane(p, x[1], x[2]) : x \in {<<R(-6..6), R(-6..6)>>}})
SI == R(1..Len(shapes))
Holds == {i \in 1..Len(fns) : Placeable(fns[i])}
Big == {i \in 1..Len(shapes) : Len(shapes[i].pts) > 2}
SimNext == /\ Len(hist) < Depth
   /\ IF rb = <<>> THEN \E n \in {R(2..4)} : \E b \in {RRobot(n)} : DoRobot(b, R({0, 0, 1, 2}))
      ELSE \E k \in {IF shapes = <<>> THEN 1 ELSE IF fns = <<>> THEN 3 ELSE R(1..24)} :
      CASE k = 1 /\ Len(shapes) < 8 -> \E s \in {RAt(J0, 1..10)} : DoShape(s)
        [] k = 2 /\ Len(shapes) < 8 -> \E i \in {SI} : IF R(1..2) = 1 THEN DoReverse(i) ELSE DoCopy(i)
        [] k \in 3..5 /\ Len(fns) < 6 -> \E fl \in {RFloors(R(1..3))} : IF (1..Len(rb)) \subseteq JF(fl) THEN \E qq \in {RConf(rb)} : DoConf(qq)
             ELSE \E ob \in {RObjects(R(1..3), JF(fl))} : \E kd \in {R(Kinds(ob))}, m \in {R({0, 0, 1, 3})} : DoMk([kind |-> kd, floors |-> fl, objects |-> ob, margin |-> m])
        [] k = 6 /\ fns # <<>> /\ Len(fns) < 6 -> \E i \in {R(1..Len(fns))}, m \in {R({0, 1})} : \E w \in {R(1..4)} :
             DoMk(CASE w = 1 -> fns[i] [] w = 2 -> [fns[i] EXCEPT !.margin = m] [] w = 3 -> [fns[i] EXCEPT !.floors = Flip(@)] [] OTHER -> [fns[i] EXCEPT !.objects = Flip(@)])
        [] k = 7 /\ fns # <<>> -> \E i \in {R(1..Len(fns))}, m \in {R(1..Len(fns))} : DoEq(i, m)
        [] k = 8 -> \E qq \in {RConf(rb)} : DoConf(qq)
        [] k = 9 /\ fns # <<>> -> \E i \in {R(1..Len(fns))} : DoInfo(i)
        [] k = 10 -> \E v \in {RV3(3)} : \E a \in {RV3(4)}, p \in {RV3(2)} : DoSeg(a, p, IF v = Zero3 THEN E3(2) ELSE v)
        [] k = 11 -> \E i \in {SI}, m \in {SI} : DoSame(i, m)
        [] k \in 12..14 /\ Big # {} -> \E i \in {R(Big)} : \E a \in {RPlane(shapes[i].pts)}, u \in {RV3(2)}, qq \in {RConf(rb)}, w \in {R(1..4)} :
             CASE w = 1 /\ TRUE = (~OnLine(shapes[i].pts, a)) -> DoLocal(i, a)
               [] w = 2 /\ Dot(u, Normal(shapes[i].pts)) # 0 -> \E b \in {RV3(4)} : DoLine(i, b, u)
               [] w = 3 /\ Dot(u, Normal(shapes[i].pts)) # 0 /\ TRUE = (~OnLine(shapes[i].pts, a)) -> DoWorld(i, qq, a, u)
               [] OTHER -> DoAlign(i, qq, IF u = Zero3 THEN E3(1) ELSE u)
        [] k \in 15..16 /\ \E i \in 1..Len(fns) : fns[i].kind = "contact" -> \E i \in {R({m \in 1..Len(fns) : fns[m].kind = "contact"})}, qq \in {RConf(rb)}, h \in {2 * R(0..8) + 1} :
             IF TRUE = NoLine(fns[i], qq) THEN DoForces(i, qq, h) ELSE DoConf(qq)
        [] k \in 17..19 /\ Holds # {} -> \E i \in {R(Holds)}, qq \in {RConf(rb)}, q2 \in {RConf(rb)}, w \in {R(1..7)} :
             CASE w = 1 -> DoHold(i)
               [] w \in 2..4 -> \E r \in {[k |-> R(1..Len(fns[i].floors)), i |-> R(1..Len(fns[i].objects)), y |-> R(-1..1), z |-> R(-1..1), th |-> R(0..2), inside |-> R({TRUE, TRUE, FALSE})]} :
                                DoPlace(i, qq, IF r.y = 0 /\ r.z = 0 THEN [r EXCEPT !.inside = TRUE] ELSE r)
               [] OTHER -> IF TRUE = (Clear(fns[i], Poses(rb, qq)) /\ HeldAt(fns[i], qq).R # <<>>) THEN DoSolve(i, qq, q2) ELSE DoConf(qq)
        [] fns # <<>> -> \E i \in {R(1..Len(fns))}, qq \in {RConf(rb)}, w \in {R(1..3)} :
             IF TRUE = Clear(fns[i], Poses(rb, qq)) THEN (IF w = 3 /\ fns[i].kind = "hold" THEN DoDecode(i, qq) ELSE IF w = 2 THEN DoJac(i, qq) ELSE DoVal(i, qq)) ELSE DoConf(qq)
        [] OTHER -> \E qq \in {RConf(rb)} : DoConf(qq)
SimSpec == Init /\ [][SimNext]_vars

(* -------------------------------------------------- properties of the design *)
\* a point is inside exactly when it is on the inner side of every edge whichever way the edges are listed, as is the center
Orientation == last.op = "local" => LET p == shapes[last.i].pts IN (Strict(p, last.a) <=> Strict(Flip(p), last.a)) /\ Strict(p, Center(p)) /\ Normal(Flip(p)) = Neg(Normal(p))
\* the segment from the center to a point crosses an edge exactly when the point is outside: no vertex is closer than the distance
NoCloser == last.op = "local" => LET p == shapes[last.i].pts s == SignedDist(p, last.a) IN \A i \in 1..Len(p) : LET x == VMinus(last.a, p[i]) IN Le(s.sq, Fr(Dot(x, x), 1))
FrameOk == last.op \in {"shape", "reverse", "copy"} => LET s == shapes[IF last.op = "reverse" THEN last.i ELSE Len(shapes)] IN Len(s.pts) = 2 \/ Frame(s.pts).R \in Rots
\* the height of an object is minus its first coordinate, and the value of a function determines the distance
Height == last.op = "val" => LET f == fns[last.i] P == Poses(rb, last.q) b == Closest(Pairs(f, P)) X == Rel(RelOf(f, b), P) IN X.t[1] = b.dn /\ (~b.inside => Dot(X.t, X.t) >= b.dn * b.dn)
\* where an object is placed, its function is what is asked: it touches the floor at the margin, its center where it should
Placing == last.op = "place" => LET f == fns[last.i] g == OnFloor(f, last.r.k, last.r.i) IN Rel(g, Poses(rb, Then(f, last.q, last.exp.out))) = OnIt(last.r)
SolveOk == last.op = "solve" => LET f == fns[last.i] h == HeldAt(f, last.q1) g == OnFloor(f, h.b.k, h.b.i) P == Poses(rb, Then(f, last.q2, last.exp.solved)) IN
   Rel(g, P) = [R |-> h.R, t |-> h.t] /\ (\E x \in Pairs(f, P) : x.k = h.b.k /\ x.i = h.b.i /\ x.dn = -f.margin /\ (~x.line => x.inside))
Emit == IF Mode = "bfs" /\ last'.op \notin {"robot", "mk"} THEN PrintT(ToJson(hist \o <<last'>>)) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
