------------------------------ MODULE Calculus ------------------------------
(* Expressions in the poses of the joints of a robot, and their derivatives. *)
(*                                                                          *)
(* State: a robot and its configuration, a pool of expressions built from    *)
(* earlier ones, and the expressions that may be computed: once the          *)
(* configuration changed, an expression is recomputed only after it (or one  *)
(* built from it) has been invalidated.  Values are integer vectors over a   *)
(* denominator (masses).                                                     *)
EXTENDS Robot, Json, FiniteSetsExt
CONSTANTS Mode, Depth
VARIABLES rb, ext, nodes, q, fresh, last, hist
vars == <<rb, ext, nodes, q, fresh, last, hist>>
bfsview == <<rb, nodes, q, fresh, last>>
Strip(rec) == IF Mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec

(* ------------------------------------------------------------------- values *)
Unary(k) == k \in {"scl", "rot", "rott"}
Binary(k) == k \in {"dif", "sum", "crs", "dot"}
Operands(n) == CASE Unary(n.kind) -> {n.a} [] Binary(n.kind) -> {n.a, n.b} [] n.kind = "mat" -> {n.el[r][c] : r \in 1..Len(n.el), c \in 1..Len(n.el[1])} [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(N, i) == {i} \cup UNION {Reach(N, j) : j \in Operands(N[i])}
\* expressions whose value is a vector of dimension 3
Vec(n) == n.kind \in {"pj", "vj", "pt", "com", "dif", "sum", "crs", "scl", "rot", "rott"}
\* value n/d and derivative J/d
VJ(n, d, J) == TLCEval([n |-> n, d |-> d, J |-> J])
Map(J, f(_)) == TLCEval([c \in 1..Len(J) |-> f(J[c])])
RECURSIVE Ev(_, _, _, _)
Ev(b, N, P, i) == LET n == N[i] cols == 1..RNV(b) IN
  CASE n.kind = "pj" -> LET C == Columns(b, P, n.j) IN VJ(PApp(PoseOf(P, n.j), n.l), 1, [c \in cols |-> PointVel(P, n.j, C[c], n.l)])
    [] n.kind = "vj" -> LET C == Columns(b, P, n.j) v == App(PoseOf(P, n.j).R, n.l) IN VJ(v, 1, [c \in cols |-> Cross(AngVel(P, n.j, C[c]), v)])
    [] n.kind = "pt" -> VJ(n.l, 1, [c \in cols |-> Zero3])
    [] n.kind = "com" -> LET S == Range(n.roots) IN VJ(ComSum(b, P, S), MassOf(b, S), [c \in cols |-> ComVel(b, P, S, c)])
    [] n.kind \in {"dif", "sum"} -> LET x == Ev(b, N, P, n.a) y == Ev(b, N, P, n.b) s == IF n.kind = "dif" THEN -1 ELSE 1 IN
         IF x.d = y.d THEN VJ(VPlus(x.n, VScale(s, y.n)), x.d, [c \in cols |-> VPlus(x.J[c], VScale(s, y.J[c]))])
         ELSE VJ(VPlus(VScale(y.d, x.n), VScale(s * x.d, y.n)), x.d * y.d, [c \in cols |-> VPlus(VScale(y.d, x.J[c]), VScale(s * x.d, y.J[c]))])
    [] n.kind = "crs" -> LET x == Ev(b, N, P, n.a) y == Ev(b, N, P, n.b) IN
         VJ(Cross(x.n, y.n), x.d * y.d, [c \in cols |-> VPlus(Cross(x.n, y.J[c]), Cross(x.J[c], y.n))])
    [] n.kind = "dot" -> LET x == Ev(b, N, P, n.a) y == Ev(b, N, P, n.b) IN
         VJ(<<Dot(x.n, y.n)>>, x.d * y.d, [c \in cols |-> <<Dot(x.n, y.J[c]) + Dot(x.J[c], y.n)>>])
    [] n.kind = "scl" -> LET x == Ev(b, N, P, n.a) IN VJ(VScale(n.s, x.n), x.d, [c \in cols |-> VScale(n.s, x.J[c])])
    [] n.kind = "rot" -> LET x == Ev(b, N, P, n.a) A == P[n.j].R C == Columns(b, P, n.j) v == App(A, x.n) IN
         VJ(v, x.d, [c \in cols |-> VPlus(App(A, x.J[c]), Cross(AngVel(P, n.j, C[c]), v))])
    [] n.kind = "rott" -> LET x == Ev(b, N, P, n.a) A == Trans(P[n.j].R) C == Columns(b, P, n.j) IN
         VJ(App(A, x.n), x.d, [c \in cols |-> App(A, VMinus(x.J[c], Cross(AngVel(P, n.j, C[c]), x.n)))])
    \* a joint frame: its pose, the velocity of its origin in the world and its angular velocity in itself
    [] n.kind = "frame" -> LET C == Columns(b, P, n.j) IN VJ(P[n.j], 1, [c \in cols |-> <<App(P[n.j].R, C[c][1]), C[c][2]>>])
    [] n.kind = "fexp" -> VJ([k \in 1..Len(n.A) |-> n.b[k] + SumTo([c \in 1..Len(P) |-> n.A[k][c] * P[c]], Len(P))], 1, [c \in cols |-> [k \in 1..Len(n.A) |-> n.A[k][c]]])
    [] n.kind = "mat" -> VJ([r \in 1..Len(n.el) |-> [c \in 1..Len(n.el[1]) |-> Ev(b, N, P, n.el[r][c])]], 1, <<>>)
E(i) == Ev(rb, nodes, IF nodes[i].kind = "fexp" THEN q ELSE Poses(rb, q), i)
\* product of the degrees, for the sizes of the numbers
RECURSIVE Deg(_, _)
Deg(N, i) == LET n == N[i] IN CASE n.kind \in {"crs", "dot"} -> Deg(N, n.a) + Deg(N, n.b) [] n.kind \in {"dif", "sum"} -> Max({Deg(N, n.a), Deg(N, n.b)})
   [] Unary(n.kind) -> Deg(N, n.a) [] n.kind = "pt" -> 0 [] OTHER -> 1
\* number of rotations a value is the product of
RECURSIVE RDeg(_, _)
RDeg(N, i) == LET n == N[i] IN CASE n.kind \in {"crs", "dot"} -> RDeg(N, n.a) + RDeg(N, n.b) [] n.kind \in {"dif", "sum"} -> Max({RDeg(N, n.a), RDeg(N, n.b)})
   [] n.kind = "scl" -> RDeg(N, n.a) [] n.kind \in {"rot", "rott"} -> 1 + RDeg(N, n.a) [] n.kind = "pt" -> 0 [] OTHER -> 1
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
\* rows of a derivative, as many columns as velocity variables
RowsOf(J, m) == [r \in 1..m |-> [c \in 1..Len(J) |-> J[c][r]]]
\* matrices of expressions: all over one denominator
MatD(e) == LET ds == {e.n[r][c].d : r \in 1..Len(e.n), c \in 1..Len(e.n[1])} IN IF Cardinality(ds) = 1 THEN CHOOSE d \in ds : TRUE ELSE 0
ValJ(i) == LET e == E(i) n == nodes[i] IN
  CASE n.kind = "frame" -> [pose |-> e.n]
    [] n.kind = "mat" -> [mat |-> Cat([r \in 1..Len(e.n) |-> [k \in 1..3 |-> [c \in 1..Len(e.n[r]) |-> [n |-> e.n[r][c].n[k], d |-> e.n[r][c].d]]]])]
    [] OTHER -> [n |-> e.n, d |-> e.d]
JacJ(i) == LET e == E(i) n == nodes[i] IN
  CASE n.kind = "frame" -> [n |-> RowsOf(Map(e.J, LAMBDA x : x[1] \o x[2]), 6), d |-> 1, half |-> HalfTurn(e.n.R)]
    [] n.kind = "mat" -> [mat |-> Cat([r \in 1..Len(e.n) |-> [k \in 1..3 |-> Cat([c \in 1..Len(e.n[r]) |-> [v \in 1..RNV(rb) |-> [n |-> e.n[r][c].J[v][k], d |-> e.n[r][c].d]]])]])]
    [] OTHER -> [n |-> RowsOf(e.J, Len(e.n)), d |-> e.d]

(* ------------------------------------------------------------------ actions *)
Do(rec, b, x, N, qq, fr) == /\ rb' = b /\ ext' = x /\ nodes' = N /\ q' = qq /\ fresh' = fr /\ last' = rec /\ hist' = Append(hist, Strip(rec))
DoRobot(b, x, qq) == Do([op |-> "robot", joints |-> b, extra |-> x, q |-> qq], b, x, <<>>, qq, {})
DoMk(n) == LET i == Len(nodes) + 1 IN Do([op |-> "mk", node |-> n], rb, ext, Append(nodes, n), q, IF Operands(n) \subseteq fresh THEN fresh \cup {i} ELSE fresh)
DoConf(qq) == Do([op |-> "conf", q |-> qq], rb, ext, nodes, qq, {})
DoInv(i) == Do([op |-> "inv", i |-> i], rb, ext, nodes, q, fresh \cup Reach(nodes, i))
DoVal(i) == Do([op |-> "val", i |-> i, exp |-> [val |-> ValJ(i)]], rb, ext, nodes, q, fresh)
DoJac(i) == Do([op |-> "jac", i |-> i, exp |-> [jac |-> JacJ(i)]], rb, ext, nodes, q, fresh)
DoCross(i) == Do([op |-> "cross", i |-> i, exp |-> LET e == E(i) IN [cross |-> [n |-> Skew(e.n), d |-> e.d]]], rb, ext, nodes, q, fresh)
\* a function of the configuration, with or without a robot, with a mask on its output
Masked(m, s) == Cat([k \in 1..Len(m) |-> IF m[k] THEN <<s[k]>> ELSE <<>>])
FnExp(i, qq, m) == LET e == Ev(rb, nodes, Poses(rb, qq), i) IN
   [val |-> [n |-> Masked(m, e.n), d |-> e.d], jac |-> [n |-> Masked(m, Map(RowsOf(e.J, Len(e.n)), LAMBDA r : r \o [k \in 1..ext |-> 0])), d |-> e.d],
    active |-> [k \in 1..(RNQ(rb) + ext) |-> k <= RNQ(rb)], activeD |-> [k \in 1..(RNV(rb) + ext) |-> k <= RNV(rb)]]
DoFn(i, qq, m) == Do([op |-> "fn", i |-> i, q |-> qq, mask |-> m, exp |-> FnExp(i, qq, m)], rb, ext, nodes, qq, Reach(nodes, i))
DoFn0(i) == Do([op |-> "fn0", i |-> i, exp |-> LET x == E(i) IN [val |-> [n |-> x.n, d |-> x.d], jac |-> [n |-> RowsOf(x.J, Len(x.n)), d |-> x.d]]], rb, ext, nodes, q, fresh \cup Reach(nodes, i))
\* pseudo inverse of a matrix of expressions times a vector, and derivative of it: one column, or two independent ones
ColOf(e, c) == Cat([r \in 1..Len(e.n) |-> e.n[r][c].n])
DColOf(e, c, v) == Cat([r \in 1..Len(e.n) |-> e.n[r][c].J[v]])
SDot(x, y) == SumTo([k \in 1..Len(x) |-> x[k] * y[k]], Len(x))
\* matrix a (columns), gram matrix, adj: everything over the determinant of the gram matrix
Gram(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> SDot(A[i], A[j])]]
GDet(G) == IF Len(G) = 1 THEN G[1][1] ELSE G[1][1] * G[2][2] - G[1][2] * G[2][1]
Adj(G) == IF Len(G) = 1 THEN <<<<1>>>> ELSE <<<<G[2][2], -G[1][2]>>, <<-G[2][1], G[1][1]>>>>
MV(M, x) == [i \in 1..Len(M) |-> SDot(M[i], x)]
MatCols(e) == [c \in 1..Len(e.n[1]) |-> ColOf(e, c)]
PinvVal(A) == LET G == Gram(A) D == GDet(G) X == Adj(G) IN [i \in 1..Len(A) |-> [k \in 1..Len(A[1]) |-> [n |-> SumTo([j \in 1..Len(A) |-> X[i][j] * A[j][k]], Len(A)), d |-> D]]]
\* derivative of x = pinv(A) r: adj(G) (D dA^T r - (dA^T A + A^T dA) D x) / D^2
PinvJac(e, A, r) == LET G == Gram(A) D == GDet(G) X == Adj(G) x == MV(X, [i \in 1..Len(A) |-> SDot(A[i], r)]) IN
   [v \in 1..RNV(rb) |-> LET dA == TLCEval([c \in 1..Len(A) |-> DColOf(e, c, v)]) IN
      MV(X, [i \in 1..Len(A) |-> D * SDot(dA[i], r) - SumTo([j \in 1..Len(A) |-> (SDot(dA[i], A[j]) + SDot(A[i], dA[j])) * x[j]], Len(A))])]
Abs(x) == IF x < 0 THEN -x ELSE x
\* small enough for the products
PinvOk(i) == LET e == E(i) IN MatD(e) = 1 /\ LET A == MatCols(e) G == Gram(A) D == GDet(G) IN 
   Len(A) <= 2 /\ D > 0 /\ D < (IF Len(A) = 1 THEN 4000 ELSE 1000) /\ \A c \in 1..Len(A), k \in 1..Len(A[1]) : Abs(A[c][k]) <= 12 /\ \A v \in 1..RNV(rb) : Abs(DColOf(e, c, v)[k]) <= 12
DoPinv(i, r) == Do([op |-> "pinv", i |-> i, rhs |-> r, exp |-> LET e == E(i) A == MatCols(e) D == GDet(Gram(A)) Jn == PinvJac(e, A, r) IN
      [pinv |-> PinvVal(A), pjac |-> [n |-> [c \in 1..Len(A) |-> [v \in 1..RNV(rb) |-> Jn[v][c]]], d |-> D * D]]], rb, ext, nodes, q, fresh)
Init == rb = <<>> /\ ext = 0 /\ nodes = <<>> /\ q = <<>> /\ fresh = {} /\ last = [op |-> "init"] /\ hist = <<>>

(* -------------------------------------------------- exhaustive exploration *)
PJ(j, l) == [kind |-> "pj", j |-> j, l |-> l]
VJn(j, l) == [kind |-> "vj", j |-> j, l |-> l]
Pt(l) == [kind |-> "pt", l |-> l]
Com(rs) == [kind |-> "com", roots |-> rs]
Bin(k, a, b) == [kind |-> k, a |-> a, b |-> b]
Scl(s, a) == [kind |-> "scl", s |-> s, a |-> a]
RotN(k, j, a) == [kind |-> k, j |-> j, a |-> a]
Rb0 == <<[type |-> "PX", parent |-> 0, M |-> [R |-> RQ(3, 1), t |-> <<0, 1, 0>>], mass |-> 1, com |-> <<1, 0, 0>>],
         [type |-> "RZ", parent |-> 1, M |-> [R |-> Mul(RQ(1, 1), RQ(2, 1)), t |-> <<1, 0, 2>>], mass |-> 2, com |-> <<0, 1, 0>>],
         [type |-> "S", parent |-> 2, M |-> [R |-> RQ(1, 1), t |-> <<0, 0, 1>>], mass |-> 1, com |-> <<0, 1, 1>>],
         [type |-> "PY", parent |-> 1, M |-> IdP, mass |-> 1, com |-> <<0, 0, 1>>]>>
Confs0 == {<<0, 0, Id3, 0>>, <<2, 1, Mul(RQ(1, 1), RQ(2, 1)), -1>>}
Leaves0 == {PJ(2, Zero3), PJ(3, <<1, 0, 2>>), PJ(0, <<1, 2, 0>>), VJn(3, <<0, 1, -1>>), VJn(2, <<1, 1, 0>>), Pt(<<2, 0, 1>>), Com(<<1>>), Com(<<2>>)}
NextMk == \/ rb = <<>> /\ DoRobot(Rb0, 1, <<0, 0, Id3, 0>>)
          \/ rb # <<>> /\ Len(nodes) < 2 /\ \E n \in Leaves0 : DoMk(n)
          \/ Len(nodes) = 2 /\ last.op = "mk" /\ \E k \in {"dif", "sum", "crs", "dot"} : DoMk(Bin(k, 1, 2))
          \/ Len(nodes) = 2 /\ last.op = "mk" /\ nodes[1] = Pt(<<2, 0, 1>>) /\
               \E n \in {Scl(-2, 2), [kind |-> "frame", j |-> 3]} \cup {RotN(k, j, 2) : k \in {"rot", "rott"}, j \in 2..3} : DoMk(n)
NextRun == \/ Len(nodes) = 3 /\ last.op = "mk" /\ \E qq \in Confs0 : DoConf(qq)
           \/ last.op = "conf" /\ DoInv(3)
           \/ last.op = "conf" /\ Vec(nodes[3]) /\ \E qq \in Confs0 : qq # q /\ DoFn(3, qq, <<TRUE, FALSE, TRUE>>)
           \/ last.op \in {"inv", "val", "jac", "cross", "fn"} /\ (last.op # "inv" => hist[Len(hist) - 1].op \in {"inv", "conf"}) /\ 
              \E i \in {j \in fresh : j # last.i \/ j = 3} : (DoVal(i) \/ DoJac(i) \/ (Vec(nodes[i]) /\ DoCross(i)))
Next == NextMk \/ NextRun
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- random behaviours *)
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)  \* mentions the state: not a constant
RV3(m) == <<R(-m..m), R(-m..m), R(-m..m)>>
RPose(m) == [R |-> R(Rots), t |-> RV3(m)]
Types == {"PX", "PY", "PZ", "RX", "RY", "RZ", "RZ", "S", "T3", "FF"}
RRobot(n) == TLCEval([k \in 1..n |-> [type |-> R(Types), parent |-> R(0..(k - 1)), M |-> IF R(1..3) = 1 THEN IdP ELSE RPose(1), mass |-> R(1..2), com |-> RV3(1)]])
RConf(b) == TLCEval([k \in 1..Len(b) |-> CASE b[k].type \in {"PX", "PY", "PZ"} -> R(-2..2) [] b[k].type \in {"RX", "RY", "RZ"} -> R(0..3) [] b[k].type = "S" -> R(Rots) [] b[k].type = "T3" -> RV3(2) [] OTHER -> RPose(1)])
RRoots == LET a == R(ComRoots(rb)) c == {b \in ComRoots(rb) : DepthFirst(rb) /\ a \notin Above(rb, b) /\ b \notin Above(rb, a)} IN IF c = {} \/ R(1..2) = 1 THEN <<a>> ELSE SetToSortSeq({a, R(c)}, <)
RLeaf == CASE R(1..7) <= 2 -> PJ(R(0..Len(rb)), IF R(1..4) = 1 THEN Zero3 ELSE RV3(2)) [] R(1..4) = 1 -> VJn(R(0..Len(rb)), RV3(2)) [] R(1..4) = 1 -> Pt(RV3(2))
            [] R(1..3) # 1 /\ ComRoots(rb) # {} -> TLCEval(Com(RRoots)) [] OTHER -> PJ(R(1..Len(rb)), RV3(1))
Vecs == {i \in 1..Len(nodes) : Vec(nodes[i])}
RNode == LET k == R({"dif", "sum", "crs", "crs", "dot", "scl", "rot", "rott", "rot", "frame", "mat"}) a == R(Vecs) b == R(Vecs) j == R(1..Len(rb)) IN
   CASE k = "scl" -> Scl(R(-3..3), a) [] k \in {"rot", "rott"} -> RotN(k, j, a) [] k = "frame" -> [kind |-> "frame", j |-> j]
     [] k = "mat" -> LET nr == R(1..2) nc == R(1..2) IN [kind |-> "mat", el |-> TLCEval([r \in 1..nr |-> [c \in 1..nc |-> R(Vecs)]])]
     [] OTHER -> Bin(k, a, b)
SmallNode(n) == LET N == Append(nodes, n) i == Len(N) IN (n.kind = "mat" \/ n.kind = "frame") \/ (Deg(N, i) <= 3 /\ \A c \in {qq \in {q} : TRUE} : Ev(rb, N, Poses(rb, q), i).d <= 100)
RMask == TLCEval([k \in 1..3 |-> R({TRUE, TRUE, FALSE})])
RhsFor(n) == TLCEval([k \in 1..(3 * Len(n.el)) |-> R(-2..2)])
Prismatic == \A k \in 1..Len(rb) : rb[k].type \in {"PX", "PY", "PZ"}
SimNext == /\ Len(hist) < Depth
   /\ IF rb = <<>> THEN \E n \in {R(1..4)} : \E b \in {RRobot(n)} : \E qq \in {RConf(b)} : DoRobot(b, R({0, 0, 1, 2}), qq)
      ELSE \E k \in {IF Len(nodes) < 3 THEN 1 ELSE R(1..22)} :
      CASE k <= 2 /\ Len(nodes) < 12 -> \E n \in {RLeaf} : DoMk(n)
        [] k \in 3..8 /\ Len(nodes) < 12 -> \E n \in {RNode} : IF SmallNode(n) THEN DoMk(n) ELSE DoMk(RLeaf)
        [] k \in 9..10 -> \E qq \in {RConf(rb)} : DoConf(qq)
        [] k \in 11..12 -> \E i \in {R(1..Len(nodes))} : DoInv(i)
        [] k = 13 -> \E i \in {R(Vecs)} : \E qq \in {RConf(rb)}, m \in {RMask} : DoFn(i, qq, m)
        [] k = 14 -> \E i \in {R(Vecs)} : DoFn0(i)
        [] k = 15 -> \E c \in {{i \in fresh : nodes[i].kind = "mat" /\ PinvOk(i)}} : IF c = {} THEN DoInv(R(1..Len(nodes))) ELSE \E i \in {R(c)} : DoPinv(i, RhsFor(nodes[i]))
        [] OTHER -> IF fresh = {} THEN DoInv(Len(nodes)) ELSE \E i \in {R(fresh)} : CASE R(1..3) = 1 -> DoVal(i) [] R(1..3) = 1 /\ Vec(nodes[i]) -> DoCross(i) [] OTHER -> DoJac(i)
SimSpec == Init /\ [][SimNext]_vars

(* -------------------------------------------------- properties of the design *)
Moved(qq, k, m, s) == CASE rb[k].type \in {"PX", "PY", "PZ", "RX", "RY", "RZ"} -> [qq EXCEPT ![k] = @ + s]
                     [] rb[k].type = "S" -> [qq EXCEPT ![k] = Mul(@, RQ(m, s))]
                     [] rb[k].type = "T3" -> [qq EXCEPT ![k] = VPlus(@, VScale(s, E3(m)))]
                     [] OTHER -> [qq EXCEPT ![k] = PMul(@, IF m <= 3 THEN [R |-> Id3, t |-> VScale(s, E3(m))] ELSE [R |-> RQ(m - 3, s), t |-> Zero3])]
IsShift(c) == LET k == OwnerOf(rb, c) IN rb[k].type \in {"PX", "PY", "PZ", "T3"} \/ (rb[k].type = "FF" /\ c - JVOff(rb, k) <= 3)
At(i, c, s) == LET k == OwnerOf(rb, c) IN Ev(rb, nodes, Poses(rb, Moved(q, k, c - JVOff(rb, k), s)), i).n
\* the derivative along a translation is the exact one of a polynomial of degree 4 at most;
\* along a rotation, values that involve it once are affine in its cosine and sine
DerivExact == last.op = "jac" => LET i == last.i IN nodes[i].kind \notin {"mat", "frame"} => LET e == E(i) IN \A c \in 1..RNV(rb) :
   IF IsShift(c) THEN LET a == At(i, c, 1) b == At(i, c, -1) a2 == At(i, c, 2) b2 == At(i, c, -2) IN \A k \in 1..Len(e.n) : 12 * e.J[c][k] = 8 * (a[k] - b[k]) - (a2[k] - b2[k])
   ELSE RDeg(nodes, i) <= 1 => LET a == At(i, c, 1) b == At(i, c, -1) IN \A k \in 1..Len(e.n) : 2 * e.J[c][k] = a[k] - b[k]
\* what may be computed is closed under operands
FreshClosed == \A i \in fresh : Operands(nodes[i]) \subseteq fresh
\* a point of the center of mass of the whole robot: total mass is positive
Positive == \A i \in 1..Len(nodes) : nodes[i].kind = "com" => MassOf(rb, Range(nodes[i].roots)) > 0
Emit == IF Mode = "bfs" /\ last'.op \in {"val", "jac", "cross", "fn"} THEN PrintT(ToJson(hist \o <<last'>>)) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
