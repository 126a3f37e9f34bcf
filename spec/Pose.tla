-------------------------------- MODULE Pose --------------------------------
(* Relative poses of frames attached to the joints of a robot, and their     *)
(* velocities: what functions of poses, contacts and placements share.       *)
EXTENDS Robot, Json
VARIABLES rb,   \* the robot
          ext,  \* number of variables that are not those of a joint
          hist  \* what was done
Map(J, f(_)) == TLCEval([c \in 1..Len(J) |-> f(J[c])])
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Masked(m, s) == Cat([k \in 1..Len(m) |-> IF m[k] THEN <<s[k]>> ELSE <<>>])
RowsOf(J, m) == [r \in 1..m |-> [c \in 1..Len(J) |-> J[c][r]]]
Cols == 1..RNV(rb)
\* columns of the variables that are not those of a joint
Wide(rows) == [r \in 1..Len(rows) |-> rows[r] \o [k \in 1..ext |-> 0]]
VJ(n, d, J) == TLCEval([n |-> n, d |-> d, J |-> J])

(* ---------------------------------------------------------- relative poses *)
\* frame 2 of joint 2 seen from frame 1 of joint 1 (joint 0: the world)
Rel(f, P) == PMul(PInv(PMul(PoseOf(P, f.j1), f.F1)), PMul(PoseOf(P, f.j2), f.F2))
\* velocity of its origin (in frame 1), angular velocity in frame 1 and in frame 2
RelVel(f, P) == LET A == PMul(PoseOf(P, f.j1), f.F1) B == PMul(PoseOf(P, f.j2), f.F2) C1 == Columns(rb, P, f.j1) C2 == Columns(rb, P, f.j2) IN
   TLCEval([c \in Cols |-> LET w1 == AngVel(P, f.j1, C1[c]) w2 == AngVel(P, f.j2, C2[c])
                               v1 == PointVel(P, f.j1, C1[c], f.F1.t) v2 == PointVel(P, f.j2, C2[c], f.F2.t) IN
       [v |-> App(Trans(A.R), VMinus(VMinus(v2, v1), Cross(w1, VMinus(B.t, A.t)))), ws |-> App(Trans(A.R), VMinus(w2, w1)), wb |-> App(Trans(B.R), VMinus(w2, w1))]])
\* configuration of joint 2 that puts its frame at r from that of joint 1
Placed(c, P, r) == LET A == PMul(PoseOf(P, rb[c.j2].parent), rb[c.j2].M) B == PMul(PoseOf(P, c.j1), PMul(PMul(c.F1, r), PInv(c.F2))) IN PMul(PInv(A), B)
PlacedVel(c, P, r) == LET g == [j1 |-> rb[c.j2].parent, F1 |-> rb[c.j2].M, j2 |-> c.j1, F2 |-> PMul(PMul(c.F1, r), PInv(c.F2))] X == Rel(g, P) V == RelVel(g, P) IN
   TLCEval([k \in Cols |-> App(Trans(X.R), V[k].v) \o V[k].wb])
\* joints whose variables matter
OnPath(j1, j2) == (Above(rb, j1) \ Above(rb, j2)) \cup (Above(rb, j2) \ Above(rb, j1))
Flags(S, n(_)) == Cat([k \in 1..Len(rb) |-> [i \in 1..n(k) |-> k \in S]]) \o [k \in 1..ext |-> FALSE]

(* --------------------------------------------------------- random choices *)
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)  \* mentions the state: not a constant
RV3(m) == <<R(-m..m), R(-m..m), R(-m..m)>>
RPose(m) == [R |-> R(Rots), t |-> RV3(m)]
RFrame == CASE R(1..4) = 1 -> IdP [] R(1..4) = 1 -> [R |-> Id3, t |-> RV3(2)] [] R(1..4) = 1 -> [R |-> R(Rots), t |-> Zero3] [] OTHER -> RPose(2)
Types == {"PX", "PY", "PZ", "RX", "RY", "RZ", "RZ", "S", "T3", "FF"}
RRobot(n) == TLCEval([k \in 1..n |-> [type |-> R(Types), parent |-> R(0..(k - 1)), M |-> IF R(1..3) = 1 THEN IdP ELSE RPose(1), mass |-> R(1..2), com |-> RV3(1)]])
RConf(b) == TLCEval([k \in 1..Len(b) |-> CASE b[k].type \in {"PX", "PY", "PZ"} -> R(-2..2) [] b[k].type \in {"RX", "RY", "RZ"} -> R(0..3) [] b[k].type = "S" -> R(Rots) [] b[k].type = "T3" -> RV3(2) [] OTHER -> RPose(1)])
J0 == R(0..Len(rb))
J1 == R(1..Len(rb))
RMask(n) == TLCEval([k \in 1..n |-> R({TRUE, TRUE, FALSE})])
=============================================================================
