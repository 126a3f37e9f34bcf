-------------------------------- MODULE Robot --------------------------------
(* Kinematic trees whose joints move by integers along an axis, by quarter   *)
(* turns about an axis, by any translation, by rotations of the cube or by    *)
(* rigid motions: poses                                                      *)
(* of joints, their velocities and centers of mass are exact.                *)
(*                                                                           *)
(* A robot is a sequence of joints [type, parent, M, mass, com]; a           *)
(* configuration gives one value per joint: an integer (PX PY PZ), a number  *)
(* of quarter turns (RX RY RZ), a vector (T3), a rotation (S) or a pose (FF).               *)
EXTENDS Cube, FiniteSets, SequencesExt, FiniteSetsExt
Axis(t) == CASE t \in {"PX", "RX"} -> 1 [] t \in {"PY", "RY"} -> 2 [] t \in {"PZ", "RZ"} -> 3
JNQ(t) == CASE t \in {"PX", "PY", "PZ"} -> 1 [] t \in {"RX", "RY", "RZ"} -> 2 [] t = "S" -> 4 [] t = "T3" -> 3 [] t = "FF" -> 7
JNV(t) == CASE t \in {"S", "T3"} -> 3 [] t = "FF" -> 6 [] OTHER -> 1
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
JVOff(rb, k) == SumTo([i \in 1..Len(rb) |-> JNV(rb[i].type)], k - 1)
JQOff(rb, k) == SumTo([i \in 1..Len(rb) |-> JNQ(rb[i].type)], k - 1)
RNV(rb) == JVOff(rb, Len(rb) + 1)
RNQ(rb) == JQOff(rb, Len(rb) + 1)
Motion(t, x) == CASE t \in {"PX", "PY", "PZ"} -> [R |-> Id3, t |-> VScale(x, E3(Axis(t)))]
                  [] t \in {"RX", "RY", "RZ"} -> [R |-> RQ(Axis(t), x), t |-> Zero3]
                  [] t = "S" -> [R |-> x, t |-> Zero3] [] t = "T3" -> [R |-> Id3, t |-> x] [] t = "FF" -> x
\* velocities of a joint in its own frame
Twists(t) == CASE t \in {"PX", "PY", "PZ"} -> <<<<E3(Axis(t)), Zero3>>>>
               [] t \in {"RX", "RY", "RZ"} -> <<<<Zero3, E3(Axis(t))>>>>
               [] t = "S" -> <<<<Zero3, E3(1)>>, <<Zero3, E3(2)>>, <<Zero3, E3(3)>>>>
               [] t = "T3" -> <<<<E3(1), Zero3>>, <<E3(2), Zero3>>, <<E3(3), Zero3>>>>
               [] t = "FF" -> <<<<E3(1), Zero3>>, <<E3(2), Zero3>>, <<E3(3), Zero3>>, <<Zero3, E3(1)>>, <<Zero3, E3(2)>>, <<Zero3, E3(3)>>>>
RECURSIVE PosesTo(_, _, _)
PosesTo(rb, q, n) == IF n = 0 THEN <<>> ELSE LET P == PosesTo(rb, q, n - 1) j == rb[n] IN
   TLCEval(Append(P, PMul(IF j.parent = 0 THEN j.M ELSE PMul(P[j.parent], j.M), Motion(j.type, q[n]))))
Poses(rb, q) == PosesTo(rb, q, Len(rb))
\* the universe is joint 0
PoseOf(P, j) == IF j = 0 THEN IdP ELSE P[j]
RECURSIVE Above(_, _)
Above(rb, j) == IF j = 0 THEN {} ELSE {j} \cup Above(rb, rb[j].parent)
\* joint and rank in it of a velocity variable
OwnerOf(rb, c) == CHOOSE k \in 1..Len(rb) : JVOff(rb, k) < c /\ c <= JVOff(rb, k) + JNV(rb[k].type)
\* velocity of joint j, in the frame of joint j, when velocity variable c moves
Column(rb, P, j, c) == LET k == OwnerOf(rb, c) IN IF k \notin Above(rb, j) THEN <<Zero3, Zero3>>
   ELSE LET tw == Twists(rb[k].type)[c - JVOff(rb, k)] IN AdInv(PMul(PInv(P[k]), P[j]), tw[1], tw[2])
Columns(rb, P, j) == TLCEval([c \in 1..RNV(rb) |-> Column(rb, P, j, c)])
\* velocity in the world of the point p of joint j
PointVel(P, j, col, p) == IF j = 0 THEN Zero3 ELSE App(P[j].R, VPlus(col[1], Cross(col[2], p)))
AngVel(P, j, col) == IF j = 0 THEN Zero3 ELSE App(P[j].R, col[2])
\* joints of the trees below some joints (0: the whole robot)
Below(rb, roots) == {j \in 1..Len(rb) : 0 \in roots \/ Above(rb, j) \cap roots # {}}
\* subtrees whose center of mass the kinematics library computes: up to the last child of their root
ComRoots(rb) == {j \in 1..Len(rb) : LET ch == {k \in 1..Len(rb) : rb[k].parent = j} IN ch # {} /\ Below(rb, {j}) = j..Max(ch)}
\* the library adds the masses of several subtrees only when joints are numbered depth first
DepthFirst(rb) == \A j \in 1..Len(rb) : LET B == Below(rb, {j}) IN B = j..Max(B)
SumOver(S, f(_)) == LET s == SetToSeq(S) IN SumTo([i \in 1..Len(s) |-> f(s[i])], Len(s))
VSumOver(S, f(_)) == TLCEval(<<SumOver(S, LAMBDA j : f(j)[1]), SumOver(S, LAMBDA j : f(j)[2]), SumOver(S, LAMBDA j : f(j)[3])>>)
MassOf(rb, roots) == SumOver(Below(rb, roots), LAMBDA j : rb[j].mass)
\* mass times center of mass, and its velocity
ComSum(rb, P, roots) == VSumOver(Below(rb, roots), LAMBDA j : VScale(rb[j].mass, PApp(P[j], rb[j].com)))
ComVel(rb, P, roots, c) == VSumOver(Below(rb, roots), LAMBDA j : VScale(rb[j].mass, PointVel(P, j, Column(rb, P, j, c), rb[j].com)))
=============================================================================
