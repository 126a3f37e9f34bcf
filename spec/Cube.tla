-------------------------------- MODULE Cube --------------------------------
(* Rigid motions whose rotation is one of the 24 of the cube (signed         *)
(* permutation matrices) and whose translation is an integer vector: poses,  *)
(* velocities and derivatives are exact integers.                            *)
EXTENDS Integers, Sequences, TLC
D3 == 1..3
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
VPlus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VMinus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Zero3 == <<0, 0, 0>>
E3(i) == <<IF i = 1 THEN 1 ELSE 0, IF i = 2 THEN 1 ELSE 0, IF i = 3 THEN 1 ELSE 0>>
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Col(A, j) == <<A[1][j], A[2][j], A[3][j]>>
Trans(A) == TLCEval(<<Col(A, 1), Col(A, 2), Col(A, 3)>>)
Mul(A, B) == TLCEval([i \in D3 |-> <<Dot(A[i], Col(B, 1)), Dot(A[i], Col(B, 2)), Dot(A[i], Col(B, 3))>>])
App(A, v) == TLCEval(<<Dot(A[1], v), Dot(A[2], v), Dot(A[3], v)>>)
Skew(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
Det(A) == Dot(A[1], Cross(A[2], A[3]))
Trace(A) == A[1][1] + A[2][2] + A[3][3]
Units == {<<s, i>> : s \in {-1, 1}, i \in D3}
UnitV(u) == VScale(u[1], E3(u[2]))
Rots == TLCEval({<<UnitV(ab[1]), UnitV(ab[2]), Cross(UnitV(ab[1]), UnitV(ab[2]))>> : ab \in {x \in Units \X Units : x[1][2] # x[2][2]}})
HalfTurn(A) == Trace(A) = -1
\* quarter turns about the axes
RQ(ax, k) == LET c == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
                 s == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0 IN
  CASE ax = 1 -> <<<<1, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
    [] ax = 2 -> <<<<c, 0, s>>, <<0, 1, 0>>, <<-s, 0, c>>>>
    [] OTHER -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1>>>>
(* rigid motions *)
IdP == [R |-> Id3, t |-> Zero3]
PMul(a, b) == [R |-> Mul(a.R, b.R), t |-> VPlus(a.t, App(a.R, b.t))]
PInv(a) == [R |-> Trans(a.R), t |-> VScale(-1, App(Trans(a.R), a.t))]
PApp(a, p) == VPlus(a.t, App(a.R, p))
\* a body velocity <<v, w>> seen from the frame placed at m in the body
AdInv(m, v, w) == <<App(Trans(m.R), VPlus(v, Cross(w, m.t))), App(Trans(m.R), w)>>
=============================================================================
