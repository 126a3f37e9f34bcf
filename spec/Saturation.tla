----------------------------- MODULE Saturation ------------------------------
(* Saturation of configurations: solver::saturation.                        *)
(* A box has bounds for every configuration entry, and says to which        *)
(* velocity variable each entry belongs (several may share one).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Mode, Depth
VARIABLES box, last, hist
vars == <<box, last, hist>>
view == <<box>>

Clamp(x, lo, hi) == IF x <= lo THEN lo ELSE IF x >= hi THEN hi ELSE x
Flag(x, lo, hi) == IF x <= lo THEN -1 ELSE IF x >= hi THEN 1 ELSE 0
Sat(b, q) == [i \in 1..Len(q) |-> Clamp(q[i], b.lo[i], b.hi[i])]
Hit(b, q, v) == {Flag(q[i], b.lo[i], b.hi[i]) : i \in {j \in 1..Len(q) : b.map[j] = v /\ Flag(q[j], b.lo[j], b.hi[j]) # 0}}
\* a velocity variable is flagged when one of its entries is at or beyond a bound; "any": one at each side
Flags(b, q) == [v \in 1..b.nv |-> LET h == Hit(b, q, v - 1) IN IF h = {} THEN 0 ELSE IF Cardinality(h) = 1 THEN CHOOSE x \in h : TRUE ELSE "any"]
AnyHit(b, q) == \E i \in 1..Len(q) : Flag(q[i], b.lo[i], b.hi[i]) # 0

Result(b, q) == [qSat |-> Sat(b, q), flags |-> Flags(b, q), ret |-> AnyHit(b, q)]
Do(rec, b) == box' = b /\ last' = rec /\ hist' = Append(hist, rec)
DoBox(b) == Do([op |-> "box", kind |-> b.kind, lo |-> b.lo, hi |-> b.hi, map |-> b.map, nv |-> b.nv, joints |-> b.joints, extra |-> b.extra, default |-> b.default], b)
DoSat(q) == Do([op |-> "sat", q |-> q, exp |-> Result(box, q)], box)

\* kind "map": entries and their velocity variables; "plain": one velocity variable per entry; "function": the same box
\* through a user's function; "none": no saturation at all
None == [kind |-> "none", lo |-> <<>>, hi |-> <<>>, map |-> <<>>, nv |-> 0, joints |-> <<>>, extra |-> 0, default |-> FALSE]
Far == 100
NoBox(n) == [None EXCEPT !.lo = [i \in 1..n |-> -Far], !.hi = [i \in 1..n |-> Far], !.map = [i \in 1..n |-> i - 1], !.nv = n]
Box(k, bd, m, nv) == [None EXCEPT !.kind = k, !.lo = [i \in 1..Len(bd) |-> bd[i][1]], !.hi = [i \in 1..Len(bd) |-> bd[i][2]], !.map = m, !.nv = nv]
\* entries of a robot: joint after joint, then the extra degrees of freedom.  Entries of circles and rotations are
\* within bounds whatever happens; the entries of a free-flyer's position, of prismatic joints and of the extra
\* degrees of freedom have bounds
NQ(t) == CASE t = "FF" -> 7 [] t = "S" -> 4 [] t \in {"RX", "RY", "RZ"} -> 2 [] OTHER -> 1
NVv(t) == CASE t = "FF" -> 6 [] t = "S" -> 3 [] OTHER -> 1
Real(t) == CASE t = "FF" -> 3 [] t \in {"PX", "PY", "PZ"} -> 1 [] OTHER -> 0
RECURSIVE Entries(_, _, _)
\* joints, bounds per joint, first velocity index -> sequence of <<lo, hi, velocity index, real>>
Entries(js, k, v) == IF k > Len(js) THEN <<>> ELSE
  [i \in 1..NQ(js[k].type) |-> IF i <= Real(js[k].type) THEN <<js[k].lo, js[k].hi, v + i - 1, TRUE>>
                               ELSE <<-2, 2, IF v + i - 1 < v + NVv(js[k].type) THEN v + i - 1 ELSE v + NVv(js[k].type) - 1, FALSE>>]
  \o Entries(js, k + 1, v + NVv(js[k].type))
RECURSIVE TotV(_, _)
TotV(js, k) == IF k > Len(js) THEN 0 ELSE NVv(js[k].type) + TotV(js, k + 1)
Robot(js, ex, default) == LET e == Entries(js, 1, 0) n == TotV(js, 1)
      all == e \o [i \in 1..Len(ex) |-> <<ex[i][1], ex[i][2], n + i - 1, TRUE>>] IN
   [kind |-> "device", lo |-> [i \in 1..Len(all) |-> all[i][1]], hi |-> [i \in 1..Len(all) |-> all[i][2]], map |-> [i \in 1..Len(all) |-> all[i][3]],
    nv |-> n + Len(ex), joints |-> js, extra |-> Len(ex), default |-> default]
\* entries that are not real (of rotations) are given values of a rotation
RealE(b) == IF b.kind # "device" THEN [i \in 1..Len(b.lo) |-> TRUE]
            ELSE LET e == Entries(b.joints, 1, 0) IN [i \in 1..Len(b.lo) |-> IF i <= Len(e) THEN e[i][4] ELSE TRUE]
\* neutral entries of rotations: 1 for the cosine / last component
NeutralE(b) == LET f[k \in 0..Len(b.joints)] == IF k = 0 THEN <<>> ELSE f[k - 1] \o
                      (LET t == b.joints[k].type IN [i \in 1..NQ(t) |-> IF i <= Real(t) THEN 0 ELSE
                         IF t \in {"RX", "RY", "RZ"} THEN (IF i = 1 THEN 1 ELSE 0) ELSE IF i = NQ(t) THEN 1 ELSE 0]) IN
   IF b.kind # "device" THEN [i \in 1..Len(b.lo) |-> 0] ELSE f[Len(b.joints)] \o [i \in 1..b.extra |-> 0]
Mix(b, x) == [i \in 1..Len(b.lo) |-> IF RealE(b)[i] THEN x[i] ELSE NeutralE(b)[i]]

Init == box = NoBox(2) /\ last = [op |-> "init"] /\ hist = <<>>
(* ------------------------------------------------ exhaustive exploration *)
Bds == {<<-1, 1>>, <<0, 0>>, <<-Far, Far>>, <<0, 1>>}
Maps == {<<0, 1, 2>>, <<0, 1, 1>>, <<1, 0, 0>>, <<0, 0, 0>>, <<2, 0, 1>>}
Top(m) == CHOOSE x \in {m[i] + 1 : i \in 1..Len(m)} : \A i \in 1..Len(m) : m[i] + 1 <= x
Next == \/ hist = <<>> /\ \E bd \in [1..3 -> Bds], m \in Maps : DoBox(Box("map", bd, m, Top(m)))
        \/ hist = <<>> /\ \E bd \in [1..3 -> Bds], k \in {"plain", "function"} : DoBox(Box(k, bd, <<0, 1, 2>>, 3))
        \/ hist # <<>> /\ last.op = "box" /\ \E q \in [1..3 -> -2..2] : DoSat(q)
Spec == Init /\ [][Next]_vars
bfsview == <<box, last>>
(* ------------------------------------------------------ random behaviours *)
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)  \* mentions the state: not a constant
RBd == LET lo == R(-3..2) IN IF R(1..4) = 1 THEN <<-Far, Far>> ELSE <<lo, lo + R(0..3)>>
RJoint == LET b == RBd IN TLCEval([type |-> R({"PX", "PY", "PZ", "RX", "RY", "RZ", "S", "FF"}), parent |-> 0, lo |-> b[1], hi |-> b[2]])
RRobot == LET n == R(1..4) js == TLCEval([k \in 1..n |-> RJoint]) IN Robot([k \in 1..n |-> [js[k] EXCEPT !.parent = R(0..(k - 1))]], TLCEval([k \in 1..R(0..3) |-> RBd]), FALSE)
RMap == LET n == R(1..6) nv == R(1..n) IN TLCEval([i \in 1..n |-> IF i <= nv THEN i - 1 ELSE R(0..(nv - 1))])
RBox == LET m == RMap IN Box("map", TLCEval([i \in 1..Len(m) |-> RBd]), m, Top(m))
SimNext == /\ Len(hist) < Depth
           /\ IF hist = <<>> \/ R(1..6) = 1
              THEN \E k \in {R(1..8)} : CASE k <= 4 -> \E b \in {RRobot} : DoBox(b)
                                          [] k = 5 -> \E n \in {R(1..4)} : DoBox(NoBox(n))
                                          [] OTHER -> \E b \in {RBox} : DoBox(b)
              ELSE \E x \in {TLCEval([i \in 1..Len(box.lo) |-> IF R(1..3) = 1 /\ box.lo[i] # -Far THEN box.lo[i] ELSE IF R(1..3) = 1 /\ box.hi[i] # Far THEN box.hi[i] ELSE R(-5..5)])} : DoSat(Mix(box, x))
SimSpec == Init /\ [][SimNext]_vars
(* -------------------------------------------------- properties of the design *)
IsSat == last.op = "sat"
WithinBounds == IsSat => \A i \in 1..Len(box.lo) : last.exp.qSat[i] >= box.lo[i] /\ last.exp.qSat[i] <= box.hi[i]
Idempotent == IsSat => Sat(box, last.exp.qSat) = last.exp.qSat
OthersKept == IsSat => \A i \in 1..Len(box.lo) : (last.q[i] > box.lo[i] /\ last.q[i] < box.hi[i]) => last.exp.qSat[i] = last.q[i]
Sure(v) == IsSat /\ Cardinality(Hit(box, last.q, v)) <= 1
FlagSide == IsSat => \A i \in 1..Len(box.lo) : Sure(box.map[i]) => LET f == last.exp.flags[box.map[i] + 1] IN (last.q[i] <= box.lo[i] => f = -1) /\ (last.q[i] > box.lo[i] /\ last.q[i] >= box.hi[i] => f = 1)
NoFlag == IsSat => \A v \in 1..box.nv : (Sure(v - 1) /\ last.exp.flags[v] # 0) => \E i \in 1..Len(box.lo) : box.map[i] = v - 1 /\ (last.q[i] <= box.lo[i] \/ last.q[i] >= box.hi[i])
Emit == IF Mode = "bfs" /\ last'.op = "sat" THEN PrintT(ToJson(hist')) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
============================================================================
