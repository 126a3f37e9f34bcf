----------------------------- MODULE Composition -----------------------------
(* Functions built from functions, and equality of functions and            *)
(* constraints.                                                             *)
(*                                                                          *)
(* State: a pool of functions (each built from earlier ones) and a pool of  *)
(* constraints.  A domain is a sequence of variables: "R" a real, "C" a     *)
(* circle (in quarter turns), "S" a rotation of the cube, "P" a position    *)
(* and a rotation (R3 x SO(3)), "E" a rigid motion (SE(3)).  Outputs are    *)
(* moreover "A" an angle seen as a real, "L" the logarithm of a rotation    *)
(* and "W" the logarithm of a rigid motion; these are compared through      *)
(* their exponential, and derivatives through the derivative of it, so that *)
(* everything is an integer.                                                *)
EXTENDS Cube, FiniteSets, Json, SequencesExt, FiniteSetsExt
CONSTANTS Mode, Depth, Saves
VARIABLES pool, cons, last, hist
vars == <<pool, cons, last, hist>>
bfsview == <<pool, cons, last>>

Strip(rec) == IF Mode = "bfs" THEN [k \in (DOMAIN rec) \ {"exp"} |-> rec[k]] ELSE rec
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + Sum(f, a + 1, b)
QS(t) == CASE t \in {"R", "A"} -> 1 [] t = "C" -> 2 [] t = "S" -> 4 [] t = "L" -> 3 [] t = "W" -> 6 [] OTHER -> 7
VS(t) == CASE t \in {"R", "A", "C"} -> 1 [] t \in {"S", "L"} -> 3 [] OTHER -> 6
QOff(d, k) == Sum(LAMBDA j : QS(d[j]), 1, k - 1)
VOff(d, k) == Sum(LAMBDA j : VS(d[j]), 1, k - 1)
NQ(d) == QOff(d, Len(d) + 1)
NV(d) == VOff(d, Len(d) + 1)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
G(t, x) == IF t = "R" THEN x ELSE 2 * Cos(x) + Sin(x)
DG(t, x) == IF t = "R" THEN 1 ELSE Cos(x) - 2 * Sin(x)
ZeroRow(n) == [j \in 1..n |-> 0]
UnitRow(n, k) == [j \in 1..n |-> IF j = k THEN 1 ELSE 0]
Combine(f(_, _), r, s) == [j \in 1..Len(r) |-> f(r[j], s[j])]
RowAdd(r, s) == Combine(LAMBDA a, b : a + b, r, s)
RowNeg(r) == [j \in 1..Len(r) |-> -r[j]]
RowScale(k, r) == [j \in 1..Len(r) |-> k * r[j]]
\* a row about which nothing is said
AnyRow == <<>>
RowsJ(rs) == [k \in 1..Len(rs) |-> IF rs[k] = AnyRow THEN "any" ELSE rs[k]]
\* a 3x3 matrix times three rows
Mat3(A, rs) == [i \in 1..3 |-> RowAdd(RowAdd(RowScale(A[i][1], rs[1]), RowScale(A[i][2], rs[2])), RowScale(A[i][3], rs[3]))]
\* rows of a part put at the columns from+1..from+n of a wider matrix
Widen(rs, from, n, w) == [i \in 1..Len(rs) |-> IF w # 0 /\ rs[i] = AnyRow THEN AnyRow ELSE
   [j \in 1..n |-> IF j > from /\ j <= from + Len(rs[i]) THEN rs[i][j - from] ELSE 0]]
\* rows of a part whose columns are those of the variables ins of dom
Spread(rs, ins, sub, dom) == [i \in 1..Len(rs) |->
   [j \in 1..NV(dom) |-> LET k == {m \in 1..Len(ins) : VOff(dom, ins[m]) < j /\ j <= VOff(dom, ins[m]) + VS(dom[ins[m]])} IN
      IF k = {} THEN 0 ELSE LET m == CHOOSE x \in k : TRUE IN rs[i][VOff(sub, m) + j - VOff(dom, ins[m])]]]

(* ------------------------------------------------------- differences *)
DiffOut(t) == CASE t = "R" -> <<"R">> [] t = "C" -> <<"A">> [] t = "S" -> <<"L">> [] t = "P" -> <<"R", "R", "R", "L">> [] t = "E" -> <<"W">>
DiffOuts(d) == Flat([k \in 1..Len(d) |-> DiffOut(d[k])])
Wrap(d) == LET m == d % 4 IN IF m = 3 THEN -1 ELSE IF m = 2 THEN "any" ELSE m
\* l - r
Minus1(t, l, r) == CASE t = "R" -> <<l - r>> [] t = "C" -> <<Wrap(l - r)>> [] t = "S" -> <<Mul(Trans(r), l)>>
   [] t = "P" -> VMinus(l.t, r.t) \o <<Mul(Trans(r.R), l.R)>> [] t = "E" -> <<PMul(PInv(r), l)>>
MinusV(d, l, r) == Flat([k \in 1..Len(d) |-> Minus1(d[k], l[k], r[k])])
Any3 == <<AnyRow, AnyRow, AnyRow>>
Rot3(R, Jl, Jr) == IF HalfTurn(R) THEN Any3 ELSE LET m == Mat3(Trans(R), Jr) IN [i \in 1..3 |-> RowAdd(Jl[i], RowNeg(m[i]))]
\* derivative of l - r, from those of l and r
MinusJ1(t, l, r, Jl, Jr) == CASE t \in {"R", "C"} -> <<RowAdd(Jl[1], RowNeg(Jr[1]))>>
   [] t = "S" -> Rot3(Mul(Trans(r), l), Jl, Jr)
   [] t = "P" -> [i \in 1..3 |-> RowAdd(Jl[i], RowNeg(Jr[i]))] \o Rot3(Mul(Trans(r.R), l.R), SubSeq(Jl, 4, 6), SubSeq(Jr, 4, 6))
   [] t = "E" -> LET m == PMul(PInv(r), l) wl == SubSeq(Jl, 4, 6) wr == SubSeq(Jr, 4, 6) vr == SubSeq(Jr, 1, 3)
                     \* w x t is minus the skew matrix of t times w
                     tw == Mat3(Skew(m.t), wr)
                     v == Mat3(Trans(m.R), [i \in 1..3 |-> RowAdd(vr[i], RowNeg(tw[i]))]) w == Mat3(Trans(m.R), wr) IN
                 IF HalfTurn(m.R) THEN Any3 \o Any3 ELSE [i \in 1..3 |-> RowAdd(Jl[i], RowNeg(v[i]))] \o [i \in 1..3 |-> RowAdd(wl[i], RowNeg(w[i]))]
MinusJ(d, l, r, Jl, Jr) == Flat([k \in 1..Len(d) |->
   LET a == VOff(d, k) + 1 b == VOff(d, k + 1) IN MinusJ1(d[k], l[k], r[k], SubSeq(Jl, a, b), SubSeq(Jr, a, b))])

(* --------------------------------------------------- values and derivatives *)
Sub(x, from, n) == SubSeq(x, from + 1, from + n)
Pick(x, ins) == [k \in 1..Len(ins) |-> x[ins[k]]]
RECURSIVE Val(_, _, _), Jac(_, _, _)
Val(P, i, x) == LET f == P[i] IN CASE
     f.kind = "affine" -> [k \in 1..Len(f.b) |-> f.b[k] + Sum(LAMBDA j : f.A[k][j] * x[j], 1, Len(x))]
  [] f.kind = "poly" -> LET g == [j \in 1..Len(f.ins) |-> G(f.dom[f.ins[j]], x[f.ins[j]])] IN
       [k \in 1..Len(f.to) |-> LET y == f.b[k] + Sum(LAMBDA j : f.A[k][j] * g[j], 1, Len(g)) + (IF g = <<>> THEN 0 ELSE f.c[k] * g[1] * g[1])
                               IN IF f.to[k] = "C" THEN y % 4 ELSE y]
  [] f.kind = "const" -> f.v
  [] f.kind = "ident" -> x
  [] f.kind = "stack" -> Flat([k \in 1..Len(f.parts) |-> Val(P, f.parts[k], x)])
  [] f.kind = "diff" -> LET n == Len(P[f.f].dom) IN MinusV(P[f.f].out, Val(P, f.f, Sub(x, f.l, n)), Val(P, f.f, Sub(x, f.r, n)))
  [] f.kind = "subset" -> Val(P, f.f, Sub(x, f.at, Len(P[f.f].dom)))
  [] f.kind = "active" -> Val(P, f.f, x)
  [] f.kind = "extract" -> Val(P, f.f, <<IF f.t1 > f.t2 THEN f.t1 - x[1] ELSE f.t1 + x[1]>>)
  [] f.kind = "implicit" -> MinusV(P[f.f].out, SubSeq(x, f.lo, f.hi), Val(P, f.f, Pick(x, f.ins)))
IdRows(n) == [i \in 1..n |-> UnitRow(n, i)]
Jac(P, i, x) == TLCEval(LET f == P[i] IN CASE
     f.kind = "affine" -> f.A
  [] f.kind = "poly" -> LET g == [j \in 1..Len(f.ins) |-> G(f.dom[f.ins[j]], x[f.ins[j]])] IN
       [k \in 1..Len(f.to) |-> [c \in 1..NV(f.dom) |-> LET js == {j \in 1..Len(f.ins) : VOff(f.dom, f.ins[j]) = c - 1} IN
          IF js = {} THEN 0 ELSE LET j == CHOOSE y \in js : TRUE IN
             (f.A[k][j] + (IF j = 1 THEN 2 * f.c[k] * g[1] ELSE 0)) * DG(f.dom[f.ins[j]], x[f.ins[j]])]]
  [] f.kind = "const" -> [k \in 1..NV(f.out) |-> ZeroRow(NV(f.dom))]
  [] f.kind = "ident" -> IdRows(NV(f.dom))
  [] f.kind = "stack" -> Flat([k \in 1..Len(f.parts) |-> Jac(P, f.parts[k], x)])
  [] f.kind = "diff" -> LET g == P[f.f] n == Len(g.dom) xl == Sub(x, f.l, n) xr == Sub(x, f.r, n) m == NV(f.dom) IN
       MinusJ(g.out, Val(P, f.f, xl), Val(P, f.f, xr), Widen(Jac(P, f.f, xl), VOff(f.dom, f.l + 1), m, NV(g.dom)), Widen(Jac(P, f.f, xr), VOff(f.dom, f.r + 1), m, NV(g.dom)))
  [] f.kind = "subset" -> Widen(Jac(P, f.f, Sub(x, f.at, Len(P[f.f].dom))), VOff(f.dom, f.at + 1), NV(f.dom), NV(P[f.f].dom))
  [] f.kind = "active" -> LET r == Jac(P, f.f, x) IN
       [k \in 1..Len(r) |-> IF NV(f.dom) # 0 /\ r[k] = AnyRow THEN AnyRow ELSE [j \in 1..Len(r[k]) |-> IF \E s \in 1..Len(f.iv) : f.iv[s][1] < j /\ j <= f.iv[s][1] + f.iv[s][2] THEN 0 ELSE r[k][j]]]
  [] f.kind = "extract" -> LET r == Jac(P, f.f, <<IF f.t1 > f.t2 THEN f.t1 - x[1] ELSE f.t1 + x[1]>>) IN IF f.t1 > f.t2 THEN [k \in 1..Len(r) |-> RowNeg(r[k])] ELSE r
  [] f.kind = "implicit" -> LET g == P[f.f] q == Pick(x, f.ins) m == NV(f.dom) IN
       MinusJ(g.out, SubSeq(x, f.lo, f.hi), Val(P, f.f, q), Widen(IdRows(NV(g.out)), VOff(f.dom, f.lo), m, NV(g.out)), Spread(Jac(P, f.f, q), f.ins, g.dom, f.dom)))

(* which entries of the argument and of the velocity a function may depend on *)
RECURSIVE Need(_, _)
Need(P, i) == LET f == P[i] n == Len(f.dom) IN CASE
     f.kind = "affine" -> [v \in 1..n |-> \E k \in 1..Len(f.A) : f.A[k][v] # 0]
  [] f.kind = "poly" -> [v \in 1..n |-> v \in Range(f.ins)]
  [] f.kind = "const" -> [v \in 1..n |-> FALSE]
  [] f.kind = "ident" -> [v \in 1..n |-> TRUE]
  [] f.kind = "stack" -> [v \in 1..n |-> \E k \in 1..Len(f.parts) : Need(P, f.parts[k])[v]]
  [] f.kind = "diff" -> LET g == Need(P, f.f) IN [v \in 1..n |-> (v - f.l \in 1..Len(g) /\ g[v - f.l]) \/ (v - f.r \in 1..Len(g) /\ g[v - f.r])]
  [] f.kind = "subset" -> LET g == Need(P, f.f) IN [v \in 1..n |-> v - f.at \in 1..Len(g) /\ g[v - f.at]]
  [] f.kind \in {"active", "extract"} -> Need(P, f.f)
  [] f.kind = "implicit" -> LET g == Need(P, f.f) IN [v \in 1..n |-> (f.lo <= v /\ v <= f.hi) \/ \E k \in 1..Len(f.ins) : f.ins[k] = v /\ g[k]]
NeedQ(P, i) == LET g == Need(P, i) d == P[i].dom IN Flat([v \in 1..Len(d) |-> [k \in 1..QS(d[v]) |-> g[v]]])
NeedV(P, i) == LET g == Need(P, i) d == P[i].dom IN Flat([v \in 1..Len(d) |-> [k \in 1..VS(d[v]) |-> g[v]]])

(* ----------------------------------------------------------------- equality *)
\* restored from an archive
Back(f) == "back" \in DOMAIN f
Fresh(f) == [k \in (DOMAIN f) \ {"back"} |-> f[k]]
\* what a function is, its name and the identity of its parts left out
Sig(P, ids, i) == LET f == P[i] g == [k \in (DOMAIN f) \ {"name", "back"} |-> f[k]] IN
   CASE f.kind = "stack" -> ToJson([g EXCEPT !.parts = [k \in 1..Len(f.parts) |-> ids[f.parts[k]]]])
     \* where the interval ends only matters for the direction
     [] f.kind = "extract" -> ToJson([g EXCEPT !.f = ids[f.f], !.t2 = f.t1 > f.t2])
     [] f.kind \in {"diff", "subset", "active", "implicit"} -> ToJson([g EXCEPT !.f = ids[f.f]])
     [] OTHER -> ToJson(g)
\* functions with the same content have the same number
RECURSIVE IdsTo(_, _)
IdsTo(P, n) == IF n = 0 THEN [ids |-> <<>>, sig |-> <<>>] ELSE
   LET r == IdsTo(P, n - 1) s == Sig(P, r.ids, n) e == {j \in 1..(n - 1) : r.sig[j] = s} IN
   TLCEval([ids |-> Append(r.ids, IF e = {} THEN n ELSE r.ids[CHOOSE j \in e : TRUE]), sig |-> Append(r.sig, s)])
Ids(P) == TLCEval(IdsTo(P, Len(P)).ids)
EqF(P, ids, i, j) == IF i = j THEN TRUE ELSE IF P[i].kind # P[j].kind THEN "any" ELSE IF ids[i] # ids[j] THEN FALSE ELSE
   IF ~Back(P[i]) /\ ~Back(P[j]) /\ ToJson(P[i]) = ToJson(P[j]) THEN TRUE ELSE "any"
EqMatrix(P) == LET ids == Ids(P) IN [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> EqF(P, ids, i, j)]]
\* comp and mask of a constraint are part of what it is
\* no mask is a mask that keeps everything
Masked(P, c) == IF c.mask = <<>> THEN [c EXCEPT !.mask = [k \in 1..NV(P[c.f].out) |-> TRUE]] ELSE c
EqC(ids, C, i, j) == IF i = j THEN TRUE ELSE IF C[i].kind # C[j].kind THEN "any" ELSE
   IF ToJson([C[i] EXCEPT !.f = ids[@]]) # ToJson([C[j] EXCEPT !.f = ids[@]]) THEN FALSE ELSE IF C[i].f = C[j].f THEN TRUE ELSE "any"
EqMatrixC(P, C0) == LET ids == Ids(P) C == [i \in 1..Len(C0) |-> Masked(P, C0[i])] IN [i \in 1..Len(C) |-> [j \in 1..Len(C) |-> EqC(ids, C, i, j)]]

(* ------------------------------------------------------------------ actions *)
Do(rec, p, c) == pool' = p /\ cons' = c /\ last' = rec /\ hist' = Append(hist, Strip(rec))
Sizes(P, i) == [nq |-> NQ(P[i].dom), nv |-> NV(P[i].dom), onq |-> NQ(P[i].out), onv |-> NV(P[i].out), act |-> NeedQ(P, i), actD |-> NeedV(P, i)]
DoMk(f) == LET P == Append(pool, f) IN Do([op |-> "mk", f |-> f, exp |-> Sizes(P, Len(P))], P, cons)
\* restricting to an interval that starts at 0 and does not end there is no restriction
DoExtract(i, t1, t2) ==
   LET alias == t1 = 0 /\ t2 > 0
       f == IF alias THEN pool[i] ELSE [kind |-> "extract", name |-> "", f |-> i, t1 |-> t1, t2 |-> t2, dom |-> pool[i].dom, out |-> pool[i].out]
       P == Append(pool, f) IN
   Do([op |-> "mk", f |-> [kind |-> "extract", f |-> i, t1 |-> t1, t2 |-> t2, dom |-> f.dom, out |-> f.out], exp |-> Sizes(P, Len(P))], P, cons)
\* functions that can be saved
RECURSIVE Savable(_, _)
Savable(P, i) == LET f == P[i] IN f.kind \in {"affine", "const", "ident", "poly"} \/ (f.kind = "implicit" /\ Savable(P, f.f))
\* a function saved in an archive, and restored: the same function, a new object
DoSave(i, ar) == LET P == Append(pool, Fresh(pool[i]) @@ [back |-> TRUE]) IN Do([op |-> "save", i |-> i, ar |-> ar, exp |-> Sizes(P, Len(P)) @@ [saved |-> TRUE]], P, cons)
DoEval(i, x, neg) == Do([op |-> "eval", i |-> i, x |-> x, neg |-> neg, time |-> pool[i].kind = "extract",
                         exp |-> [val |-> Val(pool, i, x), jac |-> RowsJ(Jac(pool, i, x)), sound |-> TRUE]], pool, cons)
\* kinds of domain for which the code offers finite differences
\* an angle of half a turn is where differences of angles jump
FdRows(i, x) == LET v == Val(pool, i, x) o == pool[i].out J == Jac(pool, i, x) IN
   [r \in 1..Len(J) |-> IF J[r] = AnyRow \/ \E k \in 1..Len(o) : VOff(o, k) + 1 = r /\ o[k] = "A" /\ ToString(v[k]) = "\"any\"" THEN "any" ELSE J[r]]
DoFd(i, x, c) == Do([op |-> "fd", i |-> i, x |-> x, central |-> c, exp |-> [fd |-> FdRows(i, x)]], pool, cons)
DoEq == Do([op |-> "eq", exp |-> [eq |-> EqMatrix(pool), eqc |-> EqMatrixC(pool, cons)]], pool, cons)
DoMkc(c) == Do([op |-> "mkc", c |-> c, exp |-> [made |-> TRUE]], pool, Append(cons, c))
DoCopyc(i) == Do([op |-> "copyc", i |-> i, exp |-> [made |-> TRUE]], pool, Append(cons, cons[i]))
DoComp(i, cp) == Do([op |-> "comp", i |-> i, comp |-> cp, exp |-> [made |-> TRUE]], pool, [cons EXCEPT ![i].comp = cp])
Init == pool = <<>> /\ cons = <<>> /\ last = [op |-> "init"] /\ hist = <<>>

(* ------------------------------------------------------------- constructors *)
Affine(A, b, n, nm) == [kind |-> "affine", name |-> nm, A |-> A, b |-> b, dom |-> [k \in 1..n |-> "R"], out |-> [k \in 1..Len(b) |-> "R"]]
PolyF(dom, ins, to, A, b, c, id) == [kind |-> "poly", name |-> "p", dom |-> dom, ins |-> ins, to |-> to, out |-> to, A |-> A, b |-> b, c |-> c, id |-> id]
Const(dom, out, v, nm) == [kind |-> "const", name |-> nm, dom |-> dom, out |-> out, v |-> v]
Ident(dom, nm) == [kind |-> "ident", name |-> nm, dom |-> dom, out |-> dom]
StackF(ps, nm) == [kind |-> "stack", name |-> nm, parts |-> ps, dom |-> pool[ps[1]].dom, out |-> Flat([k \in 1..Len(ps) |-> pool[ps[k]].out])]
DiffF(i, dom, l, r) == [kind |-> "diff", name |-> "", f |-> i, l |-> l, r |-> r, dom |-> dom, out |-> DiffOuts(pool[i].out)]
SubsetF(i, dom, at) == [kind |-> "subset", name |-> "", f |-> i, at |-> at, dom |-> dom, out |-> pool[i].out]
ActiveF(i, iv) == [kind |-> "active", name |-> "", f |-> i, iv |-> iv, dom |-> pool[i].dom, out |-> pool[i].out]
ImplicitF(i, dom, ins, lo, hi) == [kind |-> "implicit", name |-> "", f |-> i, ins |-> ins, lo |-> lo, hi |-> hi, dom |-> dom, out |-> DiffOuts(pool[i].out)]
Plain(i) == \A k \in 1..Len(pool[i].out) : pool[i].out[k] \in {"R", "C", "S", "P", "E"}
\* places of the domain of i in dom
Fits(i, dom, at) == LET d == pool[i].dom IN at + Len(d) <= Len(dom) /\ SubSeq(dom, at + 1, at + Len(d)) = d
Places(i, dom) == {at \in 0..Len(dom) : Fits(i, dom, at)}
Outs(i, dom) == {lo \in 1..Len(dom) : LET o == pool[i].out IN o # <<>> /\ lo + Len(o) - 1 <= Len(dom) /\ SubSeq(dom, lo, lo + Len(o) - 1) = o}
InsOf(i, dom, lo) == LET hi == lo + Len(pool[i].out) - 1 IN
   {s \in {SetToSortSeq(X, <) : X \in {Y \in SUBSET ((1..Len(dom)) \ (lo..hi)) : Cardinality(Y) = Len(pool[i].dom)}} : Pick(dom, s) = pool[i].dom}

(* -------------------------------------------------- exhaustive exploration *)
SmallRots == {Id3, RQ(3, 1), Mul(RQ(1, 1), RQ(2, 1))}
Small(t) == CASE t = "R" -> {-1, 2} [] t = "C" -> {0, 1, 2} [] t = "S" -> SmallRots
              [] OTHER -> {[R |-> Id3, t |-> <<0, 0, 0>>], [R |-> RQ(2, 1), t |-> <<1, 0, 2>>], [R |-> Mul(RQ(1, 1), RQ(2, 1)), t |-> <<0, -1, 1>>]}
RECURSIVE Grid(_)
Grid(d) == IF d = <<>> THEN {<<>>} ELSE {<<a>> \o b : a \in Small(d[1]), b \in Grid(Tail(d))}
LeafSet == {Affine(<<<<1, -2>>, <<0, 3>>>>, <<1, 0>>, 2, "a"), Affine(<<<<0, 2>>>>, <<-1>>, 2, "a"),
            PolyF(<<"R">>, <<1>>, <<"R", "C">>, <<<<1>>, <<2>>>>, <<0, 1>>, <<1, 0>>, 1), PolyF(<<"R", "C">>, <<2>>, <<"C">>, <<<<1>>>>, <<1>>, <<0>>, 2),
            Const(<<"R">>, <<"R", "C">>, <<2, 3>>, "a"), Const(<<>>, <<"S">>, <<RQ(1, 1)>>, "a"), Const(<<"C">>, <<"E">>, <<[R |-> RQ(2, 3), t |-> <<1, 2, 0>>]>>, "a"),
            Ident(<<"R">>, "a"), Ident(<<"C">>, "a"), Ident(<<"S">>, "a"), Ident(<<"P">>, "a"), Ident(<<"E">>, "a"), Ident(<<"R", "S">>, "a")}
Wide == {<<"R", "R", "C", "R">>, <<"C", "R", "C">>, <<"S", "R", "S">>, <<"E", "C", "E">>, <<"P", "P">>, <<"R", "S", "R", "S">>, <<"R", "R", "R", "R">>}
NextMk == \/ pool = <<>> /\ \E f \in LeafSet : DoMk(f)
          \/ Len(pool) = 1 /\ \/ \E d \in Wide, l \in 0..4, r \in 0..4 : l \in Places(1, d) /\ r \in Places(1, d) /\ (l + Len(pool[1].dom) <= r \/ r + Len(pool[1].dom) <= l) /\ pool[1].dom # <<>> /\ DoMk(DiffF(1, d, l, r))
                              \/ \E d \in Wide : \E at \in Places(1, d) : DoMk(SubsetF(1, d, at))
                              \/ DoMk(StackF(<<1, 1>>, "s"))
                              \/ \E a \in 0..2, n \in 0..2 : a + n <= NV(pool[1].dom) /\ DoMk(ActiveF(1, <<<<a, n>>>>))
                              \/ pool[1].dom = <<"R">> /\ \E t1 \in -1..2, t2 \in -1..2 : DoExtract(1, t1, t2)
                              \/ \E d \in Wide : \E lo \in Outs(1, d) : \E s \in InsOf(1, d, lo) : DoMk(ImplicitF(1, d, s, lo, lo + Len(pool[1].out) - 1))
NextEval == Len(pool) = 2 /\ last.op = "mk" /\ ~Saves /\ \E x \in Grid(pool[2].dom) : DoEval(2, x, FALSE)
NextSave == Saves /\ last.op = "mk" /\ Savable(pool, Len(pool)) /\ \E ar \in {"text", "xml", "binary"} : DoSave(Len(pool), ar)
NextBack == last.op = "save" /\ \E x \in Grid(pool[Len(pool)].dom) : DoEval(Len(pool), x, FALSE)
Next == (NextMk /\ last.op # "save") \/ NextEval \/ NextSave \/ NextBack
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- random behaviours *)
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)  \* mentions the state: not a constant
RVal(t) == CASE t = "R" -> R(-3..3) [] t = "C" -> R(0..3) [] t = "S" -> R(Rots) [] OTHER -> [R |-> R(Rots), t |-> <<R(-3..3), R(-3..3), R(-3..3)>>]
RVals(d) == TLCEval([k \in 1..Len(d) |-> RVal(d[k])])
Doms == {<<"R">>, <<"R", "R">>, <<"C">>, <<"S">>, <<"E">>, <<"P">>, <<"R", "C">>, <<"C", "R">>, <<"R", "S">>}
WideDoms == {<<"R", "R", "R", "R">>, <<"R", "C", "R", "C", "R">>, <<"C", "R", "R", "C", "R">>, <<"S", "R", "S", "C">>, <<"R", "S", "R", "S">>, <<"E", "C", "R", "E">>, <<"P", "R", "P">>,
             <<"R", "E", "R", "C", "S">>, <<"C", "S", "S", "R", "R">>}
AllDoms == Doms \cup WideDoms
RCoef(m, n) == TLCEval([k \in 1..m |-> [j \in 1..n |-> IF R(1..3) = 1 THEN 0 ELSE R(-3..3)]])
RLeaf == LET k == R(1..10) d == R(AllDoms) nm == R({"a", "b"}) IN
   CASE k <= 3 -> LET n == R(1..4) m == R(1..3) IN Affine(RCoef(m, n), RVals([j \in 1..m |-> "R"]), n, nm)
     [] k <= 6 -> LET can == {v \in 1..Len(d) : d[v] \in {"R", "C"}} ins == SetToSortSeq(IF can = {} THEN {} ELSE R(SUBSET can), <) m == R(1..3)
                      to == TLCEval([j \in 1..m |-> R({"R", "R", "C"})]) IN
                  PolyF(d, ins, to, RCoef(m, Len(ins)), RVals([j \in 1..m |-> "R"]), TLCEval([j \in 1..m |-> R(0..1)]), Len(pool) + 1)
     [] k = 7 -> LET o == R(Doms) IN Const(IF R(1..3) = 1 THEN <<>> ELSE d, o, RVals(o), nm)
     [] OTHER -> Ident(d, nm)
Any2(S) == R(S)
DiffPlaces(i, d) == {lr \in (0..Len(d)) \X (0..Len(d)) : lr[1] \in Places(i, d) /\ lr[2] \in Places(i, d) /\ (lr[1] + Len(pool[i].dom) <= lr[2] \/ lr[2] + Len(pool[i].dom) <= lr[1])}
\* a composite of the kind k, or nothing
RComp(k) == LET S == 1..Len(pool) IN
   CASE k = "stack" -> LET i == R(S) c == {j \in S : pool[j].dom = pool[i].dom} n == R(1..3) IN {StackF(TLCEval([m \in 1..n |-> IF m = 1 THEN i ELSE R(c)]), R({"s", "t"}))}
     [] k = "diff" -> LET c == {<<i, d>> \in S \X AllDoms : Plain(i) /\ pool[i].dom # <<>> /\ DiffPlaces(i, d) # {}} IN
                      IF c = {} THEN {} ELSE LET x == R(c) p == R(DiffPlaces(x[1], x[2])) IN {DiffF(x[1], x[2], p[1], p[2])}
     [] k = "subset" -> LET c == {<<i, d>> \in S \X AllDoms : Places(i, d) # {}} IN
                      IF c = {} THEN {} ELSE LET x == R(c) IN {SubsetF(x[1], x[2], R(Places(x[1], x[2])))}
     [] k = "active" -> LET i == R(S) n == NV(pool[i].dom) a == R(0..n) b == R(0..n) IN
                      {ActiveF(i, IF R(1..3) = 1 THEN <<<<a, R(0..(n - a))>>>> ELSE <<<<a, R(0..(n - a))>>, <<b, R(0..(n - b))>>>>)}
     [] k = "implicit" -> LET c == {<<i, d>> \in S \X AllDoms : Plain(i) /\ \E lo \in Outs(i, d) : InsOf(i, d, lo) # {}} IN
                      IF c = {} THEN {} ELSE LET x == R(c) lo == R({l \in Outs(x[1], x[2]) : InsOf(x[1], x[2], l) # {}}) IN
                         {ImplicitF(x[1], x[2], R(InsOf(x[1], x[2], lo)), lo, lo + Len(pool[x[1]].out) - 1)}
\* the same function again, or with one thing changed and the same name
RTwin == LET i == R(1..Len(pool)) f == Fresh(pool[i]) IN
   IF R(1..3) = 1 THEN {f} ELSE
   CASE f.kind = "affine" -> {IF R(1..2) = 1 THEN [f EXCEPT !.b[R(1..Len(f.b))] = R(-3..3)] ELSE [f EXCEPT !.A[R(1..Len(f.A))][R(1..Len(f.dom))] = R(-3..3)]}
     [] f.kind = "const" -> {[f EXCEPT !.v = RVals(f.out)]}
     [] f.kind = "ident" -> {Ident(R({<<"R", "C">>, <<"C", "R">>, f.dom}), f.name)}
     [] f.kind = "stack" -> {StackF(TLCEval([m \in 1..Len(f.parts) |-> R({j \in 1..Len(pool) : pool[j].dom = f.dom})]), f.name)}
     [] f.kind = "diff" -> LET p == R(DiffPlaces(f.f, f.dom)) IN {DiffF(f.f, f.dom, p[1], p[2])}
     [] f.kind = "subset" -> {SubsetF(f.f, f.dom, R(Places(f.f, f.dom)))}
     [] f.kind = "active" -> LET n == NV(f.dom) a == R(0..n) IN {ActiveF(f.f, <<<<a, R(0..(n - a))>>>>)}
     [] f.kind = "implicit" -> {[f EXCEPT !.ins = R(InsOf(f.f, f.dom, f.lo))]}
     [] OTHER -> {f}
Small1(f) == Len(f.out) <= 12 /\ f.kind # "extract"
Cp == {"Equality", "EqualToZero", "Superior", "Inferior"}
RComps(n, S) == TLCEval([k \in 1..n |-> R(S)])
RMask(n) == IF R(1..2) = 1 THEN <<>> ELSE TLCEval([k \in 1..n |-> R({TRUE, TRUE, FALSE})])
RCons == LET i == R(1..Len(pool)) n == NV(pool[i].out) IN {[kind |-> "implicit", f |-> i, comp |-> RComps(n, Cp), mask |-> RMask(n)]}
RTwinC == LET c == cons[R(1..Len(cons))] n == Len(c.comp) IN
   IF R(1..3) = 1 THEN {c} ELSE IF R(1..2) = 1 THEN {[c EXCEPT !.mask = RMask(n)]} ELSE {[c EXCEPT !.comp[R(1..n)] = R(Cp)]}
\* explicit constraints on whole functions
RExpl == LET S == 1..Len(pool) c == {<<i, d>> \in S \X AllDoms : Plain(i) /\ \E lo \in Outs(i, d) : InsOf(i, d, lo) # {}} IN
   IF c = {} THEN {} ELSE LET x == R(c) lo == R({l \in Outs(x[1], x[2]) : InsOf(x[1], x[2], l) # {}}) n == NV(pool[x[1]].out) IN
      {[kind |-> "explicit", f |-> x[1], dom |-> x[2], ins |-> R(InsOf(x[1], x[2], lo)), lo |-> lo, hi |-> lo + Len(pool[x[1]].out) - 1,
        comp |-> RComps(n, {"Equality", "EqualToZero"}), mask |-> <<>>]}
FdDom(d) == \A k \in 1..Len(d) : d[k] # "P"
\* finite differences ignore the restriction to an active set, and angles computed by the functions of the test are counted in quarter turns
RECURSIVE NoFd(_, _)
NoFd(P, i) == LET f == P[i] IN CASE f.kind = "active" -> TRUE [] f.kind = "poly" -> "C" \in Range(f.out)
   [] f.kind = "stack" -> \E k \in 1..Len(f.parts) : NoFd(P, f.parts[k]) [] f.kind \in {"diff", "subset", "extract", "implicit"} -> NoFd(P, f.f) [] OTHER -> FALSE
SimNext == /\ Len(hist) < Depth
   /\ \E k \in {IF Len(pool) < 2 THEN 1 ELSE R(1..20)} :
      CASE k <= 2 /\ Len(pool) < 9 -> \E f \in {RLeaf} : DoMk(f)
        [] k \in 3..7 /\ Len(pool) < 9 -> \E kk \in {R({"stack", "diff", "subset", "active", "implicit", "implicit", "diff"})} : \E S \in {RComp(kk)} :
              IF S = {} THEN DoEq ELSE \E f \in S : IF Small1(f) THEN DoMk(f) ELSE DoEq
        [] k = 8 /\ Len(pool) < 9 -> \E c \in {{i \in 1..Len(pool) : pool[i].dom = <<"R">>}} : IF c = {} THEN DoMk(Affine(<<<<2>>, <<1>>>>, <<0, 1>>, 1, "a")) ELSE
              \E i \in {R(c)}, t1 \in {R(-2..3)}, t2 \in {R(-2..3)} : DoExtract(i, t1, t2)
        [] k \in 9..10 /\ Len(pool) < 9 -> \E S \in {RTwin} : \E f \in S : IF f.kind = "extract" THEN DoExtract(f.f, R(-2..3), f.t2) ELSE DoMk(f)
        [] k = 11 -> DoEq
        [] k = 18 /\ Saves /\ Len(pool) < 9 -> \E c \in {{i \in 1..Len(pool) : Savable(pool, i)}} : IF c = {} THEN DoEq ELSE \E i \in {R(c)} : DoSave(i, R({"text", "xml", "binary"}))
        [] k = 12 /\ Len(cons) < 7 -> \E S \in {RCons} : \E c \in S : DoMkc(c)
        [] k = 13 /\ Len(cons) < 7 -> \E S \in {RExpl} : IF S = {} THEN DoEq ELSE \E c \in S : DoMkc(c)
        [] k = 14 /\ Len(cons) < 7 /\ cons # <<>> -> \E S \in {RTwinC} : \E c \in S : IF R(1..2) = 1 THEN DoCopyc(R(1..Len(cons))) ELSE DoMkc(c)
        [] k = 15 /\ cons # <<>> -> \E i \in {R(1..Len(cons))} : DoComp(i, RComps(Len(cons[i].comp), IF cons[i].kind = "explicit" THEN {"Equality", "EqualToZero"} ELSE Cp))
        [] k \in 16..17 -> \E c \in {{i \in 1..Len(pool) : FdDom(pool[i].dom) /\ pool[i].dom # <<>> /\ ~NoFd(pool, i) /\ \A m \in 1..Len(pool[i].out) : pool[i].out[m] # "P"}} : IF c = {} THEN DoEq ELSE
              \E i \in {R(c)} : \E x \in {RVals(pool[i].dom)} : DoFd(i, x, R({TRUE, FALSE}))
        [] OTHER -> \E i \in {R({1, Len(pool)} \cup (1..Len(pool)))} : \E x \in {RVals(pool[i].dom)} : DoEval(i, x, R({TRUE, FALSE}))
SimSpec == Init /\ [][SimNext]_vars

(* -------------------------------------------------- properties of the design *)
\* the derivative predicts the change of a real output along a real variable exactly: outputs have degree at most 2
Shift(x, j, d) == [x EXCEPT ![j] = @ + d]
RECURSIVE Cut(_, _)
Cut(P, i) == LET f == P[i] IN CASE f.kind = "active" -> TRUE [] f.kind = "stack" -> \E k \in 1..Len(f.parts) : Cut(P, f.parts[k])
   [] f.kind \in {"diff", "subset", "extract", "implicit"} -> Cut(P, f.f) [] OTHER -> FALSE
DerivExact == last.op = "eval" => LET i == last.i f == pool[i] x == last.x IN
   ~Cut(pool, i) => \A j \in 1..Len(f.dom), k \in 1..Len(f.out) : (f.dom[j] = "R" /\ f.out[k] = "R") =>
      LET a == Val(pool, i, Shift(x, j, 1))[k] b == Val(pool, i, Shift(x, j, -1))[k] IN a - b = 2 * Jac(pool, i, x)[VOff(f.out, k) + 1][VOff(f.dom, j) + 1]
\* columns of variables a function does not depend on are zero
SoundDep == last.op = "eval" => LET n == NeedV(pool, last.i) IN
   LET J == Jac(pool, last.i, last.x) IN \A k \in 1..Len(J) : J[k] = AnyRow \/ \A j \in 1..Len(n) : n[j] \/ J[k][j] = 0
\* a function minus itself is neutral
DiffNeutral == (last.op = "eval" /\ pool[last.i].kind = "diff") => LET f == pool[last.i] n == Len(pool[f.f].dom) IN
   SubSeq(last.x, f.l + 1, f.l + n) = SubSeq(last.x, f.r + 1, f.r + n) => \A k \in 1..Len(f.out) :
     LET y == last.exp.val[k] IN CASE f.out[k] = "L" -> y = Id3 [] f.out[k] = "W" -> y = IdP [] f.out[k] = "A" -> y = 0 [] OTHER -> y = 0
WellSized == last.op = "eval" => Len(last.exp.val) = Len(pool[last.i].out) /\ Len(last.exp.jac) = NV(pool[last.i].out)
Emit == IF Mode = "bfs" /\ last'.op = "eval" THEN PrintT(ToJson(hist \o <<last'>>)) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
