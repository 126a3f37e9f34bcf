------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra over the rationals, a rational being <<n, d>> with  *)
(* d > 0 in lowest terms.  Matrices are sequences of rows.                  *)
EXTENDS Integers, Sequences, TLC

LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* integers have 32 bits: a rational that would need more than 15 is Bad, and so is whatever is computed from it
Bad == <<0, 0>>
IsBad(x) == x[2] = 0
Lim(x) == IF Ab(x[1]) > 30000 \/ x[2] > 30000 THEN Bad ELSE x
Rt(n, d) == IF n = 0 THEN <<0, 1>> ELSE
   LET g == Gcd(Ab(n), Ab(d)) s == IF d < 0 THEN -1 ELSE 1 IN Lim(<<s * (n \div g), (s * d) \div g>>)
Q(n) == Lim(<<n, 1>>)
RZero == <<0, 1>>
RAdd(x, y) == IF IsBad(x) \/ IsBad(y) THEN Bad ELSE IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x ELSE
   LET g == Gcd(x[2], y[2]) IN Rt(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == IF IsBad(x) \/ IsBad(y) THEN Bad ELSE IF x[1] = 0 \/ y[1] = 0 THEN RZero ELSE
   LET g == Gcd(Ab(x[1]), y[2]) h == Gcd(Ab(y[1]), x[2]) IN Lim(<<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>)
RInv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
RDiv(x, y) == RMul(x, RInv(y))
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
RECURSIVE RSum(_, _, _)
RSum(f(_), a, b) == IF a > b THEN RZero ELSE RAdd(f(a), RSum(f, a + 1, b))

Rows(M) == Len(M)
\* the number of columns is given explicitly: a matrix may have no rows
MV(M, x) == TLCEval([i \in 1..Len(M) |-> RSum(LAMBDA j : RMul(M[i][j], x[j]), 1, Len(x))])
MM(A, B, n, m) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..m |-> RSum(LAMBDA k : RMul(A[i][k], B[k][j]), 1, n)])])
Tr(M, m) == TLCEval([j \in 1..m |-> TLCEval([i \in 1..Len(M) |-> M[i][j]])])
VAdd(x, y) == TLCEval([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
VNeg(x) == TLCEval([i \in 1..Len(x) |-> RNeg(x[i])])
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Q(1) ELSE RZero]]

\* reduced row echelon form of the first m columns: [M |-> matrix, piv |-> pivot columns]
RECURSIVE Rref(_, _, _, _, _)
Rref(M, m, r, c, piv) ==
  IF c > m \/ r > Len(M) THEN [M |-> M, piv |-> piv] ELSE
  LET cand == {i \in r..Len(M) : M[i][c][1] # 0 \/ IsBad(M[i][c])} IN
  IF cand = {} THEN Rref(M, m, r, c + 1, piv) ELSE
  LET p == CHOOSE i \in cand : TRUE
      row == TLCEval([j \in 1..Len(M[p]) |-> RDiv(M[p][j], M[p][c])])
      S == TLCEval([i \in 1..Len(M) |-> IF i = r THEN row ELSE
              LET old == IF i = p THEN M[r] ELSE M[i] IN
              TLCEval([j \in 1..Len(row) |-> RSub(old[j], RMul(old[c], row[j]))])])
  IN Rref(S, m, r + 1, c + 1, Append(piv, c))

PivRow(piv, c) == CHOOSE i \in 1..Len(piv) : piv[i] = c
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
\* solutions of A x = b (which has some): one solution, and a basis (columns) of the kernel
SolveLin(A, b, m) ==
  LET aug == TLCEval([i \in 1..Len(A) |-> Append(A[i], b[i])])
      R == Rref(aug, m, 1, 1, <<>>)
      free == SelectSeq([j \in 1..m |-> j], LAMBDA j : ~InSeq(j, R.piv))
  IN [x |-> TLCEval([j \in 1..m |-> IF InSeq(j, R.piv) THEN R.M[PivRow(R.piv, j)][m + 1] ELSE RZero]),
      \* N is m x Len(free)
      N |-> TLCEval([j \in 1..m |-> TLCEval([k \in 1..Len(free) |->
              IF InSeq(j, R.piv) THEN RNeg(R.M[PivRow(R.piv, j)][free[k]]) ELSE IF free[k] = j THEN Q(1) ELSE RZero])]),
      n |-> Len(free)]
Rank(A, m) == Len(Rref(A, m, 1, 1, <<>>).piv)
\* least squares within the affine set {p + N y}: minimise |A (p + N y) - b|
LeastIn(A, b, p, N, n, m) ==
  IF Len(A) = 0 \/ n = 0 THEN [x |-> p, N |-> N, n |-> n] ELSE
  LET B == MM(A, N, m, n)
      r == VAdd(b, VNeg(MV(A, p)))
      Bt == Tr(B, n)
      s == SolveLin(MM(Bt, B, Len(A), n), MV(Bt, r), n)
  IN [x |-> VAdd(p, MV(N, s.x)), N |-> MM(N, s.N, n, s.n), n |-> s.n]
\* shortest element of {p + N y}
Shortest(p, N, n, m) == IF n = 0 THEN p ELSE
  LET Nt == Tr(N, n)
      s == SolveLin(MM(Nt, N, m, n), VNeg(MV(Nt, p)), n)
  IN VAdd(p, MV(N, s.x))
AnyBad(v) == \E i \in 1..Len(v) : IsBad(v[i])
RatJ(x) == [n |-> x[1], d |-> x[2]]
RatsJ(v) == IF AnyBad(v) THEN "any" ELSE [i \in 1..Len(v) |-> RatJ(v[i])]
RMax(s) == CHOOSE x \in s : \A y \in s : ~RLess(x, y)
=============================================================================
