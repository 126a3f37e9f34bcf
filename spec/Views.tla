------------------------------- MODULE Views -------------------------------
(* Views of a matrix through lists of row and column intervals              *)
(* (matrix-view.hh: MatrixBlocks, MatrixBlockView).  State: the matrix M,   *)
(* the selection (kind, rows, cols).  A view is the matrix of the selected  *)
(* entries in list order; writing to it changes exactly those entries.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS NR, NC, MaxSegs, Mode, Depth

VARIABLES M, kind, rows, cols, last, hist
vars == <<M, kind, rows, cols, last, hist>>
view == <<M, kind, rows, cols>>

SegsOf(n) == {<<f, k>> \in (0..n) \X (0..n) : f + k <= n}
FlatSeg(s) == [k \in 1..s[2] |-> s[1] + k - 1]
Flat(a) == FoldLeft(LAMBDA acc, s : acc \o FlatSeg(s), <<>>, a)
Card(a) == FoldLeft(LAMBDA acc, s : acc + s[2], 0, a)
Disjoint(a) == IsInjective(Flat(a))
Lists(n) == {<<>>} \cup {a \in UNION {[1..k -> SegsOf(n)] : k \in 1..MaxSegs} : Disjoint(a)}
All(n) == [k \in 1..n |-> k - 1]

M0 == [i \in 1..NR |-> [j \in 1..NC |-> 10 * i + j]]
N0 == [i \in 1..NR |-> [j \in 1..NC |-> 500 + 20 * i + 3 * j]]
RI == IF kind = "cols" THEN All(NR) ELSE Flat(rows)
CI == IF kind = "rows" THEN All(NC) ELSE Flat(cols)
\* sub-matrix of A on index sequences
Sel(A, r, c) == [i \in 1..Len(r) |-> [j \in 1..Len(c) |-> A[r[i] + 1][c[j] + 1]]]
T(A, r, c) == [j \in 1..c |-> [i \in 1..r |-> A[i][j]]]
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Put(A, r, c, X) == [i \in 1..NR |-> [j \in 1..NC |->
    IF Contains(r, i - 1) /\ Contains(c, j - 1) THEN X[Pos(r, i - 1)][Pos(c, j - 1)] ELSE A[i][j]]]
Fresh(b) == [i \in 1..Len(RI) |-> [j \in 1..Len(CI) |-> b + 7 * i + 3 * j]]
Dim == [nr |-> Len(RI), nc |-> Len(CI)]

Do(rec, new) == /\ M' = new /\ UNCHANGED <<kind, rows, cols>>
                /\ last' = rec @@ [m |-> M, kind |-> kind, rows |-> rows, cols |-> cols]
                /\ hist' = Append(hist, rec)

Init == /\ M = M0 /\ last = [op |-> "init"]
        /\ \/ kind = "rows" /\ rows \in Lists(NR) /\ cols = <<>>
           \/ kind = "cols" /\ cols \in Lists(NC) /\ rows = <<>>
           \/ kind = "both" /\ rows \in Lists(NR) /\ cols \in Lists(NC)
        /\ hist = <<[op |-> "select", kind |-> kind, rows |-> rows, cols |-> cols, m |-> M]>>

Read == Do([op |-> "read", exp |-> [val |-> Sel(M, RI, CI), dims |-> <<Len(RI), Len(CI)>>]], M)
ReadT == Do([op |-> "readT", exp |-> [val |-> T(Sel(M, RI, CI), Len(RI), Len(CI))]], M)
KeepRows == kind # "cols" /\ Do([op |-> "keepRows", exp |-> [val |-> Sel(M, RI, All(NC))]], M)
KeepCols == kind # "rows" /\ Do([op |-> "keepCols", exp |-> [val |-> Sel(M, All(NR), CI)]], M)
\* restriction of the selection itself
Block(i, j, a, b) == /\ kind = "both" /\ i + a <= Len(RI) /\ j + b <= Len(CI)
                     /\ Do([op |-> "block", i |-> i, j |-> j, ni |-> a, nj |-> b,
                            exp |-> [val |-> Sel(M, SubSeq(RI, i + 1, i + a), SubSeq(CI, j + 1, j + b))]], M)
MiddleRows(i, a) == /\ kind = "both" /\ i + a <= Len(RI)
                    /\ Do([op |-> "midRows", i |-> i, ni |-> a, exp |-> [val |-> Sel(M, SubSeq(RI, i + 1, i + a), CI)]], M)
MiddleCols(j, b) == /\ kind = "both" /\ j + b <= Len(CI)
                    /\ Do([op |-> "midCols", j |-> j, nj |-> b, exp |-> [val |-> Sel(M, RI, SubSeq(CI, j + 1, j + b))]], M)
Write(b) == LET X == Fresh(b) A == Put(M, RI, CI, X) IN
            Do([op |-> "write", x |-> X, exp |-> [m |-> A, val |-> X]], A)
WriteT(b) == LET X == Fresh(b) A == Put(M, RI, CI, X) IN
             Do([op |-> "writeT", x |-> T(X, Len(RI), Len(CI)), exp |-> [m |-> A]], A)
CopyFrom == LET A == Put(M, RI, CI, Sel(N0, RI, CI)) IN
            Do([op |-> "copy", n |-> N0, exp |-> [m |-> A]], A)
\* expressions mixing views and matrices
Sum == LET V == Sel(M, RI, CI) X == Fresh(100) IN
       Do([op |-> "sum", x |-> X,
           exp |-> [mv |-> [i \in 1..Len(RI) |-> [j \in 1..Len(CI) |-> V[i][j] + X[i][j]]],
                    mmv |-> [i \in 1..Len(RI) |-> [j \in 1..Len(CI) |-> X[i][j] - V[i][j]]],
                    vv |-> [i \in 1..Len(RI) |-> [j \in 1..Len(CI) |-> 2 * V[i][j]]]]], M)
\* single column / row matrices: views of vectors
ReadVec == kind = "rows" /\ Do([op |-> "readVec", exp |-> [val |-> [k \in 1..Len(RI) |-> M[RI[k] + 1][1]]]], M)
WriteVec(b) == /\ kind = "rows"
               /\ LET X == [k \in 1..Len(RI) |-> b + k]
                      A == [i \in 1..NR |-> [j \in 1..NC |-> IF j = 1 /\ Contains(RI, i - 1) THEN X[Pos(RI, i - 1)] ELSE M[i][j]]]
                  IN Do([op |-> "writeVec", x |-> X, exp |-> [col |-> [i \in 1..NR |-> A[i][1]]]], A)
Zero == LET A == Put(M, RI, CI, [i \in 1..Len(RI) |-> [j \in 1..Len(CI) |-> 0]]) IN
        Do([op |-> "zero", exp |-> [m |-> A, isZero |-> TRUE]], A)
IsZero == Do([op |-> "isZero", exp |-> [isZero |-> (\A i \in 1..Len(RI), j \in 1..Len(CI) : M[RI[i] + 1][CI[j] + 1] = 0)]], M)

Next == \/ Read \/ ReadT \/ KeepRows \/ KeepCols \/ CopyFrom \/ Sum \/ ReadVec \/ Zero \/ IsZero
        \/ (\E b \in {200} : Write(b) \/ WriteT(b) \/ WriteVec(b))
        \/ \E i \in 0..NR-1, a \in 1..NR : MiddleRows(i, a) \/ \E j \in 0..NC-1, b \in 1..NC : Block(i, j, a, b)
        \/ \E j \in 0..NC-1, b \in 1..NC : MiddleCols(j, b)
\* one step from each selection
NextOne == Len(hist) = 1 /\ Next
Spec == Init /\ [][NextOne]_vars

\* long behaviours: the selection changes too
\* mentioning hist keeps TLC from evaluating choices once and for all
R(X) == IF hist = <<>> THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
RSeg(n) == LET f == R(0..n) IN <<f, R(0..(n - f))>>
RECURSIVE RList(_, _)
RList(n, k) == IF k = 0 THEN <<>> ELSE LET a == RList(n, k - 1) s == RSeg(n) IN
               IF Disjoint(Append(a, s)) THEN Append(a, s) ELSE a
Reselect == /\ kind' = R({"rows", "cols", "both", "both"})
            /\ \E k \in {R(0..MaxSegs)} : rows' = IF kind' = "cols" THEN <<>> ELSE RList(NR, k)
            /\ \E k \in {R(0..MaxSegs)} : cols' = IF kind' = "rows" THEN <<>> ELSE RList(NC, k)
            /\ UNCHANGED M
            /\ last' = [op |-> "select"]
            /\ hist' = Append(hist, [op |-> "select", kind |-> kind', rows |-> rows', cols |-> cols'])
SimInit == /\ M = M0 /\ last = [op |-> "init"] /\ kind = "rows" /\ rows = <<<<0, 1>>>> /\ cols = <<>>
           /\ hist = <<[op |-> "select", kind |-> kind, rows |-> rows, cols |-> cols, m |-> M]>>
SimNext == Reselect \/ \E b \in {100 * R(1..9)} :
           \/ Read \/ ReadT \/ CopyFrom \/ Sum \/ Zero \/ IsZero \/ Write(b) \/ WriteT(b) \/ WriteVec(b) \/ ReadVec
           \/ KeepRows \/ KeepCols
           \/ \E i \in {R(0..NR-1)}, a \in {R(1..NR)}, j \in {R(0..NC-1)}, c \in {R(1..NC)} :
              MiddleRows(i, a) \/ MiddleCols(j, c) \/ Block(i, j, a, c)
SimSpec == SimInit /\ [][SimNext]_vars

\* properties of the design: reading after writing returns what was written; other entries are untouched
Untouched == [][\A i \in 1..NR, j \in 1..NC : (~Contains(RI, i - 1) \/ ~Contains(CI, j - 1)) => M'[i][j] = M[i][j]]_vars
ReadBack == last.op = "write" => Sel(M, RI, CI) = last.exp.val

Emit == IF Mode = "bfs" THEN PrintT(ToJson(last')) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
============================================================================
