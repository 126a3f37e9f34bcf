----------------------------- MODULE Intervals -----------------------------
(* Lists of index intervals (matrix-view.hh: BlockIndex, RowBlockIndices,   *)
(* ColBlockIndices).  A segment is <<first, length>>; a list denotes a set  *)
(* of indices, and also the sequence Flat(list) in which a view visits them.*)
(*                                                                          *)
(* State: a row selection `reg` (what a user accumulates with addRow) which *)
(* is raw or normalised, on which each library operation acts.  `last` is   *)
(* the operation just taken with its expected result; it is hidden by VIEW, *)
(* and printed once per transition: one test of the code per transition.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS U,        \* indices are 0..U-1
          MaxSegs,  \* longest list built
          Mode      \* "bfs": print each transition, "sim": print each behaviour of length Depth
CONSTANT Depth

VARIABLES reg, last, hist
vars == <<reg, last, hist>>
view == reg

Seg == {<<f, n>> \in (0..U) \X (0..U) : f + n <= U}
Idx(s) == {i \in 0..U-1 : s[1] <= i /\ i < s[1] + s[2]}
S(a) == UNION {Idx(a[k]) : k \in 1..Len(a)}
FlatSeg(s) == [k \in 1..s[2] |-> s[1] + k - 1]
Flat(a) == FoldLeft(LAMBDA acc, s : acc \o FlatSeg(s), <<>>, a)
Card(a) == FoldLeft(LAMBDA acc, s : acc + s[2], 0, a)

\* the documented order: lower bounds first, then lengths
Less(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
Sorted(a) == \A k \in 1..Len(a)-1 : ~Less(a[k+1], a[k])
NoEmpty(a) == \A k \in 1..Len(a) : a[k][2] > 0
\* normal form of a set of indices: its maximal runs in increasing order
Starts(X) == {i \in X : (i - 1) \notin X}
RunLen(X, i) == CHOOSE n \in 1..U : (\A k \in 0..n-1 : i + k \in X) /\ (i + n) \notin X
Normal(X) == LET st == SetToSortSeq(Starts(X), <) IN [k \in 1..Len(st) |-> <<st[k], RunLen(X, st[k])>>]
IsNormal(a) == NoEmpty(a) /\ \A k \in 1..Len(a)-1 : a[k][1] + a[k][2] < a[k+1][1]
SortedSeq(X) == SetToSortSeq(X, <)

\* stable insertion of a segment in a sorted list
InsPos(a, s) == Cardinality({k \in 1..Len(a) : ~Less(s, a[k])})
Ins(a, s) == SubSeq(a, 1, InsPos(a, s)) \o <<s>> \o SubSeq(a, InsPos(a, s) + 1, Len(a))
InsAll(a, b) == FoldLeft(Ins, a, b)
Sort(a) == InsAll(<<>>, a)

Do(rec, new) == /\ reg' = new
                /\ last' = rec
                /\ hist' = Append(hist, rec)

Init == reg = <<>> /\ last = [op |-> "init"] /\ hist = <<>>

\* addRow: appended as is
AddRaw(s) == /\ Len(reg) < MaxSegs
             /\ Do([op |-> "addRow", reg |-> reg, seg |-> s,
                    exp |-> [flat |-> Flat(Append(reg, s)), nb |-> Card(Append(reg, s))]], Append(reg, s))
\* sort + shrink + cardinal
Normalise == Do([op |-> "normalise", reg |-> reg,
                 exp |-> [set |-> SortedSeq(S(reg)), nb |-> Cardinality(S(reg)),
                          normal |-> IF NoEmpty(reg) THEN Normal(S(reg)) ELSE <<>>, exact |-> NoEmpty(reg)]],
                Normal(S(reg)))
\* sort alone keeps the multiset of segments and orders it
SortOnly == Do([op |-> "sort", reg |-> reg, exp |-> [list |-> Sort(reg)]], reg)
Cardinal == Do([op |-> "cardinal", reg |-> reg, exp |-> [nb |-> Card(reg)]], reg)
\* insertion in a sorted list, possibly followed by shrink
AddSorted(s) == /\ Len(reg) < MaxSegs /\ Sorted(reg)
                /\ Do([op |-> "add", reg |-> reg, seg |-> s,
                       exp |-> [list |-> Ins(reg, s), set |-> SortedSeq(S(reg) \cup Idx(s))]], Ins(reg, s))
AddList(b) == /\ Len(reg) + Len(b) <= MaxSegs + 1 /\ Sorted(reg) /\ Sorted(b)
              /\ Do([op |-> "addList", reg |-> reg, list |-> b,
                     exp |-> [list |-> InsAll(reg, b), set |-> SortedSeq(S(reg) \cup S(b))]], Normal(S(InsAll(reg, b))))
\* set differences (documented for sorted lists; here: normal left operand)
DiffSeg(s) == /\ IsNormal(reg)
              /\ Do([op |-> "diffSeg", reg |-> reg, seg |-> s,
                     exp |-> [flat |-> SortedSeq(S(reg) \ Idx(s))]], Normal(S(reg) \ Idx(s)))
DiffFrom(s) == /\ IsNormal(reg)
               /\ Do([op |-> "diffFrom", reg |-> reg, seg |-> s,
                      exp |-> [flat |-> SortedSeq(Idx(s) \ S(reg))]], reg)
DiffList(b) == /\ IsNormal(reg) /\ IsNormal(b)
               /\ Do([op |-> "diffList", reg |-> reg, list |-> b,
                      exp |-> [flat |-> SortedSeq(S(reg) \ S(b))]], Normal(S(reg) \ S(b)))
\* complement in a vector of size n
Complement(n) == /\ IsNormal(reg)
                 /\ Do([op |-> "complement", reg |-> reg, n |-> n,
                        exp |-> [flat |-> SortedSeq((0..n-1) \ S(reg))]], reg)
\* take the first k visited indices out
Split(k) == /\ k <= Card(reg)
            /\ Do([op |-> "split", reg |-> reg, k |-> k,
                   exp |-> [first |-> SubSeq(Flat(reg), 1, k), rest |-> SubSeq(Flat(reg), k + 1, Card(reg))]], reg)
Extract(s, k) == /\ reg # <<>> /\ k >= 1 /\ s + k <= Card(reg)
                 /\ Do([op |-> "extract", reg |-> reg, s |-> s, k |-> k,
                        exp |-> [flat |-> SubSeq(Flat(reg), s + 1, s + k)]], reg)
\* on two segments
Pair(s, t) == /\ reg = <<>>
              /\ Do([op |-> "pair", a |-> s, b |-> t,
                     exp |-> [overlap |-> (Idx(s) \cap Idx(t)) # {},
                              diff |-> SortedSeq(Idx(s) \ Idx(t)),
                              sum |-> SortedSeq(Idx(s) \cup Idx(t)),
                              sumNormal |-> IF s[2] > 0 /\ t[2] > 0 THEN Normal(Idx(s) \cup Idx(t)) ELSE <<>>,
                              exact |-> s[2] > 0 /\ t[2] > 0]], reg)
\* from an array of Booleans
Logical(X) == /\ reg = <<>>
              /\ Do([op |-> "logical", mask |-> [k \in 1..U |-> (k - 1) \in X],
                     exp |-> [normal |-> Normal(X)]], reg)
\* views pick entries in list order, writing them changes nothing else
SmallLists == {<<>>} \cup {<<s>> : s \in Seg} \cup {<<s, t>> : s, t \in {x \in Seg : x[2] > 0}}

Next == \/ \E s \in Seg : AddRaw(s) \/ AddSorted(s) \/ DiffSeg(s) \/ DiffFrom(s)
        \/ Normalise \/ SortOnly \/ Cardinal
        \/ \E b \in {Normal(X) : X \in SUBSET (0..U-1)} : DiffList(b) \/ (NoEmpty(reg) /\ AddList(b))
        \/ \E n \in 0..U : Complement(n) \/ Split(n)
        \/ \E s \in 0..U, k \in 1..U : Extract(s, k)
        \/ \E s, t \in Seg : Pair(s, t)
        \/ \E X \in SUBSET (0..U-1) : Logical(X)
\* for long random behaviours the operands are drawn at random
\* mentioning hist keeps TLC from evaluating choices once and for all
R(X) == IF hist = <<>> THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
RSeg == LET f == R(0..U) IN <<f, R(0..(U - f))>>
RSet == RandomSubset(R(0..U), 0..U-1)
SimNext == \/ \E s \in {RSeg} : AddRaw(s) \/ AddSorted(s) \/ DiffSeg(s) \/ DiffFrom(s)
           \/ Normalise \/ SortOnly \/ Cardinal
           \/ \E b \in {Normal(RSet)} : DiffList(b) \/ (NoEmpty(reg) /\ AddList(b))
           \/ \E n \in {R(0..U)} : Complement(n) \/ Split(n)
           \/ \E k \in {R(1..U)}, s \in {R(0..U)} : Extract(s, k)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

(* Properties of the design itself *)
TypeOK == /\ \A k \in 1..Len(reg) : reg[k] \in Seg
NormalIsCanonical == \A X \in SUBSET (0..U-1) : IsNormal(Normal(X)) /\ S(Normal(X)) = X
\* two normal lists denoting the same set are equal
NormalUnique == IsNormal(reg) => reg = Normal(S(reg))
\* in a normal list the visiting order is increasing and the cardinal is that of the set
NormalCounts == IsNormal(reg) => Flat(reg) = SortedSeq(S(reg)) /\ Card(reg) = Cardinality(S(reg))
SortKeepsSet == S(Sort(reg)) = S(reg) /\ Sorted(Sort(reg)) /\ Card(Sort(reg)) = Card(reg)

Emit == IF Mode = "bfs" THEN PrintT(ToJson(last')) ELSE TRUE
EmitSim == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(ToJson(hist)) ELSE TRUE
============================================================================
