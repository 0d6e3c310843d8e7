------------------------------- MODULE MCCS --------------------------------
(* The algebra CSOps gives the storage operations, explored over every small *)
(* pattern: a matrix is changed by the mutating operations in any order and  *)
(* the laws a user relies on are checked in every state.                     *)
EXTENDS CSOps, TLC
CONSTANTS MaxM, MaxN, Vals, Depth
MCVals == {<<1, 0>>, <<-2, 1>>}
VARIABLES A, k
vars == <<A, k>>
Shapes == (0..MaxM) \X (0..MaxN)
(* all patterns; values chosen by position parity to keep the space small *)
ValAt(c) == IF (c[1] + c[2]) % 2 = 0 THEN <<1 + c[1], 0>> ELSE <<-2, 1 + c[2]>>
Init == /\ \E s \in Shapes : \E S \in SUBSET ((0..(s[1] - 1)) \X (0..(s[2] - 1))) : A = Mk(s[1], s[2], [c \in S |-> ValAt(c)])
        /\ k = 0
Sc(n, b) == [i \in 1..n |-> IF (i + b) % 2 = 0 THEN 2 ELSE -1]
Rot(n) == [i \in 1..n |-> i % n]
ScaleL == k < Depth /\ A' = ScaleLeft(A, Sc(A.m, k)) /\ k' = k + 1
ScaleR == k < Depth /\ A' = ScaleRight(A, Sc(A.n, k)) /\ k' = k + 1
Prune == k < Depth /\ A' = Pruned(A, 1, 2) /\ k' = k + 1
Transp == k < Depth /\ A' = Herm(A) /\ k' = k + 1
PermR == k < Depth /\ A' = Permuted(A, Rot(A.m), [i \in 1..A.n |-> i - 1]) /\ k' = k + 1
SplitC == k < Depth /\ A.n > 0 /\ A' = ColSplit(A, A.n \div 2, TRUE) /\ k' = k + 1
Next == ScaleL \/ ScaleR \/ Prune \/ Transp \/ PermR \/ SplitC
Spec == Init /\ [][Next]_vars

E(n, j) == [i \in 1..n |-> IF i = j THEN <<1, 0>> ELSE CZero]
X(n) == [i \in 1..n |-> <<i, 2 - i>>]
RECURSIVE Dot(_, _)
Dot(x, y) == IF x = <<>> THEN CZero ELSE CAdd(CMul(CConj(Head(x)), Head(y)), Dot(Tail(x), Tail(y)))
TypeOK == WellTyped(A)
HermInvolutive == Herm(Herm(A)) = A
AdjointLaw == Dot(X(A.m), MatVec(A, X(A.n))) = Dot(MatVec(Herm(A), X(A.m)), X(A.n))
SplitJoins == \A j \in 0..A.n :
  LET L == ColSplit(A, j, FALSE) R == ColSplit(A, j, TRUE) x == X(A.n) IN
  [i \in 1..A.m |-> CAdd(MatVec(L, SubSeq(x, 1, j))[i], MatVec(R, SubSeq(x, j + 1, A.n))[i])] = MatVec(A, x)
PermUndone == LET p == Rot(A.m) q == Rot(A.n) IN Permuted(Permuted(A, p, q), Inv0(p), Inv0(q)) = A
(* the strictly lower part's solve inverts its product with unit diagonal *)
LowerPart == Mk(A.m, A.n, [c \in {d \in Pos(A) : d[1] > d[2]} |-> A.P[c]])
SolveInverts == A.m = A.n =>
  \A tran \in {0, 1} : LET b == X(A.n) y == TriSolve(LowerPart, "l", tran, b) w == Apply(LowerPart, tran, y) IN
    [i \in 1..A.n |-> CAdd(y[i], w[i])] = b
PruneKeepsLarge == LET B == Pruned(A, 1, 2) IN /\ Pos(B) \subseteq Pos(A)
  /\ \A c \in Pos(A) \ Pos(B) : 4 * CAbs2(A.P[c]) <= RowMax2(A, c[1]) /\ 4 * CAbs2(A.P[c]) <= ColMax2(A, c[2])
LinesWellFormed ==
  \A row \in {TRUE, FALSE} : \A i \in 0..(Outer(A, row) - 1) :
     LET s == Line(A, row, i) IN \A u \in 1..Len(s) : s[u] \in 0..(Inner(A, row) - 1) /\ (u > 1 => s[u - 1] < s[u])
=============================================================================
