------------------------------- MODULE CSOps -------------------------------
(* A sparse matrix as a user means it: its sizes and a function from the set *)
(* of stored positions (0-based <<row, column>>) to exact (Gaussian integer) *)
(* values <<re, im>>.  Row- and column-wise storage are two representations  *)
(* of one such matrix; every operation is defined on the matrix.             *)
EXTENDS Integers, Sequences, FiniteSets
CZero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CAbs2(a) == a[1] * a[1] + a[2] * a[2]

Mk(m, n, P) == [m |-> m, n |-> n, P |-> P]
Pos(A) == DOMAIN A.P
WellTyped(A) == Pos(A) \subseteq ((0..(A.m - 1)) \X (0..(A.n - 1)))
Herm(A) == Mk(A.n, A.m, [c \in {<<d[2], d[1]>> : d \in Pos(A)} |-> CConj(A.P[<<c[2], c[1]>>])])

RECURSIVE RowDot(_, _, _, _)
RowDot(A, i, x, j) ==
  IF j < 0 THEN CZero
  ELSE LET r == RowDot(A, i, x, j - 1) IN
       IF <<i, j>> \in Pos(A) THEN CAdd(r, CMul(A.P[<<i, j>>], x[j + 1])) ELSE r
MatVec(A, x) == [i \in 1..A.m |-> RowDot(A, i - 1, x, A.n - 1)]
Apply(A, tran, x) == IF tran = 1 THEN MatVec(Herm(A), x) ELSE MatVec(A, x)

(* (I + A) y = b for a strictly triangular A, A lower ("l") or upper ("u")   *)
RECURSIVE FwdSolve(_, _, _)
FwdSolve(A, b, k) ==
  IF k = 0 THEN <<>>
  ELSE LET y == FwdSolve(A, b, k - 1) IN
       Append(y, CSub(b[k], RowDot(A, k - 1, y \o [i \in 1..(A.n - k + 1) |-> CZero], A.n - 1)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Flip(A) == Mk(A.m, A.n, [c \in {<<A.m - 1 - d[1], A.n - 1 - d[2]>> : d \in Pos(A)} |-> A.P[<<A.m - 1 - c[1], A.n - 1 - c[2]>>]])
UnitSolve(A, kind, b) == IF kind = "l" THEN FwdSolve(A, b, A.n) ELSE Rev(FwdSolve(Flip(A), Rev(b), A.n))
(* the transposed system of a lower matrix is an upper one *)
TriSolve(A, kind, tran, b) ==
  IF tran = 0 THEN UnitSolve(A, kind, b) ELSE UnitSolve(Herm(A), IF kind = "l" THEN "u" ELSE "l", b)
StrictlyTri(A, kind) == A.m = A.n /\ \A c \in Pos(A) : IF kind = "l" THEN c[1] > c[2] ELSE c[1] < c[2]

ScaleLeft(A, s) == [A EXCEPT !.P = [c \in Pos(A) |-> CMul(<<s[c[1] + 1], 0>>, A.P[c])]]
ScaleRight(A, t) == [A EXCEPT !.P = [c \in Pos(A) |-> CMul(<<t[c[2] + 1], 0>>, A.P[c])]]
(* rows r1.. of width h, columns c1.. of width w, moved to the origin *)
Block(A, r1, h, c1, w) ==
  Mk(h, w, [c \in {<<d[1] - r1, d[2] - c1>> : d \in {e \in Pos(A) : e[1] \in r1..(r1 + h - 1) /\ e[2] \in c1..(c1 + w - 1)}} |-> A.P[<<c[1] + r1, c[2] + c1>>]])
ColSplit(A, k, second) == IF second THEN Block(A, 0, A.m, k, A.n - k) ELSE Block(A, 0, A.m, 0, k)
RowSplit(A, k, second) == IF second THEN Block(A, k, A.m - k, 0, A.n) ELSE Block(A, 0, k, 0, A.n)
Inv0(p) == [i \in 1..Len(p) |-> (CHOOSE k \in 1..Len(p) : p[k] = i - 1) - 1]
(* B(i, j) = A(p(i), q(j)) *)
Permuted(A, p, q) == Mk(A.m, A.n, [c \in {<<Inv0(p)[d[1] + 1], Inv0(q)[d[2] + 1]>> : d \in Pos(A)} |-> A.P[<<p[c[1] + 1], q[c[2] + 1]>>]])
Leading(A, k) == Block(A, 0, k, 0, k)

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
RowMax2(A, i) == MaxOf({CAbs2(A.P[c]) : c \in {d \in Pos(A) : d[1] = i}})
ColMax2(A, j) == MaxOf({CAbs2(A.P[c]) : c \in {d \in Pos(A) : d[2] = j}})
(* |a| <= eps * min(row maximum, column maximum), eps = num/den >= 0 *)
Tiny(A, c, num, den) ==
  CAbs2(A.P[c]) * den * den <= num * num * (IF RowMax2(A, c[1]) < ColMax2(A, c[2]) THEN RowMax2(A, c[1]) ELSE ColMax2(A, c[2]))
Pruned(A, num, den) == LET k == IF num < 0 THEN 0 ELSE num IN
  [A EXCEPT !.P = [c \in {d \in Pos(A) : ~Tiny(A, d, k, den)} |-> A.P[c]]]

(* ------------------------------------------------------ representation *)
Outer(A, row) == IF row THEN A.m ELSE A.n
Inner(A, row) == IF row THEN A.n ELSE A.m
RECURSIVE LineSeq(_, _, _, _)
LineSeq(A, row, i, j) ==
  IF j < 0 THEN <<>>
  ELSE LineSeq(A, row, i, j - 1) \o (IF (IF row THEN <<i, j>> ELSE <<j, i>>) \in Pos(A) THEN <<j>> ELSE <<>>)
Line(A, row, i) == LineSeq(A, row, i, Inner(A, row) - 1)
At(A, row, i, j) == A.P[IF row THEN <<i, j>> ELSE <<j, i>>]
(* structural well-formedness of a compressed structure *)
WellFormed(ptr, ind, outer, inner) ==
  /\ Len(ptr) >= outer + 1 /\ ptr[1] = 0
  /\ \A i \in 1..outer : ptr[i] <= ptr[i + 1]
  /\ ptr[outer + 1] <= Len(ind)
  /\ \A i \in 1..outer : \A k \in (ptr[i] + 1)..ptr[i + 1] :
       /\ ind[k] >= 0 /\ ind[k] < inner
       /\ (k > ptr[i] + 1 => ind[k - 1] < ind[k])
=============================================================================
