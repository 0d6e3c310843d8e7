------------------------------ MODULE DenseOps ------------------------------
(* The dense last-level solvers on exact (Gaussian integer) matrices.  A     *)
(* matrix is a sequence of rows of <<re, im>> pairs.  Truncation to k        *)
(* directions: QRCP keeps k columns chosen greedily (each next column has    *)
(* the largest component orthogonal to the chosen ones, i.e. maximises the   *)
(* Gram determinant), SYEIG the k leading eigenpairs in its order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Z0 == <<0, 0>>
CA(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CM(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CJ(a) == <<a[1], -a[2]>>
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN Z0 ELSE CA(Head(s), CSum(Tail(s)))
Mul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> CSum([k \in 1..Len(B) |-> CM(A[i][k], B[k][j])])]])
Adj(A) == TLCEval([i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> CJ(A[j][i])]])
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE Z0]]
Drop(s, k) == TLCEval([i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]])
Minor(A, r, c) == LET B == Drop(A, r) IN TLCEval([i \in 1..Len(B) |-> Drop(B[i], c)])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN <<1, 0>> ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE CSum([j \in 1..Len(A) |-> LET t == CM(A[1][j], Det(Minor(A, 1, j))) IN IF j % 2 = 1 THEN t ELSE CNeg(t)])
Cof(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> LET d == Det(Minor(A, j, i)) IN IF (i + j) % 2 = 0 THEN d ELSE CNeg(d)]])
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOfSet(S \ {x})
Cols(A, K) == LET s == SeqOfSet(K) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(s) |-> A[i][s[j]]]])
Gram(A, K) == LET s == SeqOfSet(K) IN TLCEval([a \in 1..Len(s) |-> [b \in 1..Len(s) |-> CSum([i \in 1..Len(A) |-> CM(CJ(A[i][s[a]]), A[i][s[b]])])]])
GramDet(A, K) == IF K = {} THEN 1 ELSE Det(Gram(A, K))[1]
Rank(A) == LET S == {K \in SUBSET (1..Len(A[1])) : GramDet(A, K) # 0} IN
           CHOOSE r \in 0..Len(A[1]) : (\E K \in S : Cardinality(K) = r) /\ \A K \in S : Cardinality(K) <= r
RECURSIVE PivotSets(_, _)
PivotSets(A, k) ==
  IF k = 0 THEN {{}}
  ELSE UNION {LET js == (1..Len(A[1])) \ K
                  best == {j \in js : \A i \in js : GramDet(A, K \cup {i}) <= GramDet(A, K \cup {j})}
              IN {K \cup {j} : j \in best} : K \in PivotSets(A, k - 1)}
(* the matrix restricted to the columns K *)
Restrict(A, K) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> IF j \in K THEN A[i][j] ELSE Z0]])
(* det(Gram) times the least-squares inverse on the columns K, in full shape *)
LsNum(A, K) ==
  LET s == SeqOfSet(K) C == IF K = {} THEN <<>> ELSE Mul(Cof(Gram(A, K)), Adj(Cols(A, K)))
  IN [i \in 1..Len(A[1]) |-> IF i \in K THEN C[CHOOSE t \in 1..Len(s) : s[t] = i] ELSE [j \in 1..Len(A) |-> Z0]]
Scale(A, f) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> CM(<<f, 0>>, A[i][j])]])

(* Hermitian matrices given by blocks: <<i, 0, a, 0, 0, 0>> is the entry a at *)
(* (i, i); <<i, j, a, b, ur, ui>> is a on the diagonal and b*u, b*conj(u)     *)
(* outside, |u| = 1: its eigenvalues are a+b and a-b with vectors (u, +-1).   *)
BlockMat(n, bs) ==
  TLCEval([r \in 1..n |-> [c \in 1..n |->
     CSum([t \in 1..Len(bs) |-> LET b == bs[t] IN
        IF r = c /\ (b[1] = r \/ b[2] = r) THEN <<b[3], 0>>
        ELSE IF b[2] # 0 /\ r = b[1] /\ c = b[2] THEN <<b[4] * b[5], b[4] * b[6]>>
        ELSE IF b[2] # 0 /\ r = b[2] /\ c = b[1] THEN <<b[4] * b[5], -b[4] * b[6]>> ELSE Z0])]])
(* eigenpairs <<lambda, block, sign>>; twice the projector of each *)
Eigs(bs) == TLCEval(UNION {IF bs[t][2] = 0 THEN {<<bs[t][3], t, 0>>} ELSE {<<bs[t][3] + bs[t][4], t, 1>>, <<bs[t][3] - bs[t][4], t, -1>>} : t \in 1..Len(bs)})
Proj2(n, bs, e) ==
  LET b == bs[e[2]] IN
  TLCEval([r \in 1..n |-> [c \in 1..n |->
    IF e[3] = 0 THEN (IF r = b[1] /\ c = b[1] THEN <<2, 0>> ELSE Z0)
    ELSE IF r = c /\ (r = b[1] \/ r = b[2]) THEN <<1, 0>>
    ELSE IF r = b[1] /\ c = b[2] THEN <<e[3] * b[5], e[3] * b[6]>>
    ELSE IF r = b[2] /\ c = b[1] THEN <<e[3] * b[5], -e[3] * b[6]>> ELSE Z0]])
Ab(x) == IF x < 0 THEN -x ELSE x
Crit(spd, e) == IF spd > 0 THEN e[1] ELSE IF spd < 0 THEN -e[1] ELSE Ab(e[1])
EigRank(spd, bs) == Cardinality({e \in Eigs(bs) : Crit(spd, e) > 0})
TopSets(spd, bs, k) == {K \in SUBSET Eigs(bs) : Cardinality(K) = k /\ \A e \in K : \A f \in Eigs(bs) \ K : Crit(spd, f) <= Crit(spd, e)}
(* the directions a solve with requested rank r uses *)
Effective(r, rank, n) == IF r = 0 THEN rank ELSE IF r > n THEN n ELSE r
(* graded diagonal matrices: entry j has magnitude 2^e[j] (or is zero) *)
GradedKeep(e, nz, cond) == {j \in nz : (CHOOSE m \in {e[x] : x \in nz} : \A y \in nz : e[y] <= m) - e[j] <= cond}
GradedRankQR(e, n, nz, cond, filt) ==
  IF nz = {} THEN 0
  ELSE LET mx == CHOOSE m \in {e[x] : x \in nz} : \A y \in nz : e[y] <= m IN
       IF nz = 1..n /\ \A j \in nz : mx - e[j] < filt THEN n ELSE Cardinality(GradedKeep(e, nz, cond))
=============================================================================
