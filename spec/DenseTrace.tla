----------------------------- MODULE DenseTrace -----------------------------
(* Conformance of the recorded operators of a dense solver with DenseOps.    *)
EXTENDS TraceLib, DenseOps, Num
DBegin(scn) == [s |-> scn, st |-> "unset", M |-> <<>>, bs |-> <<>>, B |-> <<>>, Bbs |-> <<>>, F |-> <<>>, Fbs |-> <<>>, i |-> 1, rank |-> 0]
Dbl(s) == s.s.ty \in {"d", "z"}
Op(s) == s.s.ops[s.i]
SC == 16384
MaxAbs(A) == LET S == {0} \cup {MaxI(AbsI(A[i][j][1]), AbsI(A[i][j][2])) : i \in 1..Len(A), j \in 1..Len(A)} IN CHOOSE x \in S : \A y \in S : y <= x
OKNum(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A) : Finite(A[i][j][1]) /\ Finite(A[i][j][2]) /\ ~Saturated(A[i][j][1]) /\ ~Saturated(A[i][j][2])
Rel(s) == IF Dbl(s) THEN 2048 ELSE 64
Tol(s, A) == 24 + MaxAbs(A) \div Rel(s)
TolW(A) == 24 + MaxAbs(A) \div 64
Close(A, B, tol) == \A i \in 1..Len(A) : \A j \in 1..Len(A) : Near(A[i][j][1], B[i][j][1], tol) /\ Near(A[i][j][2], B[i][j][2], tol)
Amax(M) == MaxAbs(M)
N(s) == s.s.n
Cond(s) == IF s.s.ce >= 0 /\ s.s.cls = "qrcp" THEN s.s.ce ELSE IF Dbl(s) THEN 34 ELSE 15
NZ(M) == {j \in 1..Len(M) : \E i \in 1..Len(M) : M[i][j] # Z0}
(* signs of a real diagonal *)
Pos(M) == {j \in NZ(M) : M[j][j][1] > 0}
SignKeep(s) == IF s.s.spd > 0 THEN Pos(s.F) ELSE IF s.s.spd < 0 THEN NZ(s.F) \ Pos(s.F) ELSE NZ(s.F)
DiagRank(s, F) ==
  IF s.s.cls = "qrcp" THEN GradedRankQR(s.s.e, N(s), NZ(F), Cond(s), IF Dbl(s) THEN 26 ELSE 12)
  ELSE Cardinality(GradedKeep(s.s.e, NZ(F), Cond(s)) \cap (IF s.s.spd > 0 THEN Pos(F) ELSE IF s.s.spd < 0 THEN NZ(F) \ Pos(F) ELSE NZ(F)))
(* the rank a factorization of F must report; -1: any *)
WantRank(s, F, bs) ==
  CASE s.s.cls = "lup" -> IF s.s.kind = "diag" \/ Det(F) # Z0 THEN (IF s.s.kind = "diag" /\ NZ(F) # 1..N(s) THEN -1 ELSE N(s)) ELSE -1
    [] s.s.kind = "diag" -> DiagRank(s, F)
    [] s.s.kind = "eig" -> EigRank(s.s.spd, bs)
    [] OTHER -> Rank(F)
TopByGrade(s, S, k) == {K \in SUBSET S : Cardinality(K) = k /\ \A a \in K : \A b \in S \ K : s.s.e[b] < s.s.e[a]}
MulI(A, X) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(X[1]) |-> CSum([k \in 1..Len(X) |-> CM(A[i][k], X[k][j])])]])
(* QRCP with kept columns K *)
QProd(s, K, P) == Close(P, Scale(Restrict(s.F, K), SC), Tol(s, P))
QSolve(s, K, S) ==
  LET AK == Restrict(s.F, K) R == MulI(Adj(AK), MulI(s.F, S)) a == Amax(s.F)
      tol == N(s) * N(s) * a * a + 24 + (MaxAbs(S) \div Rel(s)) * a * a IN
  /\ \A i \in (1..N(s)) \ K : \A j \in 1..N(s) : S[i][j] = Z0
  /\ \A i \in K : \A j \in 1..N(s) : Near(R[i][j][1], SC * CJ(s.F[j][i])[1], tol) /\ Near(R[i][j][2], SC * CJ(s.F[j][i])[2], tol)
QCands(s, k) == IF s.s.kind = "diag" THEN TopByGrade(s, NZ(s.F), k) ELSE PivotSets(s.F, k)
(* eigen-decomposition with kept pairs K: sum of f(lambda) * 2 * projector / 2 *)
DivR(x, d) == IF d < 0 THEN (-x) \div (-d) ELSE x \div d
RECURSIVE EigSum(_, _, _, _)
EigSum(n, bs, K, inv) ==
  IF K = {} THEN [i \in 1..n |-> [j \in 1..n |-> Z0]]
  ELSE LET e == CHOOSE x \in K : TRUE R == EigSum(n, bs, K \ {e}, inv) Q == Proj2(n, bs, e)
           f(x) == IF inv THEN DivR(x * SC, 2 * e[1]) ELSE x * e[1] * (SC \div 2) IN
       TLCEval([i \in 1..n |-> [j \in 1..n |-> CA(R[i][j], <<f(Q[i][j][1]), f(Q[i][j][2])>>)]])
EProdSolve(s, K, e) ==
  /\ Close(e.P, EigSum(N(s), s.Fbs, K, FALSE), Tol(s, e.P) + 8) /\ Close(e.S, EigSum(N(s), s.Fbs, K, TRUE), Tol(s, e.S) + 8)
DProdSolve(s, K, e) == Close(e.P, Scale(Restrict(s.F, K), SC), Tol(s, e.P)) /\ Close(e.S, Scale(Restrict(s.F, K), SC), Tol(s, e.S))
DCands(s, k) == TopByGrade(s, SignKeep(s), k)
Values(s, e, k) ==
  CASE s.s.cls = "lup" -> Clause(QProd(s, 1..N(s), e.P), "product") \cup Clause(QSolve(s, 1..N(s), e.S), "solve")
    [] s.s.cls = "qrcp" -> Clause(\E K \in QCands(s, k) : QProd(s, K, e.P) /\ QSolve(s, K, e.S), "solve and product use the leading columns")
    [] s.s.kind = "diag" -> Clause(\E K \in DCands(s, k) : DProdSolve(s, K, e), "solve and product use the leading entries")
    [] s.s.kind = "eig" -> Clause(\E K \in TopSets(s.s.spd, s.Fbs, k) : EProdSolve(s, K, e), "solve and product use the leading eigenpairs")
    [] OTHER -> Clause(k = s.rank => Close(e.P, Scale(s.F, SC), Tol(s, e.P)), "full product") \cup
                Clause(k = s.rank => LET R == MulI(s.F, e.S) IN Close(MulI(R, s.F), Scale(s.F, SC), 24 + N(s) * N(s) * Amax(s.F) * Amax(s.F) * (1 + MaxAbs(e.S) \div Rel(s))), "solve inverts on the range") \cup
                Clause(Close(e.P, Adj(e.P), Tol(s, e.P)) /\ Close(e.S, Adj(e.S), Tol(s, e.S)), "Hermitian operators")
ProbeOK(s, e) ==
  LET k == Effective(e.r, s.rank, N(s)) IN
  IF s.st # "ready" \/ s.rank < 0 \/ k > s.rank THEN {}
  ELSE IF ~(OKNum(e.S) /\ OKNum(e.P) /\ OKNum(e.ST) /\ OKNum(e.PT)) THEN {"finite operators"}
  ELSE Values(s, e, k) \cup
       Clause(Close(e.ST, Adj(e.S), Tol(s, e.S)), "transposed solve") \cup
       Clause(Close(e.PT, Adj(e.P), Tol(s, e.P)), "transposed product") \cup
       Clause(Close(e.Sm, e.S, Tol(s, e.S)), "solve with several right-hand sides") \cup
       Clause(Close(e.STm, e.ST, Tol(s, e.ST)), "transposed solve with several right-hand sides") \cup
       Clause(Close(e.Pm, e.P, Tol(s, e.P)), "product with several vectors") \cup
       Clause(Close(e.PTm, e.PT, Tol(s, e.PT)), "transposed product with several vectors") \cup
       Clause(Close(e.SPS, e.S, TolW(e.S)), "solve, product, solve") \cup
       Clause(Close(e.PSP, e.P, TolW(e.P)), "product, solve, product") \cup
       Clause(Close(e.Sw, e.S, TolW(e.S)), "solve with vectors of another type") \cup
       Clause(Close(e.STw, e.ST, TolW(e.ST)), "transposed solve with vectors of another type") \cup
       Clause(Close(e.Pw, e.P, TolW(e.P)), "product with vectors of another type")
Target(s) == LET o == Op(s) IN
  IF o.op = "fact" THEN [F |-> s.M, bs |-> s.bs] ELSE IF o.ed = 1 THEN [F |-> o.M, bs |-> o.bs] ELSE [F |-> s.B, bs |-> s.Bbs]
DWhy(s, e) ==
  LET o == Op(s) IN
  Clause(e.ev = o.op, "order of events") \cup
  (CASE o.op = "set" -> Clause(e.err = 0 /\ e.empty = 0 /\ e.sq = 1, "setting a matrix")
     [] o.op \in {"fact", "refact"} ->
          IF s.st = "unset" THEN Clause(e.err = 1 /\ e.rank = 0, "factorizing nothing is refused")
          ELSE LET t == Target(s) w == WantRank(s, t.F, t.bs) IN
               Clause(e.err = 0, "factorization succeeds") \cup
               Clause(w < 0 \/ e.rank = w, "rank") \cup Clause(e.rank \in 0..N(s), "rank within the size") \cup
               Clause(e.full = (IF e.rank = N(s) THEN 1 ELSE 0), "full-rank flag")
     [] o.op \in {"bad", "badm"} -> Clause(e.err = 1, "wrong vectors and unset objects are refused") \cup Clause(e.rank = (IF s.rank < 0 THEN e.rank ELSE s.rank), "a refused call changes nothing")
     [] o.op = "probe" -> ProbeOK(s, e)
     [] OTHER -> {})
DPost(s, e) ==
  LET o == Op(s) n == [s EXCEPT !.i = @ + 1] IN
  CASE o.op = "set" -> [n EXCEPT !.st = "loaded", !.M = o.M, !.bs = o.bs, !.B = o.M, !.Bbs = o.bs, !.rank = e.rank]
    [] o.op \in {"fact", "refact"} /\ s.st # "unset" -> LET t == Target(s) IN [n EXCEPT !.st = "ready", !.F = t.F, !.Fbs = t.bs, !.B = t.F, !.Bbs = t.bs, !.rank = IF WantRank(s, t.F, t.bs) < 0 THEN -1 ELSE e.rank]
    [] OTHER -> n
=============================================================================
