----------------------------- MODULE HIFClauses -----------------------------
(* Clauses of the trace specification about levels, thresholds, threads and  *)
(* truncated operators; each returns the set of names of violated clauses.   *)
EXTENDS MLOps, IRProtocol, FilterSem, Partition
OptI(opt, f, dflt) == IF Has(opt, f) THEN opt[f] ELSE dflt
OptN(opt, f, dflt) == IF Has(opt, f) THEN (opt[f])[1] ELSE dflt[1]
OptD(opt, f, dflt) == IF Has(opt, f) THEN (opt[f])[2] ELSE dflt[2]
OptB(opt, f) == IF Has(opt, f) THEN opt[f] ELSE FALSE
IsComplete(opt) == OptB(opt, "complete")
CeilDiv(a, b) == (a + b - 1) \div b

(* ------------------------------------------------------------ the matrix *)
RowCount(mt, i) == Len(mt.rows[i + 1])
ColCount(mt, j) == Cardinality({i \in 1..mt.n : \E k \in 1..Len(mt.rows[i]) : mt.rows[i][k][1] = j})
EntAt(mt, i, j) == LET r == mt.rows[i + 1] S == {k \in 1..Len(r) : r[k][1] = j} IN
                   IF S = {} THEN <<0, 0>> ELSE LET k == CHOOSE k \in S : TRUE IN <<r[k][2], IF Len(r[k]) > 2 THEN r[k][3] ELSE 0>>
NzAt(mt, i, j) == \E k \in 1..Len(mt.rows[i + 1]) : mt.rows[i + 1][k][1] = j

(* ------------------------------------------------------------ the levels *)
LevelShape(l, last) ==
  Clause(l.ns = l.n /\ l.nt = l.n /\ l.stpos = 1, "scalings are positive and finite") \cup
  Clause(Len(l.p) = l.n /\ Len(l.pinv) = l.n /\ Len(l.q) = l.n /\ Len(l.qinv) = l.n, "permutations have the level's size") \cup
  Clause(IsPerm0(l.p, l.n) /\ IsPerm0(l.q, l.n), "p and q are permutations") \cup
  Clause(IsPerm0(l.p, l.n) /\ Len(l.pinv) = l.n => \A i \in 1..l.n : l.pinv[l.p[i] + 1] = i - 1, "p_inv inverts p") \cup
  Clause(IsPerm0(l.q, l.n) /\ Len(l.qinv) = l.n => \A i \in 1..l.n : l.qinv[l.q[i] + 1] = i - 1, "q_inv inverts q") \cup
  (IF l.m = 0 THEN {} ELSE
     Clause(l.L[1] = l.m /\ l.L[2] = l.m /\ l.U[1] = l.m /\ l.U[2] = l.m, "L and U have the leading block's size") \cup
     Clause(l.L[4] = 1 /\ l.U[4] = 1, "columns of L and U are sorted") \cup
     Clause(\A k \in 1..Len(l.Lp) : l.Lp[k][1] > l.Lp[k][2] /\ l.Lp[k][1] < l.m, "L is strictly lower") \cup
     Clause(\A k \in 1..Len(l.Up) : l.Up[k][1] < l.Up[k][2] /\ l.Up[k][1] >= 0, "U is strictly upper") \cup
     Clause(l.nd >= l.m /\ l.dmin > 0, "every pivot is nonzero") \cup
     Clause(l.n > l.m => (l.E[1] = l.n - l.m /\ l.E[2] = l.m /\ l.F[1] = l.m /\ l.F[2] = l.n - l.m), "E and F have the remainder's shape")) \cup
  Clause(l.isl = (IF last THEN 1 ELSE 0), "only the final level is the last") \cup
  Clause(l.inq[1] = l.m /\ l.inq[2] = l.n /\ (l.m > 0 => (l.inq[3] = l.L[3] /\ l.inq[4] = l.U[3])), "sizes reported by a level") \cup
  Clause(l.pnnzef = (IF l.n > l.m THEN l.E[3] + l.F[3] ELSE 0), "nonzeros of E and F") \cup
  Clause(l.pnnz = (IF l.m > 0 THEN l.L[3] + l.U[3] + l.m ELSE 0) + l.pnnzef + l.dn * l.dn, "nonzeros of a level") \cup
  Clause(l.dn > 0 => (l.drank >= 0 /\ l.drank <= l.dn), "rank of the dense block is at most its size") \cup
  Clause(l.lastrank = (IF last /\ l.dn > 0 THEN l.drank ELSE 0), "rank of the last level")


(* row/column identities of a level in terms of the original matrix *)
RECURSIVE MapRows(_, _)
MapRows(L, i) == IF i = 1 THEN [k \in 1..L[1].n |-> k - 1]
                 ELSE LET up == MapRows(L, i - 1) l == L[i - 1] IN [k \in 1..L[i].n |-> up[l.p[l.m + k] + 1]]
RECURSIVE MapCols(_, _)
MapCols(L, i) == IF i = 1 THEN [k \in 1..L[1].n |-> k - 1]
                 ELSE LET up == MapCols(L, i - 1) l == L[i - 1] IN [k \in 1..L[i].n |-> up[l.q[l.m + k] + 1]]

(* off-diagonal blocks are the scaled, permuted entries of the input *)
OffDiagonal(l, mt, tol) ==
  LET lead == {l.p[i] : i \in 1..l.m} leadq == {l.q[i] : i \in 1..l.m}
      nE == Cardinality({<<i, j>> \in (0..(l.n - 1)) \X (0..(l.n - 1)) : i \notin lead /\ j \in leadq /\ NzAt(mt, i, j)})
      nF == Cardinality({<<i, j>> \in (0..(l.n - 1)) \X (0..(l.n - 1)) : i \in lead /\ j \notin leadq /\ NzAt(mt, i, j)})
      same(x) == LET a == EntAt(mt, x[1], x[2]) IN
                 Near(x[3], a[1] * 1024, tol + AbsI(a[1])) /\ Near(x[4], a[2] * 1024, tol + AbsI(a[2]))
  IN Clause(Len(l.Eo) = nE /\ \A k \in 1..Len(l.Eo) : same(l.Eo[k]), "E holds the input's entries") \cup
     Clause(Len(l.Fo) = nF /\ \A k \in 1..Len(l.Fo) : same(l.Fo[k]), "F holds the input's entries")

Reassembled(e, mt, single) ==
  \A i \in 1..mt.n : \A j \in 1..mt.n :
    LET a == EntAt(mt, i - 1, j - 1)
        t(v) == (IF single THEN 128 ELSE 4) + AbsI(v) * (IF single THEN 64 ELSE 1) IN
    IF e.c = 1 THEN /\ Near(e.re[i][2 * j - 1], a[1] * 4096, t(a[1]))
                    /\ Near(e.re[i][2 * j], a[2] * 4096, t(a[1]) + t(a[2]))
    ELSE Near(e.re[i][j], a[1] * 4096, t(a[1]))

(* ------------------------------------------------------------ thresholds *)
MaxLocal(mt, cnt) == LET floorv == CeilDiv(85 * mt.nnz, 100 * mt.n) IN MaxI(cnt, floorv)
WhyThresholds(e, mt, opt, m0) ==
  LET L == e.levels
      rf == OptI(opt, "rf_par", 1) pv == OptI(opt, "pivot", 2) sy == OptI(opt, "is_symm", 0)
      fill == IF pv = 0 \/ sy = 1 THEN 1 ELSE 4
      lv(i) == IF rf = 1 /\ i = 2 THEN 2 ELSE 1
      kdn == OptN(opt, "kappa_d", <<3, 1>>) kdd == OptD(opt, "kappa_d", <<3, 1>>)
      kn == OptN(opt, "kappa", <<3, 1>>) kd == OptD(opt, "kappa", <<3, 1>>)
      sqr(i) == rf = 1 /\ i >= 2
      aL == <<OptN(opt, "alpha_L", <<10, 1>>), OptD(opt, "alpha_L", <<10, 1>>)>>
      aU == <<OptN(opt, "alpha_U", <<10, 1>>), OptD(opt, "alpha_U", <<10, 1>>)>>
      both == sy = 1 \/ m0 > 0
      limit(a, i, cnt) == CeilDiv(a[1] * fill * lv(i) * cnt, a[2])
      rows(i) == MapRows(L, i) cols(i) == MapCols(L, i)
      (* a single column of L / row of U never has more entries than allowed *)
      okL(i) == LET l == L[i] r == rows(i) c == cols(i) IN
                \A k \in 1..l.m :
                   l.lc[k] <= MaxI(limit(aL, i, MaxLocal(mt, ColCount(mt, c[l.q[k] + 1]))),
                                   IF both THEN limit(IF aL[1] * aU[2] > aU[1] * aL[2] THEN aL ELSE aU, i, MaxLocal(mt, MaxI(RowCount(mt, r[l.p[k] + 1]), ColCount(mt, c[l.q[k] + 1])))) + 1 ELSE 0)
      okU(i) == LET l == L[i] r == rows(i) c == cols(i) IN
                \A k \in 1..l.m :
                   l.uc[k] <= MaxI(limit(aU, i, MaxLocal(mt, RowCount(mt, r[l.p[k] + 1]))),
                                   IF both THEN limit(IF aL[1] * aU[2] > aU[1] * aL[2] THEN aL ELSE aU, i, MaxLocal(mt, MaxI(RowCount(mt, r[l.p[k] + 1]), ColCount(mt, c[l.q[k] + 1])))) + 1 ELSE 0)
  IN UNION { LET l == L[i] IN
       IF l.m = 0 THEN {} ELSE
       (* 1/|d| <= kappa_d, or its square root (at least 2) on later levels *)
       Clause(IF ~sqr(i) \/ l.dmin12 >= 4096 THEN l.dmin12 * kdn >= 4096 * kdd - kdn
              ELSE l.dmin12 * 2 >= 4096 - 2 \/ (((l.dmin12 + 1) * (l.dmin12 + 1)) \div 4096) * kdn >= 4096 * kdd - 2 * kdn, "pivots respect the diagonal threshold") \cup
       Clause(IF ~sqr(i) THEN l.kl * kd <= 256 * kn + 2 * kd /\ l.ku * kd <= 256 * kn + 2 * kd
              ELSE (l.kl <= 514 \/ l.kl * l.kl * kd <= 65536 * kn + 4096 * kd) /\ (l.ku <= 514 \/ l.ku * l.ku * kd <= 65536 * kn + 4096 * kd), "factors respect the conditioning threshold") \cup
       Clause(IsComplete(opt) \/ okL(i), "columns of L respect the fill limit") \cup
       Clause(IsComplete(opt) \/ okU(i), "rows of U respect the fill limit")
     : i \in 1..Len(L) }

(* one factor switched off by its tolerance: the other must be untouched *)
StrictPattern(mt, l, lower) ==
  {<<i, j>> \in (0..(l.m - 1)) \X (0..(l.m - 1)) : (IF lower THEN i > j ELSE i < j) /\ NzAt(mt, l.p[i + 1], l.q[j + 1])}
WhyOneSided(e, mt, mode) ==
  LET l == e.levels[1] IN
  IF l.m = 0 THEN {}
  ELSE CASE mode = "Uoff" -> Clause(l.U[3] = 0, "an infinite upper tolerance empties U") \cup
                             Clause(RangeOf(l.Lp) = StrictPattern(mt, l, TRUE), "L does not respond to the upper thresholds")
         [] mode = "Loff" -> Clause(l.L[3] = 0, "an infinite lower tolerance empties L") \cup
                             Clause(RangeOf(l.Up) = StrictPattern(mt, l, FALSE), "U does not respond to the lower thresholds")
         [] OTHER -> {}

WhyLevels(e, ob, mt, opt, single, mode, wellposed) ==
  LET L == e.levels q == e.q IN
  Clause(Len(L) >= 1, "there is a level") \cup
  IF Len(L) = 0 THEN {} ELSE
  Clause(ChainOK(ob.n, L), "the sizes of the levels form a chain") \cup
  Clause(DenseOnlyLast(L) /\ LastIsLast(L), "exactly the last level carries the dense block") \cup
  UNION {LevelShape(L[i], i = Len(L)) : i \in 1..Len(L)} \cup
  Clause(q.lev = LevelsReported(L), "number of levels") \cup
  Clause(q.nnz = SumSeq([i \in 1..Len(L) |-> L[i].pnnz]) /\ q.nnzef = SumSeq([i \in 1..Len(L) |-> L[i].pnnzef]), "nonzero counts") \cup
  Clause(q.ssize = SchurSize(L) /\ q.srank = L[Len(L)].lastrank /\ q.rank = RankReported(ob.n, L), "ranks") \cup
  Clause(StatsShape(q.stats) /\ StatsMatch(q.stats, L, ob.key.m0, OptI(opt, "pivot", 2) = 2 /\ OptI(opt, "is_symm", 0) = 0), "deferral statistics") \cup
  Clause(IsComplete(opt) => (q.stats[5] = 0 /\ q.stats[6] = 0), "nothing is dropped without limits") \cup
  (IF ~ChainOK(ob.n, L) \/ \E i \in 1..Len(L) : ~IsPerm0(L[i].p, L[i].n) \/ ~IsPerm0(L[i].q, L[i].n) \/ L[i].stpos # 1 THEN {}
   ELSE IF ~Has(mt, "rows") THEN {} ELSE
     (IF L[1].m > 0 /\ L[1].n > L[1].m THEN OffDiagonal(L[1], mt, IF single THEN 16 ELSE 2) ELSE {}) \cup
     Clause((IsComplete(opt) /\ wellposed /\ Len(e.re) = mt.n) => Reassembled(e, mt, single), "levels reassemble to the matrix") \cup
     WhyThresholds(e, mt, opt, ob.key.m0) \cup
     WhyOneSided(e, mt, mode))

(* ------------------------------------------------------------ refinement *)
FilterRefuses(ob, tr) == LET f == IF tr THEN ob.fl ELSE ob.fr IN f.kind = "const" /\ ~RangeValid(f, ob.n)
WhyRefine(e, ob, single) ==
  IF ~CanSolve(ob) THEN {}
  ELSE IF FilterRefuses(ob, e.tr) THEN Clause(e.ok = 0 \/ e.zero = 1, "an invalid filter range is refused")
  ELSE
  Clause(e.ok = 1, "refinement succeeds") \cup Clause(e.bsame = 1, "the right-hand side is unchanged") \cup
  IF e.ok = 0 THEN {} ELSE
  LET near(k) == LET y == e.its[k] IN
        Len(e.x) = Len(y) /\ \A i \in 1..Len(y) : Saturated(y[i]) \/ ~Finite(y[i]) \/
             Near(e.x[i], y[i], (IF single THEN 16384 ELSE 64) + AbsI(y[i]) \div (IF single THEN 32 ELSE 1024))
      at(k) == k > Len(e.its) \/ near(k)
  IN
  Clause(e.badcb = 0, "the operator is called with the right size, types and transposition") \cup
  IF e.N <= 1 THEN Clause(at(1), "one step is a plain solve") \cup Clause(e.hasb => (e.iters = 1 /\ e.flag = -1), "one step reports one step")
  ELSE IF e.zero = 1 THEN Clause(\A i \in 1..Len(e.x) : AbsI(e.x[i]) <= (IF ob.fr.kind = "user" \/ ob.fl.kind = "user" THEN QMAX ELSE 0), "a zero right-hand side gives zero") \cup
                          Clause(e.hasb => (e.iters = 0 /\ e.flag = 0), "a zero right-hand side needs no steps")
  ELSE IF ~e.hasb THEN Clause(at(e.N), "N steps of the recurrence")
  ELSE Clause(OutcomeOK(e.N, e.cls, e.iters, e.flag), "steps and flag follow the residuals") \cup
       Clause(e.iters >= 1 /\ e.iters <= e.N /\ at(e.iters), "the returned iterate is the reported step's")

(* ------------------------------------------------------------ filters *)
WhyFsolve(e, ob, single) ==
  IF ~CanSolve(ob) THEN {}
  ELSE LET f == IF e.tr = 0 THEN ob.fr ELSE ob.fl IN
  IF f.kind = "const" /\ ~RangeValid(f, e.n) THEN Clause(e.ok = 0, "an invalid range is refused")
  ELSE Clause(e.ok = 1, "filtered solves succeed") \cup
       IF e.ok = 0 \/ ~AllInRange(e.raw) THEN {}
       ELSE Clause(FilteredOK(f, e.raw, e.got, e.n, e.c, IF single THEN 4096 ELSE 8), "the filter removes exactly its component")

(* ------------------------------------------------------------ threads *)
WhyThreads(e, ob) ==
  UNION {Clause(Len(e.parts[k].iv) = e.parts[k].T /\ CoversOnce(e.parts[k].n, e.parts[k].iv), "the partition covers every index once") : k \in 1..Len(e.parts)} \cup
  UNION {LET x == e.res[k] y == e.res[1] IN
    Clause(x.ok = y.ok /\ x.same = 1, "factorization with threads behaves alike") \cup
    IF x.ok = 0 \/ y.ok = 0 THEN {} ELSE
    Clause(x.q = y.q, "the preconditioner does not depend on the thread count") \cup
    Clause(x.solve = y.solve /\ x.solvet = y.solvet /\ x.mult = y.mult, "solves do not depend on the thread count") \cup
    Clause(x.mv = y.mv /\ x.mm = y.mm, "products do not depend on the thread count") \cup
    Clause(x.mvin = y.mv /\ x.irin = y.ir, "products inside a parallel region are complete") \cup
    Clause(x.okin = 1 /\ x.qin = y.q /\ x.solvein = y.solve, "a factorization inside a parallel region is the same") \cup
    Clause(x.ir = y.ir, "refinement does not depend on the thread count") : k \in 1..Len(e.res)}

(* ------------------------------------------------------------ truncation *)
WhyTrunc(e, ob, mt, opt, single) ==
  LET q == e.q full == e.n - q.ssize IN
  UNION {LET x == e.rs[k] reff == IF x.r = 0 THEN q.srank ELSE x.r
             tol(v) == (IF single THEN 65536 ELSE 1024) + AbsI(v) \div (IF single THEN 64 ELSE 4096) IN
    Clause(x.r # 0 \/ \A k2 \in 1..Len(e.rs) : e.rs[k2].r = e.q.srank => e.rs[k2].fp = x.fp, "the default rank is the reported one in every operation") \cup
    Clause(x.ok = 1 /\ x.finite = 1, "truncated solves and products are finite") \cup
    IF x.ok = 0 \/ x.finite = 0 THEN {} ELSE
    Clause((~single /\ x.gap >= 8 /\ x.amps <= 12) => (x.orank = full + reff /\ x.mrank = full + reff), "exactly the requested directions are used") \cup
    Clause((x.amp <= (IF single THEN 8 ELSE 20) /\ x.amps <= (IF single THEN 8 ELSE 20) /\ AllInRange(x.y) /\ AllInRange(x.z)) =>
             \A i \in 1..Len(x.y) : Near(x.y[i], x.z[i], tol(x.y[i])), "solve(multiply(solve(b))) = solve(b)") \cup
    Clause((x.amp <= (IF single THEN 8 ELSE 20) /\ x.amps <= (IF single THEN 8 ELSE 20) /\ AllInRange(x.yt) /\ AllInRange(x.zt)) =>
             \A i \in 1..Len(x.yt) : Near(x.yt[i], x.zt[i], tol(x.yt[i])), "the transposed projector identity")
    : k \in 1..Len(e.rs)}
=============================================================================
