------------------------------ MODULE HIFTrace ------------------------------
(* Conformance of recorded executions of the C++ preconditioner object.      *)
(* Each event is one public call with its arguments and observed result.     *)
(* Effects on an object are HIFObjOps' (the ones HIFObj explores); clauses    *)
(* about results are MLOps', IRProtocol's, FilterSem's and Partition's.      *)
EXTENDS TraceLib, HIFClauses

S20 == 1048576
IsSingle(ty) == ty \in {"s", "c"}
IsComplex(ty) == ty \in {"z", "c"}
(* conditioning up to which an exact factorization must look exact *)
CondLim(ty) == IF IsSingle(ty) THEN 8 ELSE 17
(* tolerance in quanta of 2^-20; single precision has a relative eps 2^-24 *)
Tol(ty) == IF IsSingle(ty) THEN 16384 ELSE 64

HBegin(scn) ==
  [ty |-> scn.ty, mats |-> <<>>, objs |-> [o \in {} |-> EmptyObj], memo |-> [k \in {} |-> ""],
   opts |-> scn.opts, expect |-> IF Has(scn, "expect") THEN scn.expect ELSE "ok",
   mode |-> IF Has(scn, "mode") THEN scn.mode ELSE ""]

NewObj == EmptyObj @@ [q |-> [empty |-> 1]]
ObjOf(s, o) == IF o \in DOMAIN s.objs THEN s.objs[o] ELSE NewObj
SetObj(s, o, v) == [s EXCEPT !.objs = [x \in (DOMAIN @) \cup {o} |-> IF x = o THEN v ELSE @[x]]]
MatOf(s, ob) == s.mats[ob.key.m]
OptOf(s, ob) == s.opts[ob.key.k]
(* representations that must act identically *)
ReprClass(rep) == IF rep \in {"ccs0", "ccs1", "ccp0", "ccp1"} THEN "col" ELSE "row"
KeyOf(e) == [m |-> e.m, k |-> e.k, m0 |-> e.m0, rep |-> ReprClass(e.rep)]

WellPosed(s, mt) == mt.rank = mt.n /\ mt.cond <= CondLim(s.ty)

(* ---- what every set of queries must satisfy ---- *)
QueryOK(st, n, q) ==
  IF st = "empty"
  THEN Clause(q.empty = 1, "an empty object says it is empty") \cup
       Clause(Has(q, "lev") => (q.lev = 0 /\ q.nnz = 0 /\ q.nnzef = 0 /\ q.nnzldu = 0 /\ q.rank = 0 /\ q.srank = 0 /\ q.ssize = 0), "an empty object has nothing to report")
  ELSE Clause(q.empty = 0, "a factorized object is not empty") \cup
       Clause(q.nrows = n /\ q.ncols = n, "reported size is the matrix size") \cup
       Clause(q.nnz = q.nnzef + q.nnzldu, "nnz splits into off-diagonal and factor part") \cup
       Clause(q.rank <= n /\ q.rank = n - (q.ssize - q.srank), "rank accounts for the last level only") \cup
       Clause(q.lev >= 1 /\ q.srank >= 0 /\ q.srank <= q.ssize /\ q.ssize <= n, "level and Schur sizes are in range") \cup
       Clause(StatsShape(q.stats), "statistics are consistent")

(* The rank of the last level's dense block is the number of its singular     *)
(* values that are not negligible relative to the largest one (e.sv are       *)
(* 4*log2 of them), decided when none lies near the threshold.                *)
RankBand(ty, opt) ==
  LET c == OptN(opt, "rrqr_cond", <<0, 1>>)
      base == IF IsSingle(ty) THEN <<-72, -36>> ELSE <<-152, -92>> IN
  IF c <= 0 THEN base ELSE <<MinI(base[1], -82), MaxI(base[2], -50)>>
WhyRank(s, e, mt, opt) ==
  LET sv == e.sv b == RankBand(s.ty, opt)
      clear == \A i \in 1..Len(sv) : sv[i] < 4000 /\ (sv[i] - sv[1] < b[1] \/ sv[i] - sv[1] > b[2])
      sp == OptI(opt, "spd", 0)
      zero == sv[1] = -4000
      want == IF zero THEN 0 ELSE Cardinality({i \in 1..Len(sv) : sv[i] - sv[1] > b[2]})
  IN IF Len(sv) = 0 THEN {}
     ELSE Clause(Len(sv) = e.q.ssize, "the last level holds the dense block") \cup
     IF ~clear \/ sp # 0 THEN {} ELSE
          Clause(e.q.srank = want, "rank of the last level counts its non-negligible directions") \cup
          Clause((IsComplete(opt) /\ mt.rank >= 0 /\ ~IsSingle(s.ty) /\ (zero \/ sv[1] >= -40)) => e.q.rank = mt.rank, "the true rank is reported")

WhyFac(s, e) ==
  LET mt == s.mats[e.m] opt == s.opts[e.k] IN
  Clause(e.same = 1, "the caller's matrix is unchanged") \cup
  IF e.ok = 0
  THEN Clause(s.expect = "any" \/ e.lz = 0, "a valid matrix is factorized: " \o e.err) \cup
       Clause(e.q.empty = 1 \/ (CanSolve(ObjOf(s, e.o)) /\ e.q = ObjOf(s, e.o).q), "after a failure the object is empty or as before")
  ELSE QueryOK("ready", mt.n, e.q) \cup
       Clause((IsComplete(opt) /\ WellPosed(s, mt)) => e.q.rank = mt.n, "nonsingular matrix has full rank") \cup
       WhyRank(s, e, mt, opt)

PostFac(s, e) ==
  LET old == ObjOf(s, e.o) IN
  IF e.ok = 0
  THEN IF e.q.empty = 1 THEN SetObj(s, e.o, [FailPost(old) EXCEPT !.st = "empty"]) ELSE s
  ELSE SetObj(s, e.o, [FactorizePost(old, KeyOf(e), s.mats[e.m].n) EXCEPT !.q = e.q])

(* ---- single solves / products: determined by key and arguments ---- *)
CallKey(s, e) == ToString(<<AnswerKey(ObjOf(s, e.o), e.ev, e.tr), e.tr, e.r, e.b>>)
WhyCall(s, e) ==
  LET ob == ObjOf(s, e.o) IN
  IF MustRefuse(ob) THEN Clause(e.ok = 0, "an empty object refuses to solve")
  ELSE IF e.dn # 0 THEN {}
  ELSE IF e.ev = "solve" /\ FilterRefuses(ob, e.tr) THEN Clause(e.ok = 0, "an invalid filter range is refused")
  ELSE Clause(e.ok = 1, "a factorized object solves") \cup
       Clause(e.bsame = 1, "the right-hand side is unchanged") \cup
       IF e.ok = 0 THEN {} ELSE
       Clause(Len(e.q) = (IF IsComplex(s.ty) THEN 2 ELSE 1) * ob.n, "the answer has the right length") \cup
       Clause(CallKey(s, e) \in DOMAIN s.memo => s.memo[CallKey(s, e)] = e.fp, "same factorization, same call, same answer") \cup
       Clause(e.ref # "" => e.ref = e.fp, "answer equals that of a fresh object")
PostCall(s, e) ==
  LET ob == ObjOf(s, e.o) k == CallKey(s, e) IN
  IF CanSolve(ob) /\ e.ok = 1 /\ e.dn = 0 /\ k \notin DOMAIN s.memo
  THEN [s EXCEPT !.memo = [x \in (DOMAIN @) \cup {k} |-> IF x = k THEN e.fp ELSE @[x]]]
  ELSE s

Filtered(ob) == ob.fr # NoFilter \/ ob.fl # NoFilter
(* ---- exactness without dropping ---- *)
WhyExact(s, e) ==
  LET ob == ObjOf(s, e.o) IN
  IF ~CanSolve(ob) \/ Filtered(ob) THEN {}
  ELSE IF ~(IsComplete(OptOf(s, ob)) /\ WellPosed(s, MatOf(s, ob))) THEN {}
  ELSE Clause(e.ok = 1, "solve and multiply succeed") \cup
       IF e.ok = 0 THEN {} ELSE
       Clause(IsInt(e.y, e.x0, S20, Tol(s.ty)), "solve(A x) = x") \cup
       Clause(\A i \in 1..Len(e.b0) : AbsI(e.b0[i]) < 8000 => Near(e.z[i], e.b0[i] * 65536, (IF IsSingle(s.ty) THEN 8192 + 64 * AbsI(e.b0[i]) ELSE 64 + AbsI(e.b0[i]))), "multiply(x) = A x")

(* ---- solve and multiply undo each other ---- *)
WhyInv(s, e) ==
  LET ob == ObjOf(s, e.o)
      full == ob.q.rank = ob.n
      ok == e.amp <= (IF IsSingle(s.ty) THEN 9 ELSE 26)
      tol == IF IsSingle(s.ty) THEN 131072 ELSE 4096
  IN
  IF ~CanSolve(ob) \/ Filtered(ob) THEN {}
  ELSE Clause(e.ok = 1, "solve and multiply succeed") \cup
       IF e.ok = 0 \/ ~full \/ ~ok THEN {} ELSE
       Clause(IsInt(e.sm, e.x0, S20, tol), "solve(multiply(x)) = x") \cup
       Clause(IsInt(e.ms, e.x0, S20, tol), "multiply(solve(x)) = x") \cup
       Clause(e.xsame = 1, "the argument is unchanged")

WhyLin(s, e) ==
  IF ~CanSolve(ObjOf(s, e.o)) \/ Filtered(ObjOf(s, e.o)) THEN {}
  ELSE Clause(e.ok = 1, "solves succeed") \cup
       IF e.ok = 0 \/ ~(AllInRange(e.x) /\ AllInRange(e.y) /\ AllInRange(e.z) /\ AllInRange(e.w)) \/ e.amp > (IF IsSingle(s.ty) THEN 6 ELSE 26) THEN {} ELSE
       Clause(NearV(e.w, e.x, 1), "op(4b) = 4 op(b)") \cup
       Clause(\A i \in 1..Len(e.x) : Near(e.z[i], e.x[i] + e.y[i], IF IsSingle(s.ty) THEN 32768 ELSE 256), "op(a+b) = op(a) + op(b)")

(* ---- transposed operators are conjugate transposes, entry by entry ---- *)
Adjoint(X, XH, n, c, tol(_)) ==
  (* columns of X and XH; entry (i,j) of X is X[j][i] *)
  \A i \in 1..n : \A j \in 1..n :
    IF c = 1
    THEN LET a == X[j][2*i-1] b == X[j][2*i] x == XH[i][2*j-1] y == XH[i][2*j] IN
         \/ Saturated(a) \/ Saturated(b) \/ Saturated(x) \/ Saturated(y)
         \/ (Near(a, x, tol(MaxI(AbsI(a), AbsI(b)))) /\ Near(b, -y, tol(MaxI(AbsI(a), AbsI(b)))))
    ELSE LET a == X[j][i] x == XH[i][j] IN Saturated(a) \/ Saturated(x) \/ Near(a, x, tol(a))
WhyAdj(s, e) ==
  LET tol(v) == (IF IsSingle(s.ty) THEN 8192 ELSE 16) + AbsI(v) \div (IF IsSingle(s.ty) THEN 256 ELSE 65536) IN
  IF ~CanSolve(ObjOf(s, e.o)) \/ Filtered(ObjOf(s, e.o)) THEN {}
  ELSE Clause(e.ok = 1, "operators can be applied") \cup
       IF e.ok = 0 THEN {} ELSE
       IF e.amp > (IF IsSingle(s.ty) THEN 6 ELSE 24) THEN {} ELSE
       Clause(Adjoint(e.S, e.SH, e.n, e.c, tol), "transposed solve is the conjugate transpose of solve") \cup
       Clause(Adjoint(e.M, e.MH, e.n, e.c, tol), "transposed product is the conjugate transpose of the product")

(* ---- several right-hand sides ---- *)
WhyMrhs(s, e) ==
  LET ob == ObjOf(s, e.o) IN
  IF MustRefuse(ob) THEN Clause(e.ok = 0, "an empty object refuses to solve")
  ELSE IF ob.fr # NoFilter THEN Clause(e.ok = 0, "block solves with a filter are refused")
  ELSE Clause(e.ok = 1, "block solve succeeds") \cup
       Clause(e.bsame = 1, "the right-hand sides are unchanged") \cup
       IF e.ok = 0 THEN {} ELSE
       Clause(Len(e.cols) = e.w /\ Len(e.single) = e.w, "one column per right-hand side") \cup
       Clause((Len(e.cols) = e.w /\ e.amp <= (IF IsSingle(s.ty) THEN 6 ELSE 24)) => \A k \in 1..e.w : \A i \in 1..Len(e.single[k]) :
                LET a == e.single[k][i] b == e.cols[k][i] IN
                \/ ~Finite(a) \/ Saturated(a)
                \/ Near(a, b, (IF IsSingle(s.ty) THEN 8192 ELSE 8) + AbsI(a) \div (IF IsSingle(s.ty) THEN 256 ELSE 65536)), "columns equal single solves")

WhyQuery(s, e) ==
  LET ob == ObjOf(s, e.o) IN
  QueryOK(ob.st, ob.n, e.q) \cup Clause(CanSolve(ob) => e.q = ob.q, "queries do not change between calls")

HWhy(s, e) ==
  LET ob == ObjOf(s, e.o) IN
  CASE e.ev = "Mat" -> {}
    [] e.ev = "fac" -> WhyFac(s, e)
    [] e.ev \in {"solve", "mult"} -> WhyCall(s, e)
    [] e.ev = "exact" -> WhyExact(s, e)
    [] e.ev = "inv" -> WhyInv(s, e)
    [] e.ev = "lin" -> WhyLin(s, e)
    [] e.ev = "adj" -> WhyAdj(s, e)
    [] e.ev = "mrhs" -> WhyMrhs(s, e)
    [] e.ev = "clear" -> QueryOK("empty", 0, e.q)
    [] e.ev = "query" -> WhyQuery(s, e)
    [] e.ev = "hifir" -> WhyRefine(e, ob, IsSingle(s.ty))
    [] e.ev = "nsp" -> {}
    [] e.ev = "fsolve" -> WhyFsolve(e, ob, IsSingle(s.ty))
    [] e.ev = "levels" -> IF CanSolve(ob) THEN WhyLevels(e, ob, MatOf(s, ob), OptOf(s, ob), IsSingle(s.ty), s.mode, WellPosed(s, MatOf(s, ob))) ELSE {}
    [] e.ev = "thr" -> WhyThreads(e, ob)
    [] e.ev = "conc" -> Clause(e.seq = e.con, "concurrent objects give the sequential results")
    [] e.ev = "trunc" -> IF CanSolve(ob) THEN WhyTrunc(e, ob, MatOf(s, ob), OptOf(s, ob), IsSingle(s.ty)) ELSE {}
    [] OTHER -> {"unknown event"}

HPost(s, e) ==
  CASE e.ev = "Mat" -> [s EXCEPT !.mats = Append(@, e)]
    [] e.ev = "fac" -> PostFac(s, e)
    [] e.ev \in {"solve", "mult"} -> PostCall(s, e)
    [] e.ev = "clear" -> SetObj(s, e.o, [ClearPost(ObjOf(s, e.o)) EXCEPT !.q = e.q])
    [] e.ev = "nsp" -> SetObj(s, e.o, FilterPost(ObjOf(s, e.o), e.side, FilterOf(e)))
    [] OTHER -> s
=============================================================================
