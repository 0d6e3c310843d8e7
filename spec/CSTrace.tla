------------------------------ MODULE CSTrace ------------------------------
(* Conformance of recorded CRS/CCS operations with CSOps.  State: the matrix *)
(* the object stands for and whether it is stored by rows.                   *)
EXTENDS TraceLib, CSOps, Num

EntP(ent) == LET S == RangeOf(ent) IN
  [c \in {<<e[1], e[2]>> : e \in S} |-> LET e == CHOOSE x \in S : <<x[1], x[2]>> = c IN <<e[3], e[4]>>]
CBegin(scn) == [A |-> Mk(scn.m, scn.n, EntP(scn.ent)), row |-> scn.row = 1]

(* observed compressed arrays against the matrix they must represent *)
DumpOK(d, A, vals, what) ==
  LET row == d.row = 1 out == Outer(A, row) IN
  Clause(d.nr = A.m /\ d.nc = A.n, what \o ": sizes") \cup
  (IF Len(d.ptr) # out + 1 \/ ~WellFormed(d.ptr, d.ind, out, Inner(A, row)) THEN {what \o ": well-formed arrays"}
   ELSE Clause(d.nnz = Cardinality(Pos(A)) /\ d.ptr[out + 1] = d.nnz /\ Len(d.ind) = d.nnz, what \o ": number of entries") \cup
        Clause(\A i \in 0..(out - 1) : SubSeq(d.ind, d.ptr[i + 1] + 1, d.ptr[i + 2]) = Line(A, row, i), what \o ": positions") \cup
        (IF ~vals THEN {}
         ELSE Clause(Len(d.val) = 2 * Len(d.ind) /\
                \A i \in 0..(out - 1) : \A k \in (d.ptr[i + 1] + 1)..d.ptr[i + 2] :
                  LET c == IF row THEN <<i, d.ind[k]>> ELSE <<d.ind[k], i>> IN
                  c \in Pos(A) /\ A.P[c] = <<d.val[2 * k - 1], d.val[2 * k]>>, what \o ": values")))

VecOK(y, want) == Len(y) = Len(want) /\ \A i \in 1..Len(y) : <<y[i][1], y[i][2]>> = want[i]
ToC(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2]>>]

CWhy(s, e) ==
  LET A == s.A IN
  IF Has(e, "threw") /\ e.ev # "valid" THEN {"no valid operation is refused: " \o e.threw} ELSE
  CASE e.ev = "make" -> DumpOK(e.d, A, TRUE, "construction") \cup
         Clause(\A i \in 0..(Outer(A, s.row) - 1) : e.lines[i + 1] = Len(Line(A, s.row, i)), "entries per line") \cup
         Clause((e.d.row = 1) = s.row, "storage layout")
    [] e.ev = "mul" -> Clause(VecOK(e.y, Apply(A, e.tran, ToC(e.x))), IF e.tran = 1 THEN "transposed product" ELSE "product")
    [] e.ev = "mulm" -> Clause(Len(e.ys) = Len(e.xs) /\ \A k \in 1..Len(e.xs) : VecOK(e.ys[k], Apply(A, e.tran, ToC(e.xs[k]))), IF e.tran = 1 THEN "transposed product with several vectors" ELSE "product with several vectors")
    [] e.ev = "tri" -> IF ~StrictlyTri(A, e.kind) THEN {"scenario"} ELSE
         Clause(Len(e.ys) = Len(e.bs) /\ \A k \in 1..Len(e.bs) : VecOK(e.ys[k], TriSolve(A, e.kind, e.tran, ToC(e.bs[k]))), "triangular solve")
    [] e.ev = "scale" -> DumpOK(e.d, ScaleRight(ScaleLeft(A, e.s), e.t), TRUE, "scaling")
    [] e.ev = "conv" -> DumpOK(e.d, A, TRUE, "conversion") \cup Clause((e.d.row = 1) # s.row, "conversion changes the layout") \cup DumpOK(e.src, A, TRUE, "conversion source")
    [] e.ev = "export" -> DumpOK(e.d, A, TRUE, "export")
    [] e.ev = "split" -> (IF s.row THEN DumpOK(e.d1, ColSplit(A, e.k, FALSE), TRUE, "first part") \cup DumpOK(e.d2, ColSplit(A, e.k, TRUE), TRUE, "second part")
                          ELSE DumpOK(e.d1, RowSplit(A, e.k, FALSE), TRUE, "first part") \cup DumpOK(e.d2, RowSplit(A, e.k, TRUE), TRUE, "second part")) \cup
                         Clause((e.d1.row = 1) = (s.row # (e.dual = 1)) /\ (e.d2.row = 1) = (s.row # (e.dual = 1)), "layout of the parts")
    [] e.ev = "perm" -> LET B == Permuted(A, e.p, e.q) IN
                        DumpOK(e.d, IF e.lead = 0 THEN B ELSE Leading(B, e.lead), e.so = 0, "permutation")
    [] e.ev = "lead" -> DumpOK(e.d, Leading(A, e.k), TRUE, "leading block")
    [] e.ev = "prune" -> LET B == Pruned(A, e.num, e.den) IN
                         DumpOK(e.d, B, TRUE, "pruning") \cup Clause(e.cnt = Cardinality(Pos(A)) - Cardinality(Pos(B)), "number of pruned entries")
    [] e.ev = "copy" -> DumpOK(e.shallow, ScaleLeft(A, e.s), TRUE, "shallow copy follows") \cup DumpOK(e.deep, A, TRUE, "deep copy is independent")
    [] e.ev = "valid" -> LET wf == WellFormed(e.ptr, e.ind, e.outer, e.inner) IN
                         Clause(wf = (e.ok = 1), IF wf THEN "validity check accepts a well-formed structure" ELSE "validity check refuses an ill-formed structure: " \o e.kind) \cup
                         (IF Has(e, "wok") THEN Clause(wf = (e.wok = 1), IF wf THEN "wrapping accepts a well-formed structure" ELSE "wrapping refuses an ill-formed structure: " \o e.kind) ELSE {})
    [] e.ev = "dump" -> DumpOK(e.d, A, TRUE, "unchanged")
    [] OTHER -> {"unknown event"}

CPost(s, e) ==
  CASE e.ev = "scale" -> [s EXCEPT !.A = ScaleRight(ScaleLeft(s.A, e.s), e.t)]
    [] e.ev = "conv" -> [s EXCEPT !.row = ~s.row]
    [] e.ev = "prune" -> [s EXCEPT !.A = Pruned(s.A, e.num, e.den)]
    [] e.ev = "copy" -> [s EXCEPT !.A = ScaleLeft(s.A, e.s)]
    [] OTHER -> s
=============================================================================
