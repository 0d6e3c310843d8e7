----------------------------- MODULE SpVecTrace -----------------------------
(* Conformance of the recorded work-vector operations with SpVecOps.         *)
EXTENDS TraceLib, SpVecOps, Num
SBegin(scn) == [s |-> scn, v |-> IF scn.kind = "walk" THEN New(scn.n) ELSE New(0), i |-> 1, in |-> <<>>]
Op(s) == s.s.ops[s.i]
Det(op) == op \in {"push", "mark", "compress", "reset", "restore", "scale", "resize", "move", "numdrop", "query"}
After(s) ==
  LET o == Op(s) v == s.v IN
  CASE o.op = "push" -> Accum(v, o.i, o.step, o.x)
    [] o.op = "mark" -> IF v.inds = <<>> THEN v ELSE Mark(v, (o.k % Len(v.inds)) + 1)
    [] o.op = "compress" -> Compress(v)
    [] o.op = "reset" -> Reset(v)
    [] o.op = "restore" -> Reset(Restore(v))
    [] o.op = "scale" -> ScaleBy(v, o.a)
    [] o.op = "resize" -> New(o.n)
    [] o.op = "numdrop" -> NumDrop(v, o.tau, o.kap)
    [] OTHER -> v
SetOf(q) == {q[k] : k \in 1..Len(q)}
ValsOf(e) == [i \in 0..(Len(e.vals) - 1) |-> e.vals[i + 1]]
Sorted(q) == \A k \in 2..Len(q) : q[k - 1] < q[k]
MagOf(v, i) == Mag2(v.vals[i])
Sq(x) == x * x
(* x is sqrt(m) * 2^10 within rounding *)
IsRoot(x, m) == Finite(x) /\ x >= 0 /\ (IF m < 400 THEN Sq(x - 2) <= m * 1048576 + 4 /\ Sq(x + 2) >= m * 1048576 ELSE Sq((x \div 8) - 2) <= m * 16384 + 4 /\ Sq((x \div 8) + 3) >= m * 16384)
QueryOK(v, e, b) ==
  LET A == Active(v) B == {i \in A : i < b} IN
  Clause(e.n2sq = SumMag2(v), "squared norm") \cup
  Clause(SumMag2(v) > 2000 \/ (IsRoot(e.n2, SumMag2(v)) /\ e.n2i = 0), "norm") \cup
  Clause(MaxMag2(v) > 2000 \/ IsRoot(e.mx, MaxMag2(v)), "largest magnitude") \cup
  Clause(IF A = {} THEN e.imx = -1 ELSE e.imx \in A /\ MagOf(v, e.imx) = MaxMag2(v), "index of the largest magnitude") \cup
  Clause(IF B = {} THEN e.imxb = -1 ELSE e.imxb \in B /\ \A i \in B : MagOf(v, i) <= MagOf(v, e.imxb), "bounded index of the largest magnitude") \cup
  Clause(IF B = {} THEN e.find = -1 ELSE \E k \in 1..Len(v.inds) : v.inds[k] = e.find /\ e.find < b /\ \A j \in 1..(k - 1) : v.inds[j] >= b, "first bounded index")
WalkWhy(s, e) ==
  LET o == Op(s) w == After(s) v == s.v IN
  Clause(e.ev = o.op, "order of events") \cup
  Clause(Len(e.lv) = Len(e.inds) /\ (e.empty = 1) = (Len(e.inds) = 0), "sizes") \cup
  (IF Len(e.vals) # w.n \/ \E k \in 1..Len(e.inds) : e.inds[k] \notin 0..(w.n - 1) THEN {"indices within the size"}
   ELSE
     Clause(\A k \in 1..Len(e.inds) : e.lv[k] = e.vals[e.inds[k] + 1], "values by position") \cup
     Clause(ValsOf(e) = w.vals, "values") \cup
     (CASE Det(o.op) -> Clause(e.inds = w.inds, "active indices")
        [] o.op = "sort" -> Clause(Len(e.inds) = Len(v.inds) /\ SetOf(e.inds) = Active(v) /\ Sorted(e.inds), "sorted indices")
        [] o.op = "sortmag" -> Clause(Len(e.inds) = Len(v.inds) /\ SetOf(e.inds) = Active(v) /\ \A k \in 2..Len(e.inds) : MagOf(v, e.inds[k]) <= MagOf(v, e.inds[k - 1]), "indices sorted by magnitude")
        [] o.op = "spdrop" -> Clause(Cardinality(SetOf(e.inds)) = Len(e.inds) /\ SpaceOK(v, o.nnz, o.a4, o.start, SetOf(e.inds)), "the largest entries are kept")
        [] OTHER -> {})) \cup
  (IF o.op = "push" THEN Clause(e.ret = (IF IsNew(v, o.i, o.step) THEN 1 ELSE 0), "new index reported") ELSE IF o.op = "query" THEN QueryOK(v, e, o.b) ELSE {})
(* off-diagonal dropping: per line of each factor against its own limit *)
LineOK(inl, outl, a4, ref) ==
  LET S == SetOf(inl) T == SetOf(outl) K == IF a4 <= 0 THEN 0 ELSE CeilDiv(a4 * ref, 4) IN
  /\ Cardinality(T) = Len(outl) /\ T \subseteq S /\ Len(outl) = MinI(Len(inl), K)
  /\ \A x \in T : \A y \in S \ T : Mag2(<<y[2], y[3]>>) <= Mag2(<<x[2], x[3]>>)
RECURSIVE Total(_)
Total(ls) == IF ls = <<>> THEN 0 ELSE Len(Head(ls)) + Total(Tail(ls))
DropWhy(s, e) ==
  IF e.ev = "in" THEN {}
  ELSE Clause(\A i \in 1..s.s.n : LineOK(s.in.L[i], e.L[i], s.s.aL, s.in.rl[i]), "rows of the lower block keep their largest entries") \cup
       Clause(\A i \in 1..s.s.n : LineOK(s.in.U[i], e.U[i], s.s.aU, s.in.ru[i]), "columns of the upper block keep their largest entries") \cup
       Clause(\A k \in 1..3 : e.szL[k] = Total(e.L) /\ e.szU[k] = Total(e.U), "sizes after dropping")
SWhy(s, e) == IF s.s.kind = "walk" THEN WalkWhy(s, e) ELSE DropWhy(s, e)
SPost(s, e) ==
  IF s.s.kind = "walk" THEN [s EXCEPT !.i = @ + 1, !.v = IF Op(s).op \in {"sort", "sortmag", "spdrop"} THEN [s.v EXCEPT !.inds = e.inds] ELSE After(s)]
  ELSE IF e.ev = "in" THEN [s EXCEPT !.in = e] ELSE s
=============================================================================
