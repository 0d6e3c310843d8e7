----------------------------- MODULE FilterSem -----------------------------
(* Null-space filters: what a filter does to a solution.                     *)
EXTENDS Num, HIFObjOps
One20 == 1048576
FilterOf(e) ==
  CASE e.kind = "none" -> NoFilter
    [] e.kind \in {"const", "set"} -> [kind |-> "const", a |-> e.start, z |-> e.end]
    [] OTHER -> [kind |-> "user", a |-> 0, z |-> -1]
(* the half-open range a constant filter works on *)
RangeEnd(f, n) == IF f.z = -1 \/ f.z < f.a THEN n ELSE f.z
RangeValid(f, n) == f.a <= RangeEnd(f, n) /\ RangeEnd(f, n) <= n
(* positions (1-based, real parts; c = 1: interleaved complex) of component i *)
PosRe(i, c) == IF c = 1 THEN 2 * i - 1 ELSE i
PosIm(i, c) == IF c = 1 THEN 2 * i ELSE i
(* the mean over the range is gone and nothing else happened *)
MeanRemoved(raw, got, lo, hi, pos(_), tol) ==
  /\ \A i \in (lo + 1)..(hi - 1) : Near(got[pos(i + 1)] - got[pos(lo + 1)], raw[pos(i + 1)] - raw[pos(lo + 1)], 2 * tol)
  /\ (\A i \in (lo + 1)..hi : AbsI(got[pos(i)]) < 16777216) =>
        AbsI(SumSeq([i \in 1..(hi - lo) |-> got[pos(lo + i)]])) <= (hi - lo) * tol
Untouched(raw, got, n, lo, hi, pos(_)) ==
  \A i \in 1..n : (i <= lo \/ i > hi) => got[pos(i)] = raw[pos(i)]
FilteredOK(f, raw, got, n, c, tol) ==
  CASE f.kind = "none" -> got = raw
    [] f.kind = "const" ->
         LET lo == f.a hi == RangeEnd(f, n) P(i) == PosRe(i, c) Q(i) == PosIm(i, c) IN
         /\ Untouched(raw, got, n, lo, hi, P) /\ Untouched(raw, got, n, lo, hi, Q)
         /\ lo < hi => (MeanRemoved(raw, got, lo, hi, P, tol) /\ MeanRemoved(raw, got, lo, hi, Q, tol))
    [] OTHER ->
         \A i \in 1..n : /\ Near(got[PosRe(i, c)], raw[PosRe(i, c)] + i * One20, tol)
                         /\ c = 1 => got[PosIm(i, c)] = raw[PosIm(i, c)]
=============================================================================
