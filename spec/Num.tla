-------------------------------- MODULE Num --------------------------------
(* Arithmetic on observed (quantised) numbers.  A real v is observed as      *)
(* round(v * 2^k), saturated at +-2^29; QBAD stands for NaN and infinities.  *)
EXTENDS Integers, Sequences, FiniteSets
QBAD == 2000000000
QMAX == 536870912
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
Finite(x) == x # QBAD
Saturated(x) == AbsI(x) >= QMAX
(* |a - b| <= tol, for finite observations *)
Near(a, b, tol) == Finite(a) /\ Finite(b) /\ AbsI(a - b) <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
AllFinite(a) == \A i \in 1..Len(a) : Finite(a[i])
AllInRange(a) == \A i \in 1..Len(a) : Finite(a[i]) /\ ~Saturated(a[i])
(* observed vector against an exact integer vector, scale 2^k *)
IsInt(a, x, scale, tol) == Len(a) = Len(x) /\ \A i \in 1..Len(x) : Near(a[i], x[i] * scale, tol)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Has(e, f) == f \in DOMAIN e
RangeOf(s) == {s[i] : i \in 1..Len(s)}
IsPerm0(p, n) == Len(p) = n /\ RangeOf(p) = 0..(n - 1)
Clause(b, name) == IF b THEN {} ELSE {name}
Pow2(k) == 2 ^ k
=============================================================================
