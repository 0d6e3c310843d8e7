------------------------------ MODULE SpVecOps ------------------------------
(* The sparse work vector: a dense value array, the sequence of active       *)
(* indices, for each index the step at which it was last pushed, and the     *)
(* positions marked for deletion; and the entry selections built on it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == -1
New(n) == [n |-> n, vals |-> [i \in 0..(n - 1) |-> <<0, 0>>], inds |-> <<>>, tag |-> [i \in 0..(n - 1) |-> Empty], mark |-> {}]
IsNew(v, i, step) == v.tag[i] # step
Push(v, i, step) == IF IsNew(v, i, step) THEN [v EXCEPT !.inds = Append(@, i), !.tag[i] = step] ELSE v
AddV(a, b) == <<a[1] + b[1], a[2] + b[2]>>
(* the accumulation idiom: a new index takes the value, an old one adds it *)
Accum(v, i, step, x) == LET w == Push(v, i, step) IN [w EXCEPT !.vals[i] = IF IsNew(v, i, step) THEN x ELSE AddV(@, x)]
Mark(v, k) == [v EXCEPT !.mark = @ \cup {k}]
RECURSIVE Keep(_, _, _)
Keep(s, drop, k) == IF k > Len(s) THEN <<>> ELSE (IF k \in drop THEN <<>> ELSE <<s[k]>>) \o Keep(s, drop, k + 1)
Compress(v) == [v EXCEPT !.inds = Keep(v.inds, v.mark, 1), !.mark = {}]
Reset(v) == [v EXCEPT !.inds = <<>>]
Restore(v) == [v EXCEPT !.tag = [i \in DOMAIN @ |-> IF \E k \in 1..Len(v.inds) : v.inds[k] = i THEN Empty ELSE @[i]]]
Active(v) == {v.inds[k] : k \in 1..Len(v.inds)}
Distinct(v) == Cardinality(Active(v)) = Len(v.inds)
Mag2(x) == x[1] * x[1] + x[2] * x[2]
ScaleBy(v, a) == [v EXCEPT !.vals = [i \in DOMAIN @ |-> IF i \in Active(v) THEN <<a[1] * @[i][1] - a[2] * @[i][2], a[1] * @[i][2] + a[2] * @[i][1]>> ELSE @[i]]]
(* selections; thresholds are rationals num/den with den > 0 *)
Small(x, num, den) == Mag2(x) * den * den <= num * num
NumDrop(v, num, den) == IF num <= 0 THEN v ELSE [v EXCEPT !.inds = Keep(v.inds, {k \in 1..Len(v.inds) : Small(v.vals[v.inds[k]], num, den)}, 1)]
CeilDiv(a, b) == (a + b - 1) \div b
Limit(nnz, a4, start) == LET N1 == CeilDiv(a4 * nnz, 4) IN IF start >= N1 THEN 1 ELSE N1 - start
(* what a selection of the K largest may leave *)
Largest(mag, K, S, T) ==
  /\ T \subseteq S /\ Cardinality(T) = (IF Cardinality(S) < K THEN Cardinality(S) ELSE K)
  /\ \A x \in T : \A y \in S \ T : mag[y] <= mag[x]
SpaceOK(v, nnz, a4, start, T) == IF a4 <= 0 THEN T = Active(v) ELSE Largest([i \in 0..(v.n - 1) |-> Mag2(v.vals[i])], Limit(nnz, a4, start), Active(v), T)
SumMag2(v) == LET RECURSIVE s(_)
                  s(k) == IF k = 0 THEN 0 ELSE Mag2(v.vals[v.inds[k]]) + s(k - 1) IN s(Len(v.inds))
MaxMag2(v) == IF v.inds = <<>> THEN 0 ELSE CHOOSE m \in {Mag2(v.vals[i]) : i \in Active(v)} : \A i \in Active(v) : Mag2(v.vals[i]) <= m
=============================================================================
