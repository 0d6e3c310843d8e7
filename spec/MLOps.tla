------------------------------- MODULE MLOps -------------------------------
(* The chain of levels of a multilevel factorization and what the reported   *)
(* numbers must say about it.  A level is a record with at least             *)
(*   n   size of the level, m  size of its leading block,                    *)
(*   p, q  row/column permutation (sequences over 0..n-1),                   *)
(*   dn, drank  size and rank of the dense block (0 when there is none)      *)
EXTENDS Num
ChainOK(n, L) ==
  /\ Len(L) >= 1 /\ L[1].n = n
  /\ \A i \in 1..Len(L) : 0 <= L[i].m /\ L[i].m <= L[i].n
  /\ \A i \in 1..(Len(L) - 1) : L[i + 1].n = L[i].n - L[i].m
DenseOnlyLast(L) == \A i \in 1..(Len(L) - 1) : L[i].dn = 0
LastIsLast(L) == LET z == L[Len(L)] IN z.dn = z.n - z.m
PermsOK(L) == \A i \in 1..Len(L) : IsPerm0(L[i].p, L[i].n) /\ IsPerm0(L[i].q, L[i].n)
LevelsReported(L) == Len(L) + (IF L[Len(L)].dn > 0 THEN 1 ELSE 0)
SchurSize(L) == L[Len(L)].n - L[Len(L)].m
RankReported(n, L) == n - (SchurSize(L) - L[Len(L)].drank)
RECURSIVE LeftOver(_, _)
LeftOver(L, i) == IF i > Len(L) THEN 0 ELSE (L[i].n - L[i].m) + LeftOver(L, i + 1)
(* s = <<total, dynamic, bad diagonal, bad conditioning, drops, space drops>> *)
StatsShape(s) ==
  /\ Len(s) = 6
  /\ \A i \in 1..6 : s[i] >= 0
  /\ s[2] = s[3] + s[4]
  /\ s[2] <= s[1]
  /\ s[6] <= s[5]
(* a deferral leaves its row for a later level; with a declared symmetric    *)
(* leading block of size m0 the first level starts from m0 instead of n      *)
StatsMatch(s, L, m0, auto) ==
  \/ s[1] = LeftOver(L, 1) - (IF m0 > 0 THEN L[1].n - m0 ELSE 0)
  \/ auto /\ s[1] = LeftOver(L, 1)   \* restarted with pivoting, which ignores m0
=============================================================================
