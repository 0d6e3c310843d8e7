------------------------------- MODULE AugOps -------------------------------
(* Augmented storage: lines pushed in primary order (0, 1, ...), every line  *)
(* a set of entries (secondary index -> value).  Interchanging secondary     *)
(* lines i and k renames the indices in all lines; deferring renames one to  *)
(* an index that is behind all others and unused.                            *)
(* And permutations with their inverses.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewAug(ns) == [ns |-> ns, lines |-> <<>>]          \* lines[p + 1] : function from secondary indices
PushLine(a, f) == [a EXCEPT !.lines = Append(@, f)]
Ren(f, i, k) == LET sw(j) == IF j = i THEN k ELSE IF j = k THEN i ELSE j IN [j \in {sw(x) : x \in DOMAIN f} |-> f[sw(j)]]
Interchange(a, i, k) == [a EXCEPT !.lines = [p \in DOMAIN @ |-> Ren(@[p], i, k)]]
CanDefer(a, from, to) == from < to /\ to < a.ns /\ \A p \in DOMAIN a.lines : \A j \in DOMAIN a.lines[p] : j < to
Defer(a, from, to) == Interchange(a, from, to)
(* the primary view: each line's entries by ascending index *)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
PrimaryOf(f) == LET q == SortedSeq(DOMAIN f) IN [k \in 1..Len(q) |-> <<q[k], f[q[k]]>>]
Primary(a) == [p \in DOMAIN a.lines |-> PrimaryOf(a.lines[p])]
(* the secondary view of j: the lines holding it, ascending, with the value *)
SecondaryOf(a, j) == LET q == SortedSeq({p \in DOMAIN a.lines : j \in DOMAIN a.lines[p]}) IN [k \in 1..Len(q) |-> <<q[k] - 1, a.lines[q[k]][j]>>]
Secondary(a) == [j \in 1..a.ns |-> SecondaryOf(a, j - 1)]
(* permutations *)
Eye(n) == [i \in 0..(n - 1) |-> i]
IsPerm(p) == {p[i] : i \in DOMAIN p} = DOMAIN p
InvOf(p) == [j \in DOMAIN p |-> CHOOSE i \in DOMAIN p : p[i] = j]
SwapP(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
SwapInv(p, i, j) == InvOf(SwapP(InvOf(p), i, j))
=============================================================================
