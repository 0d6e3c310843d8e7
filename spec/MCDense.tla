------------------------------ MODULE MCDense -------------------------------
(* A dense solver object (set, factorize, refactorize, refused calls) over   *)
(* every small matrix: the laws the truncated solve and product obey.        *)
EXTENDS DenseOps, TLC
CONSTANTS N, Ents
MCEnts == {<<-1, 0>>, <<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>}
MCEnts3 == {<<0, 0>>, <<1, 0>>}
VARIABLES st, A, B
vars == <<st, A, B>>
All == [1..N -> [1..N -> Ents]]
Init == st = "unset" /\ A = Eye(N) /\ B = Eye(N)
Load == st = "unset" /\ st' = "loaded" /\ A' \in All /\ B' = A'
Fact == st = "loaded" /\ st' = "ready" /\ UNCHANGED <<A, B>>
(* the backup may be edited by the caller before a refactorization *)
Edit == st = "ready" /\ A = B /\ A[1][1][1] < 2 /\ B' = [B EXCEPT ![1][1] = CA(@, <<1, 0>>)] /\ UNCHANGED <<st, A>>
Refact == st = "ready" /\ A # B /\ A' = B /\ UNCHANGED <<st, B>>
Next == Load \/ Fact \/ Edit \/ Refact
Spec == Init /\ [][Next]_vars
Ks == UNION {PivotSets(A, k) : k \in 0..Rank(A)}
(* all laws multiplied by the Gram determinant *)
Laws ==
  st = "ready" => \A K \in Ks :
    LET g == GramDet(A, K) P == Restrict(A, K) S == LsNum(A, K) IN
    /\ g > 0
    /\ Mul(Mul(P, S), P) = Scale(P, g)
    /\ Mul(Mul(S, P), S) = Scale(S, g)
    /\ Mul(P, S) = Adj(Mul(P, S))
    /\ (Cardinality(K) = N => Mul(A, S) = Scale(Eye(N), g) /\ P = A)
GreedyReachesRank == st = "ready" => \A K \in PivotSets(A, Rank(A)) : GramDet(A, K) > 0 /\ Cardinality(K) = Rank(A)
FullIffDet == st = "ready" => ((Rank(A) = N) = (Det(A) # Z0))
RankSelfAdj == st = "ready" => Rank(A) = Rank(Adj(A))
=============================================================================
