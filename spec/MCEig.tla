-------------------------------- MODULE MCEig --------------------------------
(* Truncated eigen-decompositions of block matrices with known eigenpairs.   *)
EXTENDS DenseOps, TLC
Us == {<<1, 0>>, <<0, 1>>}
Ones(i) == {<<i, 0, a, 0, 0, 0>> : a \in -2..2}
Twos(i, j) == {<<i, j, a, b, u[1], u[2]>> : a \in -1..2, b \in {-2, 1}, u \in Us}
VARIABLES bs, spd, r
Init == /\ bs \in {<<x, y, z>> : x \in Ones(1), y \in Ones(2), z \in Ones(3)} \cup {<<x, y>> : x \in Twos(1, 3), y \in Ones(2)}
        /\ spd \in {-1, 0, 1} /\ r = 0
Next == r < EigRank(spd, bs) /\ r' = r + 1 /\ UNCHANGED <<bs, spd>>
Spec == Init /\ [][Next]_<<bs, spd, r>>
n == 3
M == BlockMat(n, bs)
RECURSIVE P4(_)
P4(K) == IF K = {} THEN Scale(M, 0)
         ELSE LET e == CHOOSE x \in K : TRUE R == P4(K \ {e}) Q == Proj2(n, bs, e) IN
              [i \in 1..n |-> [j \in 1..n |-> CA(R[i][j], CM(<<e[1], 0>>, Q[i][j]))]]
Herm == Adj(M) = M
EigenPairs == \A e \in Eigs(bs) : Mul(M, Proj2(n, bs, e)) = Scale(Proj2(n, bs, e), e[1])
Projectors == \A e \in Eigs(bs) : Mul(Proj2(n, bs, e), Proj2(n, bs, e)) = Scale(Proj2(n, bs, e), 2) /\
              \A f \in Eigs(bs) \ {e} : Mul(Proj2(n, bs, e), Proj2(n, bs, f)) = Scale(M, 0)
Full == \A K \in TopSets(spd, bs, r) : (r = n \/ (spd = 0 /\ r = EigRank(0, bs))) => P4(K) = Scale(M, 2)
SomeChoice == TopSets(spd, bs, r) # {}
RankAgrees == EigRank(0, bs) = Rank(M)
=============================================================================
