----------------------------- MODULE Partition -----------------------------
(* Work sharing: an index range [0,n) is cut into T consecutive intervals;   *)
(* member t of a team works on intervals according to the team's size.       *)
EXTENDS Integers, Sequences, FiniteSets
(* iv: sequence of <<start, end>>, one per member *)
CoversOnce(n, iv) ==
  /\ \A t \in 1..Len(iv) : 0 <= iv[t][1] /\ iv[t][1] <= iv[t][2] /\ iv[t][2] <= n
  /\ Len(iv) > 0 => (iv[1][1] = 0 /\ iv[Len(iv)][2] = n)
  /\ \A t \in 1..(Len(iv) - 1) : iv[t][2] = iv[t + 1][1]
Balanced(n, iv) ==
  \A t, u \in 1..Len(iv) : (iv[t][2] - iv[t][1]) - (iv[u][2] - iv[u][1]) <= 1
(* the cut the library documents: equal lengths, the remainder spread        *)
UniformCut(n, T) ==
  [t \in 1..T |-> LET len == n \div T off == n % T
                      lo == (t - 1) * len + (IF t - 1 < off THEN t - 1 ELSE off)
                  IN <<lo, lo + len + (IF t - 1 < off THEN 1 ELSE 0)>>]
=============================================================================
