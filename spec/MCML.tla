-------------------------------- MODULE MCML --------------------------------
(* Building one chain of levels: static deferral by preprocessing, a Crout   *)
(* loop that accepts or defers the current row/column into a tail behind     *)
(* position n, compaction, the collapse of levels that deferred too much,    *)
(* and the dense last level.                                                 *)
EXTENDS MLOps, TLC
CONSTANTS MaxSize
VARIABLES pc, n0, lead, given, auto, cur, m2, k, defers, acc, tail, perm, why, L, stats
vars == <<pc, n0, lead, given, auto, cur, m2, k, defers, acc, tail, perm, why, L, stats>>
Id(n) == [i \in 1..n |-> i - 1]
Init == /\ n0 \in 1..MaxSize /\ lead \in 0..n0 /\ given = lead /\ auto \in BOOLEAN
        /\ cur = n0 /\ m2 = 0 /\ k = 0 /\ defers = 0 /\ acc = <<>> /\ tail = <<>> /\ perm = <<>>
        /\ why = <<0, 0>> /\ L = <<>> /\ stats = <<0, 0, 0, 0, 0, 0>> /\ pc = "pre"
(* the size the level starts from *)
M0 == IF L = <<>> /\ lead > 0 THEN lead ELSE cur
(* preprocessing: any permutation (only a reversal and the identity are      *)
(* explored) and any leading size not above M0                               *)
Preprocess ==
  /\ pc = "pre"
  /\ \E mm \in 0..M0 : m2' = mm
  /\ \E p \in {Id(cur), [i \in 1..cur |-> cur - i]} : perm' = p
  /\ k' = 0 /\ defers' = 0 /\ acc' = <<>> /\ tail' = <<>> /\ why' = <<0, 0>> /\ pc' = "crout"
  /\ UNCHANGED <<n0, lead, given, auto, cur, L, stats>>
Accept == /\ pc = "crout" /\ k + defers < m2
          /\ acc' = Append(acc, perm[k + defers + 1]) /\ k' = k + 1
          /\ UNCHANGED <<pc, n0, lead, given, auto, cur, m2, defers, tail, perm, why, L, stats>>
Defer(r) == /\ pc = "crout" /\ k + defers < m2
            /\ tail' = Append(tail, perm[k + defers + 1]) /\ defers' = defers + 1
            /\ why' = [why EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<pc, n0, lead, given, auto, cur, m2, k, acc, perm, L, stats>>
(* accepted rows, then statically deferred ones, then the tail *)
Compact == acc \o SubSeq(perm, m2 + 1, cur) \o tail
(* with automatic pivoting a level that deferred too much is started again,  *)
(* from here on with the pivoting kernel and without the given leading size  *)
TooMany == 5 * k <= 2 * m2
Restart == /\ pc = "crout" /\ k + defers = m2 /\ auto /\ TooMany
           /\ pc' = "pre" /\ auto' = FALSE /\ lead' = 0
           /\ UNCHANGED <<n0, given, cur, m2, k, defers, acc, tail, perm, why, L, stats>>
Finish ==
  /\ pc = "crout" /\ k + defers = m2 /\ ~(auto /\ TooMany)
  /\ LET collapse == 4 * k <= m2
         m == IF collapse THEN 0 ELSE k
         mustDense == m = 0
         lev(d) == [n |-> cur, m |-> m, p |-> IF m = 0 THEN Id(cur) ELSE Compact, q |-> IF m = 0 THEN Id(cur) ELSE Compact,
                    dn |-> IF d THEN cur - m ELSE 0, drank |-> 0]
     IN /\ stats' = [stats EXCEPT ![1] = @ + M0 - m,
                                  ![2] = @ + (IF m = 0 THEN 0 ELSE defers),
                                  ![3] = @ + (IF m = 0 THEN 0 ELSE why[1]),
                                  ![4] = @ + (IF m = 0 THEN 0 ELSE why[2])]
        /\ \E d \in (IF mustDense THEN {TRUE} ELSE BOOLEAN) :
             IF d \/ cur = m
             THEN /\ \E r \in 0..(cur - m) : L' = Append(L, [lev(TRUE) EXCEPT !.drank = r])
                  /\ pc' = "done" /\ cur' = cur
             ELSE L' = Append(L, lev(FALSE)) /\ pc' = "pre" /\ cur' = cur - m
  /\ UNCHANGED <<n0, lead, given, auto, m2, k, defers, acc, tail, perm, why>>
Next == Restart \/ Preprocess \/ Accept \/ (\E r \in 1..2 : Defer(r)) \/ Finish
Spec == Init /\ [][Next]_vars
CroutPartition == pc = "crout" => IsPerm0(acc \o tail \o SubSeq(perm, k + defers + 1, cur), cur)
DoneOK == pc = "done" =>
  /\ ChainOK(n0, L) /\ DenseOnlyLast(L) /\ LastIsLast(L) /\ PermsOK(L)
  /\ StatsShape(stats) /\ StatsMatch(stats, L, given, given # lead)
  /\ RankReported(n0, L) <= n0 /\ RankReported(n0, L) >= n0 - SchurSize(L)
Progress == \A i \in 1..Len(L) : L[i].m > 0 \/ i = Len(L)
=============================================================================
