---------------------------- MODULE MCPartition ----------------------------
(* A parallel product with a requested and an actual team size.  The actual  *)
(* team may be smaller than requested (nested regions, thread limits).  Each *)
(* member writes the rows of its interval, in any interleaving; checked: at  *)
(* the barrier every row has been written exactly once.                      *)
EXTENDS Partition, TLC
CONSTANTS MaxN, MaxT
VARIABLES n, req, team, pos, writes, pc
vars == <<n, req, team, pos, writes, pc>>
Init == /\ n \in 0..MaxN /\ req \in 1..MaxT /\ team = 0 /\ pos = <<>> /\ writes = <<>> /\ pc = "fork"
Fork == /\ pc = "fork"
        /\ \E a \in 1..req :
             /\ team' = a
             /\ pos' = [t \in 1..a |-> UniformCut(n, a)[t][1]]
        /\ writes' = [i \in 1..n |-> 0]
        /\ pc' = "work" /\ UNCHANGED <<n, req>>
Write(t) == /\ pc = "work" /\ pos[t] < UniformCut(n, team)[t][2]
            /\ writes' = [writes EXCEPT ![pos[t] + 1] = @ + 1]
            /\ pos' = [pos EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<n, req, team, pc>>
Join == /\ pc = "work" /\ \A t \in 1..team : pos[t] = UniformCut(n, team)[t][2]
        /\ pc' = "done" /\ UNCHANGED <<n, req, team, pos, writes>>
Next == Fork \/ (\E t \in 1..MaxT : t <= team /\ Write(t)) \/ Join
Spec == Init /\ [][Next]_vars
CutOK == pc # "fork" => (CoversOnce(n, UniformCut(n, team)) /\ Balanced(n, UniformCut(n, team)))
NeverTwice == pc # "fork" => \A i \in 1..n : writes[i] <= 1
AllAtJoin == pc = "done" => \A i \in 1..n : writes[i] = 1
=============================================================================
