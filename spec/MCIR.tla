-------------------------------- MODULE MCIR --------------------------------
(* The refinement loop as a state machine over arbitrary residual histories; *)
(* checked: it always ends, within N steps, and exactly with the outcome     *)
(* IRProtocol!Outcomes prescribes for the history it saw.                    *)
EXTENDS IRProtocol, TLC
CONSTANTS MaxN
VARIABLES N, zero, k, hist, pc, ret
vars == <<N, zero, k, hist, pc, ret>>
(* exact comparisons: above both, between, below both (beta0 < beta1), and   *)
(* the degenerate order beta0 > beta1                                        *)
Exact == {<<1, 1>>, <<1, -1>>, <<-1, -1>>, <<-1, 1>>}
Init == /\ N \in 0..MaxN /\ zero \in BOOLEAN /\ k = 0 /\ hist = <<>> /\ pc = "start" /\ ret = <<-9, -9>>
Start == /\ pc = "start"
         /\ IF N <= 1 THEN pc' = "done" /\ ret' = <<1, -1>> /\ UNCHANGED <<k, hist>>     \* plain solve
            ELSE IF zero THEN pc' = "done" /\ ret' = <<0, 0>> /\ UNCHANGED <<k, hist>>
            ELSE pc' = "step" /\ UNCHANGED <<ret, k, hist>>
         /\ UNCHANGED <<N, zero>>
Step == /\ pc = "step" /\ k < N
        /\ \E c \in Exact : hist' = Append(hist, c)
        /\ k' = k + 1
        /\ IF k + 1 >= N THEN pc' = "done" /\ ret' = <<N, -1>> ELSE pc' = "test" /\ ret' = ret
        /\ UNCHANGED <<N, zero>>
Converged == /\ pc = "test" /\ hist[k][1] = -1
             /\ pc' = "done" /\ ret' = <<k, 0>> /\ UNCHANGED <<N, zero, k, hist>>
Diverged == /\ pc = "test" /\ hist[k][1] = 1 /\ hist[k][2] = 1
            /\ pc' = "done" /\ ret' = <<k, 1>> /\ UNCHANGED <<N, zero, k, hist>>
Continue == /\ pc = "test" /\ hist[k][1] = 1 /\ hist[k][2] = -1
            /\ pc' = "step" /\ UNCHANGED <<N, zero, k, hist, ret>>
Done == pc = "done" /\ UNCHANGED vars
Next == Start \/ Step \/ Converged \/ Diverged \/ Continue \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == k <= N \/ N <= 1
Truthful == (pc = "done" /\ N > 1 /\ ~zero) => (Outcomes(N, hist, 1) = {ret} /\ OutcomeOK(N, hist, ret[1], ret[2]))
ZeroTruthful == (pc = "done" /\ N > 1 /\ zero) => ret = <<0, 0>>
Terminates == <>(pc = "done")
=============================================================================
