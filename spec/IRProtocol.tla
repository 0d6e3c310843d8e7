----------------------------- MODULE IRProtocol -----------------------------
(* Iterative refinement.  The residual after step k is observed only through *)
(* two comparisons, against the lower and the upper bound.                   *)
(*   rel[k] = <<c0, c1>>, ci = 1 above, -1 not above, 0 too close to call    *)
(* Outcome(N, rel) is the set of (steps, flag) the protocol allows:          *)
(* stop at the first step at which rel <= beta0 (flag 0) or rel > beta1      *)
(* (flag 1); the N-th step is always the last one and is reported as flag -1 *)
(* without another residual being formed.                                    *)
EXTENDS Integers, Sequences, FiniteSets
(* possible verdicts at one step: "cont", "conv", "div" *)
Verdicts(c) ==
  (IF c[1] # 1 THEN {"conv"} ELSE {}) \cup
  (IF c[2] # -1 /\ c[1] # -1 THEN {"div"} ELSE {}) \cup
  (IF c[1] # -1 /\ c[2] # 1 THEN {"cont"} ELSE {})
RECURSIVE Outcomes(_, _, _)
Outcomes(N, rel, k) ==
  IF k >= N THEN {<<N, -1>>}
  ELSE IF k > Len(rel) THEN {<<-1, -1>>}   \* beyond what was observed
  ELSE LET v == Verdicts(rel[k]) IN
       (IF "conv" \in v THEN {<<k, 0>>} ELSE {}) \cup
       (IF "div" \in v THEN {<<k, 1>>} ELSE {}) \cup
       (IF "cont" \in v THEN Outcomes(N, rel, k + 1) ELSE {})
OutcomeOK(N, rel, it, flag) ==
  \/ <<it, flag>> \in Outcomes(N, rel, 1)
  \/ <<-1, -1>> \in Outcomes(N, rel, 1) /\ it > Len(rel)
=============================================================================
