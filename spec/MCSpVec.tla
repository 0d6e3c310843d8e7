------------------------------- MODULE MCSpVec -------------------------------
(* The accumulator under its protocol (one step per accumulation; a step is  *)
(* redone only after restore) against a plain set of indices.                *)
EXTENDS SpVecOps
CONSTANTS N, MaxStep, MaxOps
VARIABLES v, step, ghost, gone, k
vars == <<v, step, ghost, gone, k>>
Init == v = New(N) /\ step = 0 /\ ghost = {} /\ gone = {} /\ k = 0
Vals == {<<1, 0>>, <<-2, 0>>}
(* an index deleted at this step is not re-added at this step *)
DoPush == \E i \in 0..(N - 1) : \E x \in Vals : v.mark = {} /\ v' = Accum(v, i, step, x) /\ ghost' = (IF i \in gone THEN ghost ELSE ghost \cup {i}) /\ UNCHANGED <<step, gone>>
DoMark == \E p \in 1..Len(v.inds) : v' = Mark(v, p) /\ UNCHANGED <<step, ghost, gone>>
DoCompress == v' = Compress(v) /\ ghost' = ghost \ {v.inds[p] : p \in v.mark} /\ gone' = gone \cup {v.inds[p] : p \in v.mark} /\ UNCHANGED step
NextStep == step < MaxStep /\ v.mark = {} /\ v' = Reset(v) /\ step' = step + 1 /\ ghost' = {} /\ gone' = {}
Redo == v.mark = {} /\ v' = Reset(Restore(v)) /\ ghost' = {} /\ UNCHANGED <<step, gone>>
Drop == v.mark = {} /\ v' = NumDrop(v, 1, 1) /\ ghost' = {i \in ghost : Mag2(v.vals[i]) > 1} /\ gone' = gone \cup {i \in ghost : Mag2(v.vals[i]) <= 1} /\ UNCHANGED step
Next == k < MaxOps /\ k' = k + 1 /\ (DoPush \/ DoMark \/ DoCompress \/ NextStep \/ Redo \/ Drop)
Spec == Init /\ [][Next]_vars
IsSet == Distinct(v) /\ Active(v) = ghost
Bounded == Len(v.inds) <= N /\ v.mark \subseteq 1..Len(v.inds)
(* a selection of the K largest exists for every limit, and is unique up to ties *)
Selectable == \A nnz \in 0..2 : \A a4 \in {1, 4, 6} : \A st \in 0..2 :
  LET S == {T \in SUBSET Active(v) : SpaceOK(v, nnz, a4, st, T)} IN
  /\ S # {} /\ \A T, U \in S : Cardinality(T) = Cardinality(U)
  /\ (v.inds # <<>> => \A T \in S : T # {})
=============================================================================
