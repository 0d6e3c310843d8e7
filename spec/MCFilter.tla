------------------------------ MODULE MCFilter ------------------------------
(* The filter's effect computed step by step (accumulate, then subtract) on  *)
(* small integer vectors scaled so that means are integers; checked against  *)
(* the declarative FilteredOK, for every range including empty and full.     *)
EXTENDS FilterSem, TLC
CONSTANTS Vals, N
MCVals == {-1, 0, 2}
VARIABLES f, raw, x, i, sum, pc
vars == <<f, raw, x, i, sum, pc>>
Scale == 12  \* divisible by every range length up to 4
Fs == {NoFilter, [kind |-> "user", a |-> 0, z |-> -1]} \cup [kind : {"const"}, a : 0..N, z : -1..N]
Init == /\ f \in Fs /\ raw \in [1..N -> {Scale * v : v \in Vals}] /\ x = raw /\ sum = 0 /\ i = 0 /\ pc = "start"
Start == /\ pc = "start" /\ i' = f.a /\ pc' = (IF f.kind = "const" THEN IF RangeValid(f, N) THEN "acc" ELSE "error" ELSE IF f.kind = "user" THEN "user" ELSE "done")
         /\ UNCHANGED <<f, raw, x, sum>>
Accumulate == /\ pc = "acc"
              /\ IF i < RangeEnd(f, N) THEN sum' = sum + x[i + 1] /\ i' = i + 1 /\ pc' = pc
                 ELSE pc' = "sub" /\ i' = f.a /\ sum' = sum
              /\ UNCHANGED <<f, raw, x>>
Subtract == /\ pc = "sub"
            /\ IF i < RangeEnd(f, N) THEN x' = [x EXCEPT ![i + 1] = @ - sum \div (RangeEnd(f, N) - f.a)] /\ i' = i + 1 /\ pc' = pc
               ELSE pc' = "done" /\ UNCHANGED <<x, i>>
            /\ UNCHANGED <<f, raw, sum>>
User == /\ pc = "user" /\ x' = [j \in 1..N |-> raw[j] + j * One20] /\ pc' = "done" /\ UNCHANGED <<f, raw, i, sum>>
Next == Start \/ Accumulate \/ Subtract \/ User
Spec == Init /\ [][Next]_vars
AgreesWithMeaning == pc = "done" => FilteredOK(f, raw, x, N, 0, 0)
(* a projection: filtering the result again changes nothing *)
Idempotent == (pc = "done" /\ f.kind = "const" /\ f.a < RangeEnd(f, N)) =>
   SumSeq([j \in 1..(RangeEnd(f, N) - f.a) |-> x[f.a + j]]) = 0
ErrorOnlyOutside == pc = "error" => RangeEnd(f, N) < f.a
=============================================================================
