----------------------------- MODULE HIFObjOps -----------------------------
(* State-transforming operators of one preconditioner object.  The design    *)
(* model (HIFObj) and the trace specification (HIFTrace) share them, so the  *)
(* recorded executions are checked against the very effects TLC explored.    *)
EXTENDS Integers, Sequences
NoKey == [m |-> 0]
NoFilter == [kind |-> "none", a |-> 0, z |-> -1]
EmptyObj == [st |-> "empty", key |-> NoKey, work |-> 0, n |-> 0, fr |-> NoFilter, fl |-> NoFilter]
(* a successful factorization replaces everything but the filters *)
FactorizePost(s, k, n) == [s EXCEPT !.st = "ready", !.key = k, !.work = 0, !.n = n]
(* a refused factorization leaves an object that only a new factorization    *)
(* or a clear makes usable again                                             *)
FailPost(s) == [s EXCEPT !.st = "unknown", !.key = NoKey, !.work = 0]
ClearPost(s) == [s EXCEPT !.st = "empty", !.key = NoKey, !.work = 0, !.n = 0, !.fr = NoFilter, !.fl = NoFilter]
(* a call that needs `need` scratch entries grows the buffer when necessary *)
GrowPost(s, need) == [s EXCEPT !.work = IF @ < need THEN need ELSE @]
FilterPost(s, side, f) == IF side = "r" THEN [s EXCEPT !.fr = f] ELSE [s EXCEPT !.fl = f]
(* what a call's answer may depend on *)
AnswerKey(s, op, tr) == <<s.key, op, IF op = "mult" THEN NoFilter ELSE IF tr THEN s.fl ELSE s.fr>>
CanSolve(s) == s.st = "ready"
MustRefuse(s) == s.st = "empty"
=============================================================================
