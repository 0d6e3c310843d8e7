------------------------------- MODULE CLibOps -------------------------------
(* The C library's handles.  Matrix handles and preconditioner handles are   *)
(* numbered slots; slot 0, and a slot that is not live, stand for NULL.      *)
(* Matrices of the scenario are numbered from 1; sizes and quality are given *)
(* by Size(m) and Good(m) (m = 0: no matrix, i.e. an empty handle).          *)
EXTENDS Integers, Sequences, FiniteSets

OK == 0
NULLOBJ == 1
MISMATCH == 2
BADPREC == 3
ERROR == 4

NoMat == [live |-> FALSE, m |-> 0, row |-> 0]
NoHif == [live |-> FALSE, st |-> "empty", key |-> <<>>, n |-> 0, A |-> 0, Ad |-> 0]
EmptyHif == [NoHif EXCEPT !.live = TRUE]
CInit(nh, no) == [mats |-> [h \in 1..nh |-> NoMat], hifs |-> [o \in 1..no |-> NoHif], err |-> FALSE]

LiveM(s, h) == h \in DOMAIN s.mats /\ s.mats[h].live
MatOf(s, h) == IF LiveM(s, h) THEN s.mats[h].m ELSE 0
RowOf(s, h) == IF LiveM(s, h) THEN s.mats[h].row ELSE 0
LiveH(s, o) == o \in DOMAIN s.hifs /\ s.hifs[o].live
(* does a factorization of the contents of handle h succeed *)
Factorizable(s, h, good) == MatOf(s, h) # 0 /\ good[MatOf(s, h)] = 1
FacKey(s, h, k) == <<MatOf(s, h), RowOf(s, h), k>>

IsSolve(op) == op \in {0, 1}
UsesA(op, N) == IsSolve(op) /\ N > 1
WhichA(h, mixed) == IF mixed = 1 THEN h.Ad ELSE h.A

(* the preconditioner after a (re)factorization with handle S *)
Factored(h, s, S, k, good, size) ==
  IF Factorizable(s, S, good)
  THEN [h EXCEPT !.st = "ready", !.key = FacKey(s, S, k), !.n = size[MatOf(s, S)]]
  ELSE IF h.st = "empty" THEN h
  ELSE [h EXCEPT !.st = "unknown"]   \* answers as before, or refuses

SetH(s, o, h) == [s EXCEPT !.hifs[o] = h]
Err(s) == [s EXCEPT !.err = TRUE]
Norm(s, h) == IF LiveM(s, h) THEN h ELSE 0

(* <<permitted statuses, next state>> of one call *)
Effect(s, c, good, size) ==
  CASE c.op = "mat" -> <<{OK}, [s EXCEPT !.mats[c.h] = [live |-> TRUE, m |-> c.m, row |-> c.row]]>>
    [] c.op = "wrap" ->
         IF ~LiveM(s, c.h) THEN <<{NULLOBJ}, s>>
         ELSE IF c.m = 0 THEN <<{NULLOBJ}, s>>
         ELSE <<{OK}, [s EXCEPT !.mats[c.h].m = c.m]>>
    [] c.op = "msize" -> <<{OK}, s>>
    [] c.op = "create" ->
         LET S == IF LiveM(s, c.S) THEN c.S ELSE Norm(s, c.A)
             A == IF LiveM(s, c.A) THEN c.A ELSE Norm(s, c.S) IN
         IF S = 0 THEN <<{OK}, SetH(s, c.o, EmptyHif)>>
         ELSE IF Factorizable(s, S, good)
              THEN <<{OK}, SetH(s, c.o, [Factored(EmptyHif, s, S, c.k, good, size) EXCEPT !.A = A])>>
              ELSE <<{ERROR}, Err(SetH(s, c.o, NoHif))>>
    [] c.op = "setup" ->
         LET S == IF LiveM(s, c.S) THEN c.S ELSE Norm(s, c.A)
             A == IF LiveM(s, c.A) THEN c.A ELSE Norm(s, c.S) IN
         IF ~LiveH(s, c.o) \/ S = 0 THEN <<{NULLOBJ}, s>>
         ELSE IF Factorizable(s, S, good)
              THEN <<{OK}, SetH(s, c.o, [Factored(s.hifs[c.o], s, S, c.k, good, size) EXCEPT !.A = A, !.Ad = 0])>>
              ELSE <<{ERROR}, Err(SetH(s, c.o, Factored(s.hifs[c.o], s, S, c.k, good, size)))>>
    [] c.op = "update" ->
         LET fld(h, v) == IF c.mixed = 1 THEN [h EXCEPT !.Ad = v] ELSE [h EXCEPT !.A = v] IN
         IF ~LiveH(s, c.o) THEN <<{NULLOBJ}, s>>
         ELSE LET h == s.hifs[c.o] m == MatOf(s, c.A) n == IF m = 0 THEN 0 ELSE size[m] IN
              IF h.st = "ready" /\ LiveM(s, c.A) /\ n # h.n THEN <<{MISMATCH}, s>>
              ELSE <<IF h.st = "unknown" THEN {OK, MISMATCH} ELSE {OK}, SetH(s, c.o, fld(h, Norm(s, c.A)))>>
    [] c.op = "refac" ->
         IF ~LiveH(s, c.o) \/ ~LiveM(s, c.S) THEN <<{NULLOBJ}, s>>
         ELSE IF Factorizable(s, c.S, good) THEN <<{OK}, SetH(s, c.o, Factored(s.hifs[c.o], s, c.S, c.k, good, size))>>
         ELSE <<{ERROR}, Err(SetH(s, c.o, Factored(s.hifs[c.o], s, c.S, c.k, good, size)))>>
    [] c.op = "apply" ->
         IF ~LiveH(s, c.o) THEN <<{NULLOBJ}, s>>
         ELSE LET h == s.hifs[c.o] A == WhichA(h, c.mixed) IN
              IF h.st = "unknown" THEN <<0..4, s>>
              ELSE IF h.st = "empty" THEN
                   (IF UsesA(c.what, c.N) /\ A = 0 THEN <<{NULLOBJ}, s>> ELSE <<{MISMATCH, BADPREC, ERROR}, s>>)
              ELSE IF ~UsesA(c.what, c.N) THEN <<{OK}, s>>
              ELSE IF A = 0 THEN <<{NULLOBJ}, s>>
              ELSE IF MatOf(s, A) = 0 \/ size[MatOf(s, A)] # h.n THEN <<{MISMATCH}, s>>
              ELSE <<{OK}, s>>
    [] c.op \in {"stats", "defaults", "mmq", "mmread", "mmvec"} -> <<{OK}, s>>
    [] c.op = "errmsg" -> <<{OK}, [s EXCEPT !.err = FALSE]>>
    [] c.op = "destroy" -> <<{OK}, SetH(s, c.o, NoHif)>>
    [] c.op = "mdestroy" -> <<{OK}, [s EXCEPT !.mats[c.h] = NoMat]>>
    [] OTHER -> <<{}, s>>

After(s, c, good, size) == Effect(s, c, good, size)[2]
Statuses(s, c, good, size) == Effect(s, c, good, size)[1]
(* is matrix handle h the refinement matrix of some preconditioner *)
InUse(s, h) == \E o \in DOMAIN s.hifs : s.hifs[o].live /\ (s.hifs[o].A = h \/ s.hifs[o].Ad = h)
=============================================================================
