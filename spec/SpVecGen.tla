------------------------------ MODULE SpVecGen ------------------------------
(* Behaviours of the sparse work vector under its protocol, and dropping     *)
(* problems.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES phase, scn, len
vars == <<phase, scn, len>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
Cplx(ty) == ty \in {"z", "c"}
(* magnitudes are exact integers: pure real or imaginary numbers, or 3-4-5 ones *)
Val(c) == LET a == W(<<-6, -5, -4, -3, -2, -1, 0, 1, 1, 2, 2, 3, 4, 5, 6>>) IN IF c /\ Coin(50) THEN W(<<<<0, a>>, <<3, 4>>, <<-4, 3>>, <<5, 12>>, <<6, -8>>>>) ELSE <<a, 0>>
Skel == \E ty \in {W(<<"d", "s", "z", "c">>)} : \E n \in {RE(1..6)} :
          scn' = [kind |-> "walk", ty |-> ty, n |-> n, n0 |-> n, sn |-> W(<<0, 0, n + 2>>), ctor |-> RE({0, 1}), step |-> RE(0..2), mk |-> 0, ops |-> <<>>]
Add(o) == [scn EXCEPT !.ops = Append(@, o)]
(* mk: some position may be marked and no compression happened since *)
Op(c) ==
  CASE c <= 12 -> IF scn.mk = 1 THEN scn' = [Add([op |-> "compress"]) EXCEPT !.mk = 0] ELSE scn' = Add([op |-> "push", i |-> RE(0..(scn.n - 1)), step |-> scn.step, x |-> Val(Cplx(scn.ty))])
    [] c <= 14 -> scn' = [Add([op |-> "mark", k |-> RE(0..(scn.n - 1))]) EXCEPT !.mk = 1]
    [] c <= 15 -> scn' = [Add([op |-> "compress"]) EXCEPT !.mk = 0]
    [] scn.mk = 1 -> scn' = Add([op |-> "query", b |-> RE(0..scn.n)])
    [] c = 16 -> scn' = [Add([op |-> "reset"]) EXCEPT !.step = @ + RE(1..2)]
    [] c = 17 -> scn' = Add([op |-> "restore"])
    [] c = 18 -> scn' = Add([op |-> "sort"])
    [] c = 19 -> scn' = Add([op |-> "sortmag"])
    [] c = 20 -> scn' = Add([op |-> "scale", a |-> IF Cplx(scn.ty) THEN W(<<<<0, 1>>, <<2, 0>>, <<-1, 0>>>>) ELSE W(<<<<2, 0>>, <<-1, 0>>, <<-3, 0>>>>)])
    [] c = 21 -> \E n \in {RE(1..7)} : scn' = [Add([op |-> "resize", n |-> n]) EXCEPT !.n = n]
    [] c = 22 -> scn' = Add([op |-> "move"])
    [] c <= 25 -> scn' = Add([op |-> "numdrop", tau |-> RE(-1..6), kap |-> W(<<1, 1, 2, 3>>), f |-> RE({0, 1})])
    [] c <= 29 -> scn' = Add([op |-> "spdrop", nnz |-> RE(0..4), a4 |-> W(<<-4, 0, 1, 2, 4, 4, 5, 8, 12>>), start |-> RE(0..4), def |-> 0])
    [] c = 30 -> scn' = Add([op |-> "spdrop", nnz |-> RE(0..4), a4 |-> W(<<1, 2, 4, 4, 5, 8>>), start |-> 0, def |-> 1])
    [] OTHER -> scn' = Add([op |-> "query", b |-> RE(0..scn.n)])
Max == 26
(* the positions that exist are only known to the run: marks are clipped there *)
DropScn ==
  \E ty \in {W(<<"d", "s", "z", "c">>)} : \E big \in {MODE = "dropbig"} :
  \E n \in {IF big THEN W(<<201, 230, 301>>) ELSE RE(1..8)} : \E m \in {IF big THEN RE(3..12) ELSE RE(1..9)} :
    scn' = [kind |-> "drop", ty |-> ty, n |-> n, m |-> m, seed |-> RE(1..99999), dens |-> W(<<20, 50, 80, 100>>), ties |-> RE({0, 1}),
            aL |-> W(<<-4, 0, 1, 2, 4, 4, 6, 8, 20, 40>>), aU |-> W(<<-4, 0, 1, 2, 4, 4, 6, 8, 20, 40>>), nt |-> IF big THEN W(<<2, 3, 4, 5, 8>>) ELSE W(<<0, 0, 1, 4>>)]
Init == phase = "pick" /\ scn = <<>> /\ len = 0
Choose == phase = "pick" /\ len' = 0 /\ IF MODE = "walk" THEN phase' = "ops" /\ Skel ELSE phase' = "out" /\ DropScn
Step == phase = "ops" /\ len < Max /\ len' = len + 1 /\ UNCHANGED phase /\ \E c \in {RE(1..32)} : Op(c)
Emit == (phase = "out" \/ (phase = "ops" /\ len >= Max)) /\ PrintT("SCN " \o ToJson(IF scn.kind = "walk" THEN [scn EXCEPT !.n = scn.n0] ELSE scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>
Next == Choose \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
