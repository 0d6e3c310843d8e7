------------------------------ MODULE DenseGen ------------------------------
(* Behaviours of a dense solver object.  MODE "enum": every 2x2 matrix over  *)
(* a small set; MODE "walk": random objects (general, low-rank, structured   *)
(* Hermitian, graded diagonal).                                              *)
EXTENDS DenseOps, Json, IOUtils
VARIABLES phase, scn, len
vars == <<phase, scn, len>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
Cplx(ty) == ty \in {"z", "c"}
RECURSIVE PermOf(_)
PermOf(S) == IF S = {} THEN <<>> ELSE CHOOSE p \in {<<x>> \o PermOf(S \ {x}) : x \in {RE(S)}} : TRUE
Ent(cx, k) == <<RE(-k..k), IF cx THEN RE(-1..1) ELSE 0>>
RandMat(m, n, cx, k, dens) == TLCEval([i \in 1..m |-> [j \in 1..n |-> IF Coin(dens) THEN Ent(cx, k) ELSE Z0]])
GenMat(n, cx) ==
  LET k == RE(0..n) IN
  IF Coin(35) /\ k > 0 /\ k < n THEN (CHOOSE m \in {Mul(L, R) : L \in {RandMat(n, k, cx, 1, 80)}, R \in {RandMat(k, n, cx, 1, 80)}} : TRUE)
  ELSE TLCEval(RandMat(n, n, cx, 2, W(<<30, 60, 90, 100>>)))
HermMat(n, cx) == CHOOSE m \in {TLCEval([i \in 1..n |-> [j \in 1..n |-> CA(A[i][j], CJ(A[j][i]))]]) : A \in {RandMat(n, n, cx, 1, 80)}} : TRUE
Unit(cx) == IF cx THEN W(<<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>>) ELSE W(<<<<1, 0>>, <<-1, 0>>>>)
DiagM(n, p, cx, z) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF p[i] = j /\ ~(z = j) THEN Unit(cx) ELSE Z0]])
Lams == <<-3, -2, -1, 0, 1, 2, 4, 5>>
EigB(n, p, u, v, c) ==
  LET one == <<<<p[1], p[2], W(<<-1, 0, 1, 2, 3>>), W(<<1, 2, 3>>), u[1], u[2]>>>> IN
  IF n = 1 \/ c <= 20 THEN TLCEval([i \in 1..n |-> <<p[i], 0, W(Lams), 0, 0, 0>>])
  ELSE IF n = 2 THEN TLCEval(one)
  ELSE IF n = 3 THEN TLCEval(one \o <<<<p[3], 0, W(Lams), 0, 0, 0>>>>)
  ELSE IF c <= 60 THEN TLCEval(one \o <<<<p[3], p[4], W(<<-1, 0, 1, 2>>), W(<<1, 2, 4>>), v[1], v[2]>>>>)
  ELSE TLCEval(one \o <<<<p[3], 0, W(Lams), 0, 0, 0>>, <<p[4], 0, W(Lams), 0, 0, 0>>>>)
EigBlocks(n, cx) == CHOOSE b \in {EigB(n, p, u, v, c) : p \in {PermOf(1..n)}, u \in {Unit(cx)}, v \in {Unit(cx)}, c \in {RE(1..100)}} : TRUE
Id(n) == [i \in 1..n |-> i]
NewMat(cls, kind, n, cx, z) ==
  CASE kind = "eig" -> (CHOOSE r \in {[M |-> BlockMat(n, b), bs |-> b] : b \in {EigBlocks(n, cx)}} : TRUE)
    [] kind = "diag" -> TLCEval([M |-> (CHOOSE d \in {DiagM(n, p, cx /\ cls # "syeig", z) : p \in {IF cls = "syeig" THEN Id(n) ELSE PermOf(1..n)}} : TRUE), bs |-> <<>>])
    [] cls = "syeig" -> TLCEval([M |-> HermMat(n, cx), bs |-> <<>>])
    [] OTHER -> TLCEval([M |-> GenMat(n, cx), bs |-> <<>>])
RECURSIVE Distinct(_, _)
Distinct(n, S) == IF n = 0 THEN <<>> ELSE CHOOSE p \in {<<x>> \o Distinct(n - 1, S \ {x}) : x \in {RE(S)}} : TRUE
Grades(ty, n, q) ==
  IF ty \in {"d", "z"} THEN W(<<Distinct(n, {0, -3, -9, -20, -30, -33, -37, -45, -60}), Distinct(n, {4, 3, 0, -5, -12, -24}), Distinct(n, {40, 38, 36, 30, 12, 2, 0})>>)
  ELSE W(<<Distinct(n, {0, -3, -5, -8, -14, -18, -25, -40}), Distinct(n, {4, 3, 0, -5, -6}), Distinct(n, {20, 18, 16, 7, 2, 1})>>)
Skel ==
  \E cls \in {W(<<"qrcp", "qrcp", "qrcp", "syeig", "syeig", "lup">>)} : \E ty \in {W(<<"d", "s", "z", "c">>)} : \E n \in {W(<<1, 2, 2, 3, 3, 4, 4>>)} :
  \E kind \in {IF cls = "syeig" THEN W(<<"eig", "eig", "eig", "gen", "diag">>) ELSE W(<<"gen", "gen", "gen", "diag">>)} :
  \E g \in {IF kind = "diag" /\ cls # "lup" THEN Grades(ty, n, len) ELSE LET e == W(<<0, 0, 0, 5, -7, 40>>) IN [i \in 1..n |-> e]} :
  \E z \in {IF kind = "diag" /\ cls # "lup" /\ Coin(25) THEN RE(1..n) ELSE 0} :
    scn' = [cls |-> cls, ty |-> ty, n |-> n, kind |-> kind, e |-> g, z |-> z,
            spd |-> IF cls = "syeig" /\ kind # "gen" THEN RE(-1..1) ELSE 0,
            ce |-> IF cls = "qrcp" /\ Coin(40) THEN (IF kind = "diag" THEN W(<<1, 4, 8, 13, 20, 31>>) ELSE IF ty \in {"d", "z"} THEN 20 ELSE 14) ELSE -1, ops |-> <<>>]
Add(o) == scn' = [scn EXCEPT !.ops = @ \o o]
Probe == <<[op |-> "probe", r |-> W(<<0, 0, 0, 1, 2, 3, 4, 5, 9>>), w |-> RE(1..4)]>>
Bad(d0) == <<[op |-> W(<<"bad", "badm">>), d |-> d0, sol |-> IF d0 = 0 THEN 1 ELSE RE({0, 1}), t |-> RE({0, 1})]>>
How == IF scn.n > 0 THEN W(<<"dense", "crs", "ccs", "other">>) ELSE "dense"
Load == \E m \in {NewMat(scn.cls, scn.kind, scn.n, Cplx(scn.ty), scn.z)} : \E h \in {How} : \E b \in {Coin(15)} :
          Add(<<[op |-> "set", how |-> h, M |-> m.M, bs |-> m.bs]>> \o (IF b /\ len = 1 THEN Bad(0) ELSE <<>>) \o <<[op |-> "fact"]>> \o Probe \o Probe)
Refact == \E m \in {NewMat(scn.cls, scn.kind, scn.n, Cplx(scn.ty), scn.z)} : \E ed \in {RE({0, 1, 1})} :
          Add(<<[op |-> "refact", ed |-> ed, M |-> m.M, bs |-> m.bs]>> \o Probe)
BadLen == LET d == W(<<-1, 1, 2>>) IN Add(Bad(d) \o Probe)
Unset == Add(W(<<Bad(0), <<[op |-> "fact"]>>, <<>>, <<>>, <<>>>>))
Step == /\ phase = "ops" /\ len < 5 /\ len' = len + 1 /\ UNCHANGED phase
        /\ IF len = 0 THEN Unset ELSE IF len = 1 THEN Load ELSE \E c \in {RE(1..4)} : (CASE c = 1 -> Load [] c = 2 -> Refact [] c = 3 -> BadLen [] OTHER -> Add(Probe))
Choose == phase = "pick" /\ MODE = "walk" /\ phase' = "ops" /\ len' = 0 /\ Skel
Emit == phase = "ops" /\ len >= 5 /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>
(* enumeration of the 2x2 matrices *)
EnumEnts == {<<-1, 0>>, <<0, 0>>, <<1, 0>>, <<2, 0>>}
One(cls, ty, M, r) == [cls |-> cls, ty |-> ty, n |-> 2, kind |-> "gen", e |-> <<0, 0>>, z |-> 0, spd |-> 0, ce |-> -1,
                    ops |-> <<[op |-> "set", how |-> "crs", M |-> M, bs |-> <<>>], [op |-> "fact"], [op |-> "probe", r |-> 0, w |-> 2], [op |-> "probe", r |-> r, w |-> 3]>>]
EnumAll == phase = "pick" /\ MODE = "enum" /\ phase' = "done" /\ UNCHANGED <<scn, len>>
  /\ \A M \in [1..2 -> [1..2 -> EnumEnts]] :
       /\ PrintT("SCN " \o ToJson(One("qrcp", IF M[1][1][1] = 0 THEN "s" ELSE "d", M, 1)))
       /\ (Det(M) # Z0 => PrintT("SCN " \o ToJson(One("lup", IF M[1][2][1] = 0 THEN "s" ELSE "d", M, 1))))
       /\ (Adj(M) = M => PrintT("SCN " \o ToJson(One("syeig", IF M[1][1][1] = 0 THEN "s" ELSE "d", M, 1))))
Init == phase = "pick" /\ scn = <<>> /\ len = 0
Next == Choose \/ Step \/ Emit \/ EnumAll
Spec == Init /\ [][Next]_vars
=============================================================================
