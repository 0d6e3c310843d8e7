------------------------------- MODULE CLibGen -------------------------------
(* Random histories of C calls: walks of CLibOps.  MODE "proto": handle      *)
(* protocol with null, empty, mismatched and ill-formed arguments; "num":    *)
(* numerical calls with every option, operation, rank and precision; "mm":   *)
(* the C side of Matrix Market files.                                        *)
EXTENDS CLibOps, TLC, Json, IOUtils
VARIABLES phase, scn, st, len
vars == <<phase, scn, st, len>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
F(x) == <<x, 1>>
B == RE(1..9999)
NH == 4
NO == 2

AllFam == {"rand", "zdiag", "dd", "permdd", "arrow", "tri", "grid", "hspd", "hnd", "saddle", "block", "circ", "dense", "diag", "weak", "rscale"}
SymFam == {"grid", "hspd", "hnd", "saddle"}
SingFam == {"lap", "sing"}
Size == W(<<1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20>>)
Tol == W(<<<<1, 10>>, <<1, 20>>, <<1, 100>>, <<1, 1000>>, F(0)>>)
Alp == W(<<F(1), F(2), F(3), F(10), <<1, 2>>>>)
(* every slot of the parameter array, under its C++ name *)
Par(sym) ==
  ("pivot" :> RE({0, 1, 2})) @@ ("reorder" :> RE({0, 1, 2, 3})) @@ ("symm_pre_lvls" :> RE({-2, -1, 0, 1, 2})) @@ ("no_pre" :> W(<<0, 0, 0, 1>>))
  @@ ("kappa" :> W(<<F(2), F(3), F(5), F(10)>>)) @@ ("kappa_d" :> W(<<F(2), F(3), F(5), F(10)>>)) @@ ("nzp_thres" :> W(<<<<65, 100>>, F(0), F(1)>>))
  @@ ("beta" :> W(<<F(1000), F(10)>>)) @@ ("rrqr_cond" :> W(<<F(0), F(0), F(100)>>)) @@ ("threads" :> W(<<0, 1, 2>>)) @@ ("dense_thres" :> W(<<1, 3, 5, 2000>>))
  @@ (IF Coin(40) THEN ("tau_L" :> F(0)) @@ ("tau_U" :> F(0)) @@ ("alpha_L" :> F(10000)) @@ ("alpha_U" :> F(10000))
      ELSE ("tau_L" :> Tol) @@ ("tau_U" :> Tol) @@ ("alpha_L" :> Alp) @@ ("alpha_U" :> Alp))
  @@ (IF sym THEN ("is_symm" :> 1) ELSE ("is_symm" :> 0))
Some(sym) == IF Coin(50) THEN Par(sym) ELSE ("tau_L" :> Tol) @@ ("kappa" :> W(<<F(2), F(5)>>)) @@ (IF sym THEN ("is_symm" :> 1) ELSE ("pivot" :> RE({0, 1, 2})))
Mt(f, n, bad) == [fam |-> f, n |-> n, seed |-> RE(1..99999), bad |-> bad]
BadKinds == {"oob", "neg", "none", "dec", "unsorted", "dup"}
Good(ms) == [i \in 1..Len(ms) |-> IF ms[i].bad = "" THEN 1 ELSE 0]
Sizes(ms) == [i \in 1..Len(ms) |-> ms[i].n]
Skel ==
  \E ty \in {W(<<"d", "s", "z", "c", "s", "c">>)} : \E sym \in {Coin(30)} : \E n \in {Size} : \E n2 \in {Size} :
  \E ms \in {IF sym THEN <<Mt(RE(SymFam), n, ""), Mt(RE(SymFam), n, ""), Mt(RE(SymFam), n2, "")>>
             ELSE <<Mt(RE(AllFam), n, ""), Mt(RE(IF Coin(25) THEN SingFam ELSE AllFam), n, ""), Mt(RE(AllFam), n2, "")>>} :
  \E all \in {IF MODE = "proto" THEN ms \o <<Mt("dd", n + 1, RE(BadKinds)), Mt("tri", n + 1, RE(BadKinds))>> ELSE ms} :
  \E ps \in {<<Par(sym), Some(sym)>>} :
    scn' = [ty |-> ty, mats |-> all, pars |-> ps, ops |-> <<>>, good |-> Good(all), size |-> Sizes(all), nh |-> NH, no |-> NO]

Handles == 1..NH
H0 == RE(0..NH)
GoodH == {h \in Handles : LiveM(st, h) /\ (st.mats[h].m = 0 \/ scn.good[st.mats[h].m] = 1)}
GoodA == {0} \cup GoodH
FullH == {h \in GoodH : st.mats[h].m # 0}
K == RE(0..2)
Mx == IF scn.ty \in {"s", "c"} THEN RE({0, 1}) ELSE 0
Hif(o) == st.hifs[o]
MatOp(h) == IF LiveM(st, h) THEN (IF InUse(st, h) THEN [op |-> "msize", h |-> h] ELSE [op |-> "mdestroy", h |-> h])
            ELSE [op |-> "mat", h |-> h, m |-> IF Coin(12) /\ MODE = "proto" THEN 0 ELSE RE(1..Len(scn.mats)), row |-> RE({0, 1})]
WrapOp(h) == [op |-> "wrap", h |-> h, m |-> IF Coin(25) THEN 0 ELSE IF InUse(st, h) THEN RE(1..3) ELSE RE(1..Len(scn.mats))]
ASel == LET a == RE(GoodA) s == H0 IN W(<<<<a, 0>>, <<0, s>>, <<a, s>>, <<s, 0>>>>)
Rk(n) == W(<<-2, -2, -2, -2, -1, 0, 1, (n + 1) \div 2, n>>)
Betas == W(<<<<F(0), F(1000000)>>, <<<<1, 1000>>, F(10)>>, <<<<1, 10>>, <<1, 2>>>>, <<F(1), F(2)>>, <<<<1, 1000000>>, F(2)>>>>)
ApplyOp(o) ==
  [op |-> "apply", o |-> o, what |-> RE(0..3), N |-> W(<<0, 1, 1, 2, 3, 4, 6>>), r |-> IF MODE = "proto" THEN W(<<-2, -2, -1, 0>>) ELSE Rk(Hif(o).n), mixed |-> Mx, b |-> B,
   betas |-> W(<<<<>>, <<>>, Betas>>), irs |-> RE({0, 1}), viasolve |-> W(<<0, 0, 1>>)]
ProtoOp(o, c, p) ==
  CASE c <= 4 -> MatOp(RE(Handles))
    [] c <= 6 -> WrapOp(H0)
    [] c = 7 -> [op |-> "msize", h |-> H0]
    [] c <= 10 -> IF LiveH(st, o) THEN [op |-> "setup", o |-> o, A |-> p[1], S |-> p[2], k |-> K] ELSE [op |-> "create", o |-> o, A |-> p[1], S |-> p[2], k |-> K]
    [] c <= 12 -> [op |-> "setup", o |-> o, A |-> p[1], S |-> p[2], k |-> K]
    [] c <= 14 -> IF LiveH(st, o) /\ Hif(o).st = "unknown" THEN [op |-> "stats", o |-> o] ELSE [op |-> "update", o |-> o, A |-> RE(GoodA), mixed |-> Mx]
    [] c <= 16 -> [op |-> "refac", o |-> o, S |-> H0, k |-> K]
    [] c <= 21 -> ApplyOp(o)
    [] c = 22 -> [op |-> "stats", o |-> o]
    [] c = 23 -> [op |-> "errmsg"]
    [] OTHER -> IF LiveH(st, o) THEN [op |-> "destroy", o |-> o] ELSE [op |-> "defaults"]
MF == W(<<"ok", "ok", "ok", "ok", "missing", "empty", "garbage", "badbanner", "trunc", "badsize">>)
NumOp(o, c) ==
  IF len < 2 THEN [op |-> "mat", h |-> len + 1, m |-> len + 1, row |-> RE({0, 1})]
  ELSE IF len = 2 THEN [op |-> "mat", h |-> 3, m |-> 1, row |-> RE({0, 1})]
  ELSE IF len = 3 THEN W(<<[op |-> "create", o |-> 1, A |-> 1, S |-> 2, k |-> K], [op |-> "create", o |-> 1, A |-> 1, S |-> 0, k |-> K], [op |-> "create", o |-> 1, A |-> 0, S |-> 1, k |-> K], [op |-> "create", o |-> 1, A |-> 1, S |-> 3, k |-> K]>>)
  ELSE IF len = 4 /\ scn.ty \in {"s", "c"} THEN [op |-> "update", o |-> 1, A |-> W(<<1, 3>>), mixed |-> 1]
  ELSE CASE c <= 14 -> ApplyOp(1)
         [] c <= 16 -> [op |-> "stats", o |-> 1]
         [] c <= 18 -> [op |-> "update", o |-> 1, A |-> W(<<1, 3, 2>>), mixed |-> Mx]
         [] c <= 20 -> [op |-> "refac", o |-> 1, S |-> RE(1..3), k |-> K]
         [] c = 21 -> [op |-> "setup", o |-> 1, A |-> RE(1..3), S |-> RE(0..3), k |-> K]
         [] c = 22 -> [op |-> "defaults"]
         [] OTHER -> [op |-> "stats", o |-> 1]
MmOp(c) ==
  CASE c <= 8 -> [op |-> "mmq", kind |-> RE({"sp", "de"}), file |-> MF, m |-> RE(1..3), own |-> W(<<1, 1, 0>>)]
    [] c <= 16 -> [op |-> "mmread", file |-> MF, m |-> RE(1..3), dn |-> W(<<0, 0, 0, 1, -1>>), null |-> W(<<0, 0, 0, 0, 1>>), row |-> RE({0, 1}), sym |-> RE({0, 1})]
    [] c <= 21 -> [op |-> "mmvec", file |-> MF, m |-> RE(1..3), dn |-> W(<<0, 0, 0, 1, -1>>), b |-> B]
    [] OTHER -> [op |-> "errmsg"]
MaxLen == CASE MODE = "proto" -> 24 [] MODE = "mm" -> 12 [] OTHER -> 14
(* what the driver needs to know: the preconditioner and the refinement matrix the specification predicts *)
Deco(c) ==
  IF c.op \in {"apply", "stats"} /\ LiveH(st, c.o) THEN
    LET h == Hif(c.o) A == IF c.op = "apply" THEN WhichA(h, c.mixed) ELSE 0 IN
    c @@ [ref |-> h.key, aref |-> <<MatOf(st, A), RowOf(st, A)>>, n |-> h.n]
  ELSE c @@ [ref |-> <<>>, aref |-> IF c.op = "msize" THEN <<MatOf(st, c.h), RowOf(st, c.h)>> ELSE <<0, 0>>, n |-> 0]
Pick == /\ phase = "pick" /\ Skel /\ phase' = "ops" /\ st' = CInit(NH, NO) /\ UNCHANGED len
Step == /\ phase = "ops" /\ len < MaxLen
        /\ \E o \in {RE(1..NO)} : \E c \in {RE(1..24)} : \E p \in {ASel} :
           \E q \in {IF p[1] # 0 /\ p[1] \notin GoodA /\ p[2] # 0 THEN <<0, p[2]>> ELSE p} :
           \E op \in {CASE MODE = "proto" -> ProtoOp(o, c, q) [] MODE = "mm" -> MmOp(c) [] OTHER -> NumOp(o, c)} :
             /\ scn' = [scn EXCEPT !.ops = Append(@, Deco(op))]
             /\ st' = After(st, op, scn.good, scn.size)
        /\ len' = len + 1 /\ UNCHANGED phase
Emit == /\ phase = "ops" /\ len = MaxLen /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, st, len>>
Init == phase = "pick" /\ scn = [ops |-> <<>>] /\ st = CInit(0, 0) /\ len = 0
Next == Pick \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
