------------------------------- MODULE HIFGen -------------------------------
(* Random behaviours of the preconditioner object's specification, written   *)
(* out as scenarios for the replay driver.  The abstract object states are   *)
(* HIFObjOps'; MODE selects which operations and which matrices/options are  *)
(* drawn.  One simulated behaviour is one scenario.                          *)
EXTENDS HIFObjOps, FiniteSets, TLC, Json, IOUtils
VARIABLES phase, scn, objs, len
vars == <<phase, scn, objs, len>>

MODE == IOEnv.MODE
TYS == IOEnv.TYS           \* value types to draw from: "d", "dz", "dszc"
Thorough == IOEnv.GEN_TIER = "thorough"
(* mentioning a variable keeps TLC from evaluating the draws only once *)
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
F(x) == <<x, 1>>

AllFam == {"rand", "zdiag", "dd", "permdd", "arrow", "tri", "grid", "hspd", "hnd", "hindef", "saddle", "block", "circ", "dense", "diag", "weak", "rscale", "symlead"}
SymFam == {"grid", "hspd", "hnd", "hindef", "saddle"}
SingFam == {"lap", "sing", "hsing"}
TyOf == CASE TYS = "d" -> "d" [] TYS = "dz" -> W(<<"d", "z">>) [] TYS = "dsc" -> W(<<"d", "s", "c">>)
          [] OTHER -> W(<<"d", "d", "s", "z", "z", "c">>)
Size == W(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 24>>)
SmallSize == W(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12>>)
MidSize == W(<<6, 8, 10, 12, 16, 20, 25, 30, 40>>)
Mat(fams, n) == [fam |-> RE(fams), n |-> n, seed |-> RE(1..99999)]

(* ------------------------------------------------------------- options *)
Sh == ("pivot" :> RE({0, 1, 2})) @@ ("reorder" :> RE({0, 1, 2, 3})) @@ ("pre_scale" :> W(<<0, 0, 1, 2>>))
      @@ ("rf_par" :> RE({0, 1})) @@ ("symm_pre_lvls" :> RE({-2, -1, 0, 1, 2})) @@ ("no_pre" :> W(<<0, 0, 0, 1>>))
      @@ ("kappa" :> W(<<F(2), F(3), F(5), F(10)>>)) @@ ("kappa_d" :> W(<<F(2), F(3), F(5), F(10)>>))
      @@ ("fat_schur_1st" :> W(<<0, 0, 1>>)) @@ ("nzp_thres" :> W(<<<<65, 100>>, F(0), F(1)>>))
      @@ ("gamma" :> W(<<F(1), <<1, 2>>>>)) @@ ("beta" :> W(<<F(1000), F(10)>>))
MLopt == W(<<[ml |-> TRUE], [ml |-> TRUE], [ml |-> TRUE], [ml |-> FALSE], ("dense_thres" :> 5) @@ ("c_d" :> F(1)) @@ ("rho" :> <<1, 2>>)>>)
Complete == ("complete" :> TRUE) @@ Sh @@ MLopt
SymComplete == ("is_symm" :> 1) @@ ("spd" :> RE({-1, 0, 0, 1})) @@ Complete
Drop == ("tau_L" :> W(<<<<1, 10>>, <<1, 20>>, <<1, 100>>, <<1, 1000>>, F(0)>>)) @@ ("tau_U" :> W(<<<<1, 10>>, <<1, 20>>, <<1, 100>>, <<1, 1000>>, F(0)>>))
        @@ ("alpha_L" :> W(<<F(1), F(2), F(3), F(10), <<1, 2>>>>)) @@ ("alpha_U" :> W(<<F(1), F(2), F(3), F(10), <<1, 2>>>>))
Lossy == Drop @@ Sh @@ MLopt
SymLossy == ("is_symm" :> 1) @@ Lossy
SpdOpt(fam) == IF fam \in {"grid", "hspd"} THEN RE({0, 1}) ELSE IF fam = "hnd" THEN RE({0, -1}) ELSE 0
OptFor(fam, complete) ==
  LET sym == fam \in SymFam \cup {"lap", "hsing"} /\ Coin(60)
      base == IF complete THEN Complete ELSE Lossy
  IN IF sym THEN ("is_symm" :> 1) @@ ("spd" :> SpdOpt(fam)) @@ base ELSE base

Rep == W(<<"crs0", "crs0", "crs1", "ccs0", "ptr0">>)
AnyRep == W(<<"crs0", "crs1", "ccs0", "ccs1", "ptr0", "ptr1", "ccp0", "ccp1", "oth0", "oth1">>)

Op(o, k) == [op |-> k, o |-> o]
Fac(o, m, k, m0, rep) == Op(o, "fac") @@ [m |-> m, k |-> k, m0 |-> m0, rep |-> rep]
B == RE(1..9999)
TR == RE({0, 1})
(* a leading block size says: this block is symmetric *)
AnyM0(n) == W(<<0, 0, 0, (n + 1) \div 2, n, RE(1..n)>>)
M0For(mt, opt) ==
  IF "is_symm" \in DOMAIN opt \/ ("pivot" \in DOMAIN opt /\ opt.pivot = 1) THEN AnyM0(mt.n)
  ELSE IF mt.fam = "symlead" THEN (mt.n + 1) \div 2
  ELSE IF scn.ty \in {"d", "s"} /\ mt.fam \in SymFam THEN AnyM0(mt.n)
  ELSE 0

(* --------------------------------------------------- scenario skeletons *)
Skel ==
  LET ty == TyOf IN
  CASE MODE \in {"exact", "adjoint", "inverse", "mrhs", "levels", "thr", "hifir", "nsp"} ->
         LET fams == IF Coin(35) THEN SymFam ELSE AllFam
             n == CASE MODE = "adjoint" -> SmallSize [] MODE = "levels" -> W(<<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14>>) [] MODE = "nsp" -> SmallSize [] OTHER -> Size
             m == Mat(fams, n)
             compl == CASE MODE = "exact" -> TRUE [] MODE \in {"adjoint", "mrhs", "levels"} -> Coin(50) [] MODE = "inverse" -> Coin(25) [] OTHER -> Coin(30)
         IN [ty |-> ty, mats |-> <<m>>, opts |-> <<OptFor(m.fam, compl)>>, ops |-> <<>>]
            @@ (IF MODE = "levels" THEN [logmat |-> TRUE] ELSE [none |-> 0]) @@ (IF compl /\ MODE # "levels" THEN [none |-> 0] ELSE [expect |-> "any"])
    [] MODE = "onesided" ->
         LET up == Coin(50)
             m == Mat(AllFam \ SymFam, W(<<2, 3, 4, 5, 6, 8, 10, 12>>))
             inf == F(1000000) tiny == <<1, 1000>> big == F(10000)
             o == (IF up THEN ("tau_U" :> inf) @@ ("alpha_U" :> tiny) @@ ("tau_L" :> F(0)) @@ ("alpha_L" :> big)
                   ELSE ("tau_L" :> inf) @@ ("alpha_L" :> tiny) @@ ("tau_U" :> F(0)) @@ ("alpha_U" :> big))
         IN [ty |-> ty, mats |-> <<m>>, opts |-> <<("pivot" :> 0) @@ o @@ Sh @@ MLopt>>, ops |-> <<>>, mode |-> IF up THEN "Uoff" ELSE "Loff", logmat |-> TRUE, expect |-> "any"]
    [] MODE = "sing" ->
         LET m == Mat(SingFam, W(<<2, 3, 4, 5, 6, 8, 10, 12, 16>>)) IN
         [ty |-> ty, mats |-> <<m>>, opts |-> <<("rrqr_cond" :> W(<<F(0), F(0), F(100000)>>)) @@ OptFor(m.fam, Coin(70))>>, ops |-> <<>>, expect |-> "any"]
    [] MODE = "thrbig" -> \* large enough for every parallel kernel
         [ty |-> ty, mats |-> <<Mat({"bigarrow"}, RE(420..470))>>,
          opts |-> <<("pivot" :> RE({0, 1, 2})) @@ ("rf_par" :> RE({0, 1})) @@ W(<<("tau_L" :> F(0)) @@ ("tau_U" :> F(0)) @@ ("alpha_L" :> F(1000)) @@ ("alpha_U" :> F(1000)), ("tau_L" :> F(0)) @@ ("tau_U" :> F(0)) @@ ("alpha_L" :> <<1, 2>>) @@ ("alpha_U" :> <<1, 2>>),
                       ("tau_L" :> <<1, 1000>>) @@ ("tau_U" :> <<1, 1000>>) @@ ("alpha_L" :> F(3)) @@ ("alpha_U" :> F(3))>>)>>, ops |-> <<>>, expect |-> "any"]
    [] MODE = "conc" ->
         [ty |-> ty, mats |-> [i \in 1..4 |-> Mat({"dd", "tri", "hspd", "rscale", "saddle"}, W(<<10, 16, 25, 36>>))], opts |-> <<Sh @@ MLopt, Lossy>>, ops |-> <<>>]
    [] OTHER -> \* histories and representations: several matrices and option sets
         LET n1 == Size n2 == Size
             ms == <<Mat(AllFam, n1), Mat(AllFam, n2), Mat({"dd", "tri", "grid", "hspd"}, n1)>> IN
         [ty |-> ty, mats |-> ms, opts |-> <<Complete, Lossy, Sh @@ MLopt>>, ops |-> <<>>, expect |-> "any"]

MaxLen == CASE MODE \in {"exact", "adjoint"} -> 4 [] MODE \in {"levels", "onesided"} -> 3 [] MODE = "inverse" -> 8 [] MODE = "mrhs" -> 8 [] MODE = "hifir" -> 8
            [] MODE = "nsp" -> 8 [] MODE = "sing" -> 3 [] MODE = "conc" -> 1 [] MODE \in {"thr", "thrbig"} -> 2 [] MODE = "repr" -> 9 [] OTHER -> 14

NMat(i) == scn.mats[i].n
ObjSt(o) == IF o \in DOMAIN objs THEN objs[o] ELSE EmptyObj
SetO(o, v) == [x \in (DOMAIN objs) \cup {o} |-> IF x = o THEN v ELSE objs[x]]
Emit1(op) == scn' = [scn EXCEPT !.ops = Append(@, op)] /\ len' = len + 1 /\ UNCHANGED phase

(* factorize object o with a drawn matrix and options *)
DoFac(o) ==
  \E m \in {RE(1..Len(scn.mats))} : \E k \in {RE(1..Len(scn.opts))} :
  \E rep \in {IF MODE = "repr" THEN AnyRep ELSE Rep} : \E m0 \in {M0For(scn.mats[m], scn.opts[k])} :
    /\ Emit1(Fac(o, m, k, m0, rep))
    /\ objs' = SetO(o, FactorizePost(ObjSt(o), [m |-> m, k |-> k, m0 |-> m0, rep |-> rep], NMat(m)))

Keep(op) == Emit1(op) /\ UNCHANGED objs
RankReq(n) == W(<<0, 0, 0, 1, 2, n \div 2, n>>)

NBetas == W(<<<<F(0), F(1000000)>>, <<<<1, 1000>>, F(10)>>, <<<<1, 1000000>>, F(2)>>, <<<<1, 10>>, <<1, 2>>>>, <<<<1, 100000000>>, F(1)>>, <<F(1), F(2)>>, <<<<3, 10>>, <<1, 1>>>>>>)
NSteps == W(<<0, 1, 2, 2, 3, 4, 5, 6, 8>>)

Range(n) == W(<<<<0, -1>>, <<0, n>>, <<RE(0..n), RE(0..n)>>, <<RE(0..n), -1>>, <<1, 2>>, <<n, n>>, <<0, n + RE(1..3)>>, <<n + 1, -1>>>>)
NspOp(o, n) ==
  \E kind \in {W(<<"none", "const", "const", "set", "cb", "setcb", "or">>)} : \E rg \in {Range(n)} : \E side \in {W(<<"r", "r", "l">>)} :
     /\ Emit1(Op(o, "nsp") @@ [side |-> side, kind |-> kind, start |-> rg[1], end |-> rg[2], b |-> B])
     /\ objs' = SetO(o, FilterPost(ObjSt(o), side, IF kind = "none" THEN NoFilter ELSE [kind |-> kind, a |-> rg[1], z |-> rg[2]]))

Step ==
  /\ phase = "ops" /\ len < MaxLen
  /\ LET n == NMat(1) IN
     CASE MODE = "exact" ->
            IF len = 0 THEN DoFac(1)
            ELSE Keep(IF len = 3 THEN Op(1, "query") ELSE Op(1, "exact") @@ [tr |-> len % 2, b |-> B])
       [] MODE = "inverse" ->
            IF len % 4 = 0 THEN DoFac(1)
            ELSE Keep(W(<<Op(1, "inv") @@ [tr |-> TR, b |-> B], Op(1, "inv") @@ [tr |-> TR, b |-> B], Op(1, "lin") @@ [tr |-> TR, b |-> B, mm |-> TR, r |-> RankReq(3)]>>))
       [] MODE = "adjoint" ->
            IF len = 0 THEN DoFac(1) ELSE Keep(Op(1, "adj") @@ [r |-> IF len = 1 THEN 0 ELSE RE(1..3)])
       [] MODE = "mrhs" ->
            IF len = 0 THEN DoFac(1)
            ELSE \E c \in {W(<<1, 1, 1, 1, 1, 2, 3, 4, 5>>)} :
                 CASE c = 1 -> Keep(Op(1, "mrhs") @@ [w |-> W(<<1, 2, 3, 5, 8>>), r |-> W(<<0, 0, 0, 1, 2>>), b |-> B])
                   [] c = 2 -> Keep(Op(1, "solve") @@ [tr |-> TR, r |-> 0, b |-> B, ref |-> 1])
                   [] c = 3 -> Keep(Op(1, "mult") @@ [tr |-> TR, r |-> 0, b |-> B, ref |-> 1])
                   [] c = 4 -> DoFac(1)
                   [] OTHER -> Keep(Op(1, "hifir") @@ [tr |-> TR, r |-> 0, b |-> B, N |-> 2])
       [] MODE \in {"levels", "onesided"} ->
            CASE len = 0 -> IF MODE = "levels" THEN DoFac(1)
                            ELSE Emit1(Fac(1, 1, 1, 0, "crs0")) /\ objs' = SetO(1, FactorizePost(EmptyObj, [m |-> 1, k |-> 1], n))
              [] len = 1 -> Keep(Op(1, "levels") @@ [pat |-> 1, re |-> 1])
              [] OTHER -> Keep(Op(1, "query"))
       [] MODE = "thrbig" ->
            IF len = 0 THEN Emit1(Fac(1, 1, 1, 0, "crs0")) /\ objs' = SetO(1, FactorizePost(EmptyObj, [m |-> 1, k |-> 1], n))
            ELSE Keep(Op(1, "thr") @@ [b |-> B, ts |-> <<1, W(<<2, 3>>), W(<<4, 5, 7, 8>>)>>, parts |-> <<>>])
       [] MODE = "thr" ->
            IF len = 0 THEN DoFac(1)
            ELSE Keep(Op(1, "thr") @@ [b |-> B, ts |-> <<1, W(<<2, 3>>), W(<<3, 4, 5, 7, 8, 16, 40>>)>>,
                      parts |-> [i \in 1..6 |-> <<W(<<0, 1, 2, 3, 5, 7, 16, 17, 100>>), W(<<1, 2, 3, 4, 5, 7, 8>>)>>]])
       [] MODE = "conc" -> Keep(Op(1, "conc") @@ [rounds |-> 3])
       [] MODE = "hifir" ->
            IF len = 0 THEN DoFac(1)
            ELSE \E c \in {RE(1..10)} :
                 Keep((Op(1, "hifir") @@ [tr |-> TR, b |-> B, N |-> NSteps, cb |-> W(<<0, 0, 1>>), ccs |-> W(<<0, 0, 1>>), defr |-> W(<<0, 0, 1>>), zero |-> W(<<0, 0, 0, 0, 0, 0, 0, 1>>), r |-> W(<<0, 0, 0, 1>>)])
                      @@ (IF c <= 6 THEN [betas |-> NBetas] ELSE [nob |-> 1]))
       [] MODE = "nsp" ->
            IF len = 0 THEN DoFac(1)
            ELSE \E c \in {RE(1..10)} :
                 IF c <= 7 THEN NspOp(1, n)
                 ELSE IF c = 8 THEN Keep(Op(1, "solve") @@ [tr |-> TR, r |-> 0, b |-> B, ref |-> 1])
                 ELSE IF c = 9 THEN Keep(Op(1, "mult") @@ [tr |-> TR, r |-> 0, b |-> B, ref |-> 1])
                 ELSE Keep(Op(1, "hifir") @@ [tr |-> TR, r |-> 0, b |-> B, N |-> W(<<2, 3>>)])
       [] MODE = "sing" ->
            CASE len = 0 -> DoFac(1) [] len = 1 -> Keep(Op(1, "trunc") @@ [b |-> B]) [] OTHER -> Keep(Op(1, "query"))
       [] MODE = "repr" ->
            IF len % 3 = 0 THEN
              (* the same matrix and options in another representation *)
              \E rep \in {AnyRep} : \E m \in {IF len = 0 THEN RE(1..3) ELSE scn.ops[1].m} : \E k \in {IF len = 0 THEN RE(1..3) ELSE scn.ops[1].k} :
                /\ Emit1(Fac(1 + len \div 3, m, k, 0, rep))
                /\ objs' = SetO(1 + len \div 3, FactorizePost(EmptyObj, [m |-> m, k |-> k], NMat(m)))
            ELSE LET o == 1 + len \div 3 IN
              Keep(IF len % 3 = 1 THEN Op(o, "solve") @@ [tr |-> 0, r |-> 0, b |-> 7] ELSE Op(o, W(<<"exact", "solve">>)) @@ [tr |-> 1, r |-> 0, b |-> 8])
       [] OTHER -> \* history: a walk of HIFObj over three objects
            \E o \in {RE(1..3)} : \E c \in {RE(1..20)} :
              IF MustRefuse(ObjSt(o)) THEN
                CASE c <= 12 -> DoFac(o)
                  [] c <= 14 -> Keep(Op(o, W(<<"solve", "mult">>)) @@ [tr |-> TR, r |-> 0, b |-> B])
                  [] c <= 15 -> Keep(Op(o, "query"))
                  [] c <= 16 -> Keep(Op(o, "clear"))
                  [] OTHER -> DoFac(o)
              ELSE
                CASE c <= 5 -> Keep(Op(o, "solve") @@ [tr |-> TR, r |-> W(<<0, 0, 1>>), b |-> W(<<5, 6>>), ref |-> 1])
                  [] c <= 8 -> Keep(Op(o, "mult") @@ [tr |-> TR, r |-> W(<<0, 0, 1>>), b |-> W(<<5, 6>>), ref |-> 1])
                  [] c <= 10 -> DoFac(o)
                  [] c <= 12 -> Keep(Op(o, "query"))
                  [] c = 13 -> Emit1(Op(o, "clear")) /\ objs' = SetO(o, ClearPost(ObjSt(o)))
                  [] c = 14 -> Keep(Op(o, "hifir") @@ [tr |-> TR, r |-> 0, b |-> B, N |-> W(<<1, 2, 3>>)])
                  [] c <= 16 -> (IF ObjSt(o).fr = NoFilter THEN Keep(Op(o, "mrhs") @@ [w |-> W(<<1, 2, 3, 5, 8>>), r |-> 0, b |-> B])
                               ELSE Keep(Op(o, "query")))
                  [] c = 17 -> NspOp(o, ObjSt(o).n)
                  [] OTHER -> Keep(Op(o, W(<<"inv", "exact">>)) @@ [tr |-> TR, b |-> B])

Pick == /\ phase = "pick" /\ \E s \in {Skel} : scn' = s
        /\ phase' = "ops" /\ UNCHANGED <<objs, len>>
Emit == /\ phase = "ops" /\ len = MaxLen /\ PrintT("SCN " \o ToJson(scn))
        /\ phase' = "done" /\ UNCHANGED <<scn, objs, len>>
Init == phase = "pick" /\ scn = [ops |-> <<>>] /\ objs = [o \in {} |-> EmptyObj] /\ len = 0
Next == Pick \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
