-------------------------------- MODULE OptGen --------------------------------
(* Random sequences of option operations; MODE "names" enumerates one        *)
(* scenario per option name with every value of the pool.                    *)
EXTENDS OptOps, Json, IOUtils
VARIABLES phase, scn, len
vars == <<phase, scn, len>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
PV == W(Pool)
IntPool == <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
BadNames == {"", "tau", "TAU_L", "tau_L ", " tau_L", "Kappa", "verbosity", "n", "C_d", "0", "dense", "alpha", "symm_pre_lvl", "pivoting"}
Op(c) ==
  CASE c <= 8 -> \E n \in {RE(Names)} : \E real \in {Coin(60)} : \E p \in {IF real THEN PV ELSE Pool[W(IntPool)]} :
                  scn' = [scn EXCEPT !.ops = Append(@, [op |-> "set", name |-> n, v |-> p, real |-> IF real THEN 1 ELSE 0, alias |-> RE({0, 1})])]
    [] c = 9 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "set", name |-> RE(BadNames), v |-> Pool[2], real |-> RE({0, 1}), alias |-> RE({0, 1})])]
    [] c = 10 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "stream", vals |-> [i \in 1..NumOpts |-> IF Table[i][2] THEN PV ELSE Pool[W(IntPool)]], sep |-> RE(0..2), via |-> RE({0, 1})])]
    [] c = 11 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "verb", flag |-> W(<<-1, 0, 1, 2, 4, 8, 16, 32, 64, 128, 3, 12>>), c |-> RE({0, 1})])]
    [] c = 12 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "repr"])]
    [] c = 13 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "defaults", src |-> RE(0..4)])]
    [] c = 14 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "cdef"])]
    [] c = 15 -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "cset", what |-> W(<<"droptol", "alpha", "kappa">>), v |-> PV[1]])]
    [] OTHER -> scn' = [scn EXCEPT !.ops = Append(@, [op |-> "consts"])]
Init == phase = "pick" /\ scn = <<>> /\ len = 0
Choose == phase = "pick" /\ phase' = "ops" /\ len' = 0 /\ scn' = [ops |-> <<>>]
Step == phase = "ops" /\ len < 12 /\ len' = len + 1 /\ UNCHANGED phase /\ \E c \in {RE(1..16)} : Op(c)
Emit == phase = "ops" /\ len >= 12 /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>
(* one scenario per name: every value of the pool, each followed by the printed form *)
RECURSIVE NameOps(_, _)
NameOps(n, i) == IF i > Len(Pool) THEN <<>> ELSE <<[op |-> "set", name |-> n, v |-> Pool[i], real |-> 1, alias |-> i % 2], [op |-> "repr"]>>
     \o (IF Pool[i][3] THEN <<[op |-> "set", name |-> n, v |-> Pool[(i % 9) + 1], real |-> 0, alias |-> i % 2]>> ELSE <<>>) \o NameOps(n, i + 1)
EnumAll == phase = "pick" /\ phase' = "done" /\ len' = 0 /\ UNCHANGED scn /\ \A i \in 1..NumOpts : PrintT("SCN " \o ToJson([ops |-> NameOps(Table[i][1], 1)]))
Next == IF MODE = "names" THEN EnumAll ELSE Choose \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
