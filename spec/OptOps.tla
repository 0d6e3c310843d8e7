------------------------------- MODULE OptOps -------------------------------
(* The options record, its text forms, and the C parameter array.  Values    *)
(* are the shortest decimal texts that denote them exactly.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Table == <<  \* name, is real, default: in the order of the text form
  <<"tau_L", TRUE, "0.0001">>, <<"tau_U", TRUE, "0.0001">>, <<"kappa_d", TRUE, "3">>, <<"kappa", TRUE, "3">>, <<"alpha_L", TRUE, "10">>, <<"alpha_U", TRUE, "10">>,
  <<"rho", TRUE, "0.5">>, <<"c_d", TRUE, "10">>, <<"c_h", TRUE, "2">>, <<"N", FALSE, "-1">>, <<"verbose", FALSE, "1">>, <<"rf_par", FALSE, "1">>, <<"reorder", FALSE, "2">>,
  <<"spd", FALSE, "0">>, <<"check", FALSE, "1">>, <<"pre_scale", FALSE, "0">>, <<"symm_pre_lvls", FALSE, "-2">>, <<"threads", FALSE, "0">>, <<"mumps_blr", FALSE, "1">>,
  <<"fat_schur_1st", FALSE, "0">>, <<"rrqr_cond", TRUE, "0">>, <<"pivot", FALSE, "2">>, <<"gamma", TRUE, "1">>, <<"beta", TRUE, "1000">>, <<"is_symm", FALSE, "0">>,
  <<"no_pre", FALSE, "0">>, <<"nzp_thres", TRUE, "0.65">>, <<"dense_thres", FALSE, "2000">>>>
NumOpts == Len(Table)
Names == {Table[i][1] : i \in 1..NumOpts}
Row(n) == Table[CHOOSE i \in 1..NumOpts : Table[i][1] = n]
IsReal(n) == Row(n)[2]
Defaults == [n \in Names |-> Row(n)[3]]

(* <<text of a number, text of its integer part, is an integer>> *)
Pool == <<<<"0", "0", TRUE>>, <<"1", "1", TRUE>>, <<"-1", "-1", TRUE>>, <<"2", "2", TRUE>>, <<"3", "3", TRUE>>, <<"7", "7", TRUE>>, <<"-5", "-5", TRUE>>, <<"1000", "1000", TRUE>>,
          <<"123456", "123456", TRUE>>, <<"0.5", "0", FALSE>>, <<"2.75", "2", FALSE>>, <<"-3.5", "-3", FALSE>>, <<"1e-06", "0", FALSE>>, <<"0.001", "0", FALSE>>, <<"99.99", "99", FALSE>>>>
Store(n, p) == IF IsReal(n) THEN p[1] ELSE p[2]

Set(o, n, p) == IF n \in Names THEN [o EXCEPT ![n] = Store(n, p)] ELSE o
RECURSIVE StreamFrom(_, _, _)
StreamFrom(o, vals, i) == IF i > NumOpts THEN o ELSE StreamFrom([o EXCEPT ![Table[i][1]] = Store(Table[i][1], vals[i])], vals, i + 1)
Stream(o, vals) == StreamFrom(o, vals, 1)

(* verbosity is a set of flags *)
RECURSIVE BitOr(_, _, _)
BitOr(a, b, k) == IF k = 0 THEN 0 ELSE 2 * BitOr(a \div 2, b \div 2, k - 1) + (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0)
Bit(a, b) == (a \div b) % 2 = 1
VerbTexts == {"0", "1", "2", "3", "7", "1000", "123456"} \cup {ToString(x) : x \in 0..255}
Num(t) == CHOOSE x \in 0..130000 : ToString(x) = t
EnableVerbose(v, flag) == IF flag > 0 THEN BitOr(v, flag, 17) ELSE 0

ReorderName(t) == CASE t = "0" -> "Off" [] t = "1" -> "Auto" [] t = "2" -> "AMD" [] t = "3" -> "RCM" [] OTHER -> "Null"
PivotName(t) == CASE t = "0" -> "off" [] t = "1" -> "on" [] OTHER -> "auto"
CheckName(t) == IF t = "0" THEN "no" ELSE "yes"
(* names whose value appears in the printed form as the bare integer *)
PlainInts == {n \in Names : ~IsReal(n)} \ {"verbose", "reorder", "check", "pivot", "mumps_blr"}
Printed == Names \ {"mumps_blr"}

(* the C parameter array *)
Slots == <<<<"LHF_DROPTOL_L", "tau_L">>, <<"LHF_DROPTOL_U", "tau_U">>, <<"LHF_COND_D", "kappa_d">>, <<"LHF_COND", "kappa">>, <<"LHF_ALPHA_L", "alpha_L">>, <<"LHF_ALPHA_U", "alpha_U">>,
           <<"LHF_VERBOSE", "verbose">>, <<"LHF_REORDER", "reorder">>, <<"LHF_SYMMPRELVLS", "symm_pre_lvls">>, <<"LHF_THREADS", "threads">>, <<"LHF_RRQR_COND", "rrqr_cond">>, <<"LHF_PIVOT", "pivot">>,
           <<"LHF_BETA", "beta">>, <<"LHF_ISSYMM", "is_symm">>, <<"LHF_NOPRE", "no_pre">>, <<"LHF_NZP_THRES", "nzp_thres">>, <<"LHF_DENSE_THRES", "dense_thres">>>>
SlotNames == {Slots[i][1] : i \in 1..Len(Slots)}
OptOf(s) == Slots[CHOOSE i \in 1..Len(Slots) : Slots[i][1] = s][2]
CDefaults == [s \in SlotNames |-> Defaults[OptOf(s)]]
CSet(c, what, t) ==
  [s \in SlotNames |-> IF s \in (CASE what = "droptol" -> {"LHF_DROPTOL_L", "LHF_DROPTOL_U"} [] what = "alpha" -> {"LHF_ALPHA_L", "LHF_ALPHA_U"} [] OTHER -> {"LHF_COND", "LHF_COND_D"}) THEN t ELSE c[s]]
Constants == [NONE |-> 0, WARN |-> 1, INFO |-> 2, PRE |-> 4, FAC |-> 8, PRE_TIME |-> 16, MEM |-> 32]
=============================================================================
