------------------------------- MODULE ArrGen -------------------------------
(* Random histories of array handles (MODE arr), of array handles in a build *)
(* with debug assertions (dbg), and of dense matrices (dm, dmdbg).           *)
EXTENDS DMOps, Json, IOUtils
VARIABLES phase, scn, len, m
vars == <<phase, scn, len, m>>
MODE == IOEnv.MODE
DBG == MODE \in {"dbg", "dmdbg"}
ISDM == MODE \in {"dm", "dmdbg"}
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
Ext6 == [k \in {-1, -2, -3} |-> [i \in 0..11 |-> 100 * (-k) + i]]
Op(op, a, b, n, vs, x, how, f) == [op |-> op, a |-> a, b |-> b, n |-> n, vs |-> vs, x |-> x, how |-> how, f |-> f]
NewB == 1 + Cardinality(m.s.seen)
Emit1(o) == scn' = [scn EXCEPT !.ops = Append(@, o)]
Hs == 1..scn.H
Idx(a) == IF m.s.h[a].z = 0 THEN 0 ELSE RE(0..(m.s.h[a].z - 1))
(* repair: an operation whose precondition fails becomes another one *)
Fix(o) ==
  LET h == m.s.h[o.a] IN
  CASE o.op \in {"set", "ends"} /\ h.z = 0 -> [o EXCEPT !.op = "pushr", !.vs = <<5, 6>>]
    [] OTHER -> o
Fix2(o) == LET h == m.s.h[o.a] IN
  CASE Misuse(m.s, o) /\ ~DBG -> [o EXCEPT !.op = "asg", !.f = 0]
    [] o.op \in {"set", "idx"} /\ h.z = 0 /\ ~DBG -> [o EXCEPT !.op = "default", !.f = 0]
    [] o.op = "idx" /\ ~DBG -> [o EXCEPT !.n = o.n % h.z]
    [] o.op = "set" -> [o EXCEPT !.n = IF h.z = 0 THEN 0 ELSE o.n % h.z, !.how = IF h.z = 0 THEN 1 ELSE @]
    [] o.op = "copyext" \/ o.op = "wrap" -> [o EXCEPT !.n = IF o.n > 6 THEN 6 ELSE o.n]
    [] o.op = "ends" /\ h.z = 0 -> [o EXCEPT !.op = "at"]
    [] OTHER -> o
(* out-of-range accesses and misuses are refused: no step of the state *)
Refused(o) == (DBG /\ Misuse(m.s, o)) \/ (o.op \in {"set", "idx", "at"} /\ o.n >= m.s.h[o.a].z)
AStep ==
  \E a \in {RE(Hs)} : \E b \in {RE(Hs)} : \E n \in {RE(0..6)} : \E v \in {RE(1..99)} : \E v2 \in {RE(1..99)} :
  \E nm \in {W(<<"new", "newv", "copyext", "wrap", "conv", "share", "share", "clone", "move", "asg", "asg", "asg", "masg", "masg", "swap", "set", "set", "set", "setext", "resize", "resize", "resize", "reserve", "push", "push", "pushr", "steal", "at", "idx", "ends", "default">>)} :
  \E x \in {RE(1..3)} : \E how \in {RE(0..2)} : \E f \in {IF ~DBG /\ RE(1..100) <= 8 /\ nm \in {"new", "newv", "copyext", "conv", "resize", "reserve"} THEN 1 ELSE 0} : \E w \in {RE(0..3)} :
  LET vs == IF nm \in {"newv", "set", "push"} THEN <<v>> ELSE IF nm = "setext" THEN <<v>> ELSE IF nm = "pushr" THEN SubSeq(<<v, v2, 7>>, 1, w) ELSE <<>>
      o == Fix2(Fix(Op(nm, a, b, IF nm = "setext" /\ n > 5 THEN 5 ELSE n, vs, x, IF nm \in {"resize", "pushr", "at", "idx", "ends"} THEN how % 2 ELSE how, f))) IN
  /\ Emit1(o)
  /\ m' = IF Refused(o) THEN m ELSE [m EXCEPT !.s = TLCEval(Apply(@, o, NewB, Need(m.s, o)))]
DOp(op, a, b, n1, n2, v, x, how, ents) == [op |-> op, a |-> a, b |-> b, n1 |-> n1, n2 |-> n2, v |-> v, x |-> x, how |-> how, ents |-> ents]
DStep ==
  \E a \in {RE(Hs)} : \E b \in {RE(Hs)} : \E n1 \in {RE(1..3)} : \E n2 \in {RE(1..3)} : \E v \in {RE(1..99)} : \E x \in {RE(1..3)} : \E how \in {RE(0..2)} : \E z \in {RE(1..8)} :
  \E nm \in {W(<<"default", "square", "new", "newv", "copyext", "wrap", "conv", "share", "share", "clone", "move", "asg", "asg", "masg", "masg", "resize", "resize", "resize", "set", "set", "set", "crs", "ccs", "row", "row", "col", "at">>)} :
  \E ents \in {IF nm \in {"crs", "ccs"} THEN {<<i, j>> \in (0..(n1 - 1)) \X (0..(n2 - 1)) : RE(1..2) = 1} ELSE {}} :
  LET d == m.d[a] bad == d = Unspec \/ d[1] * d[2] = 0
      RECURSIVE seqOf(_)
      seqOf(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<<<p[1], p[2], 1 + ((p[1] * 5 + p[2] * 3 + v) % 90)>>>> \o seqOf(S \ {p})
      o0 == DOp(nm, a, b, IF z = 1 /\ nm \in {"resize", "crs", "ccs", "square"} THEN 0 ELSE n1, IF z = 2 /\ nm \in {"resize", "crs", "ccs"} THEN 0 ELSE n2, v, x, IF nm \in {"crs", "ccs", "col", "at"} THEN how % 2 ELSE how, seqOf(ents))
      o1 == IF nm \in {"crs", "ccs"} /\ o0.n1 * o0.n2 = 0 THEN [o0 EXCEPT !.ents = <<>>] ELSE o0
      o2 == IF nm \in {"resize", "crs", "ccs"} /\ m.s.h[a].s = WRAP /\ ~(nm # "resize" /\ how % 2 = 1)
            THEN (IF <<o1.n1, o1.n2>> = d THEN o1 ELSE [o1 EXCEPT !.op = "default", !.ents = <<>>]) ELSE o1
      o3 == IF nm = "conv" /\ m.d[b] = Unspec THEN [o2 EXCEPT !.op = "share"] ELSE o2
      o == IF nm \in {"set", "row", "col", "at"} THEN (IF bad THEN [o3 EXCEPT !.op = "newv"]
             ELSE IF DBG /\ z = 3 /\ nm \in {"at", "set"} THEN [o3 EXCEPT !.n1 = d[1], !.n2 = 0, !.how = 0]
             ELSE IF nm = "row" THEN [o3 EXCEPT !.n1 = @ % d[1]]
             ELSE IF nm = "col" THEN [o3 EXCEPT !.n1 = @ % d[2]]
             ELSE [o3 EXCEPT !.n1 = @ % d[1], !.n2 = @ % d[2]]) ELSE o3
      u == Under(m, o)
      ref == (o.op \in {"set", "at"} /\ o.n1 >= d[1]) \/ (u.op = "resize" /\ Base(m, o).h[a].s = WRAP /\ <<o.n1, o.n2>> # d)
  IN /\ Emit1(o)
     /\ m' = TLCEval(IF ref THEN [m EXCEPT !.d[a] = IF u.op = "resize" THEN <<o.n1, o.n2>> ELSE @] ELSE DApply(m, o, NewB, Need(Base(m, o), u)))
Init == phase = "pick" /\ scn = <<>> /\ len = 0 /\ m = <<>>
Choose == phase = "pick" /\ phase' = "ops" /\ len' = 0 /\
          (IF ISDM THEN scn' = [kind |-> "dm", H |-> 3, dbg |-> IF DBG THEN 1 ELSE 0, ops |-> <<>>] /\ m' = DNewSt(3, Ext6)
           ELSE scn' = [kind |-> "arr", H |-> 4, dbg |-> IF DBG THEN 1 ELSE 0, ops |-> <<>>] /\ m' = DNewSt(4, Ext6))
Step == phase = "ops" /\ len < 24 /\ len' = len + 1 /\ UNCHANGED phase /\ (IF ISDM THEN DStep ELSE AStep)
Emit == phase = "ops" /\ len >= 24 /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len, m>>
Next == Choose \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
