------------------------------- MODULE AugGen -------------------------------
(* Random histories of augmented storages (MODE aug) and permutations (perm).*)
EXTENDS AugOps, Json, IOUtils
VARIABLES phase, scn, len, m
vars == <<phase, scn, len, m>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p
Cplx == scn.ty = "z"
Val == <<RE(-9..9), IF Cplx THEN RE(-9..9) ELSE 0>>
(* indices of a new line: dense, sparse or empty *)
RandSet(ns, d) == {j \in 0..(ns - 1) : RE(1..100) <= d}
Ents(S) == LET q == SortedSeq(S) IN [x \in 1..Len(q) |-> <<q[x], Val>>]
FunOf(es) == [j \in {es[x][1] : x \in 1..Len(es)} |-> (CHOOSE x \in 1..Len(es) : es[x][1] = j)]
LineOf(es) == LET f == FunOf(es) IN [j \in DOMAIN f |-> es[f[j]][2]]
Op(op, i, k, how, es, ls) == [op |-> op, i |-> i, k |-> k, how |-> how, ents |-> es, lines |-> ls]
Emit1(o) == scn' = [scn EXCEPT !.ops = Append(@, o)]
Skel == \E ty \in {W(<<"d", "s", "z">>)} : \E np \in {RE(1..7)} : \E ns \in {RE(2..8)} : \E b \in {W(<<0, 0, 0, 1>>)} : \E row \in {RE({0, 1})} : \E nz \in {W(<<0, 0, 5, 40>>)} : \E di \in {RE(0..2)} : \E si \in {RE(1..2)} :
          scn' = [kind |-> "aug", ty |-> ty, np |-> np, ns |-> ns, build |-> b, row |-> row, nz |-> nz, dens |-> W(<<<<0, 30, 60>>, <<30, 60, 100>>, <<60, 80, 100>>, <<10, 10, 20>>>>), ops |-> <<>>] /\ m' = NewAug(ns)
Build == \E ds \in {[p \in 1..scn.np |-> RandSet(scn.ns, W(scn.dens))]} : \E how \in {RE(0..3)} :
  \E ls \in {TLCEval([p \in 1..scn.np |-> Ents(ds[p])])} :
    IF \A p \in 1..scn.np : ls[p] = <<>> THEN Emit1(Op("noop", 0, 0, 0, <<>>, <<>>)) /\ UNCHANGED m
    ELSE Emit1(Op("build", 0, 0, how, <<>>, ls)) /\ m' = [m EXCEPT !.lines = [p \in 1..scn.np |-> LineOf(ls[p])]]
Push == \E S \in {RandSet(scn.ns, W(scn.dens))} : \E es \in {TLCEval(Ents(S))} : \E two \in {RE(1..3)} : \E cut \in {RE(0..scn.ns)} :
    /\ Emit1(Op(IF two = 1 THEN "push2" ELSE "push", cut, 0, 0, es, <<>>))
    /\ m' = [m EXCEPT !.lines = Append(@, LineOf(es))]
Swap == \E i \in {RE(0..(scn.ns - 1))} : \E k \in {RE(0..(scn.ns - 1))} : \E how \in {RE(0..1)} :
    Emit1(Op("swap", i, k, how, <<>>, <<>>)) /\ m' = TLCEval(Interchange(m, i, k))
Deferrable == {p \in (0..(scn.ns - 1)) \X (0..(scn.ns - 1)) : CanDefer(m, p[1], p[2])}
DoDefer == IF Deferrable = {} THEN Swap ELSE \E p \in {RE(Deferrable)} : \E how \in {RE(0..1)} : Emit1(Op("defer", p[1], p[2], how, <<>>, <<>>)) /\ m' = TLCEval(Defer(m, p[1], p[2]))
Copy == \E how \in {RE(0..2)} : Emit1(Op("copy", 0, 0, how, <<>>, <<>>)) /\ UNCHANGED m
AugStep == \E c \in {RE(1..10)} :
  IF scn.build = 1 /\ m.lines = <<>> THEN Build
  ELSE IF c <= 4 /\ Len(m.lines) < scn.np /\ scn.build = 0 THEN Push
  ELSE IF c <= 6 THEN DoDefer ELSE IF c = 7 /\ len > 4 THEN Copy ELSE Swap
(* permutations *)
POp(op, i, k, how, p) == [op |-> op, i |-> i, k |-> k, how |-> how, p |-> p]
RECURSIVE Shuf2(_, _)
Shuf2(S, acc) == IF S = {} THEN {acc} ELSE UNION {Shuf2(S \ {x}, Append(acc, x)) : x \in {RE(S)}}
PStep == \E c \in {RE(1..14)} : \E i \in {RE(0..(m - 1))} : \E k \in {RE(0..(m - 1))} : \E how \in {RE(0..1)} : \E p \in Shuf2(0..(m - 1), <<>>) : \E n2 \in {RE(1..8)} :
  CASE c <= 5 -> Emit1(POp("swap", i, k, how, <<>>)) /\ UNCHANGED m
    [] c <= 9 -> Emit1(POp("swapinv", i, k, how, <<>>)) /\ UNCHANGED m
    [] c = 10 -> Emit1(POp("build", 0, 0, how, p)) /\ UNCHANGED m
    [] c = 11 -> Emit1(POp("from", 0, 0, how, p)) /\ UNCHANGED m
    [] c = 12 -> Emit1(POp("eye", 0, 0, how, <<>>)) /\ UNCHANGED m
    [] c = 13 -> Emit1(POp("copy", 0, 0, how, <<>>)) /\ UNCHANGED m
    [] OTHER -> Emit1(POp("resize", 0, n2, how, <<>>)) /\ m' = n2
PSkel == \E n \in {RE(1..8)} : scn' = [kind |-> "perm", ty |-> W(<<"d", "l">>), n |-> n, ops |-> <<>>] /\ m' = n
Init == phase = "pick" /\ scn = <<>> /\ len = 0 /\ m = <<>>
Choose == phase = "pick" /\ phase' = "ops" /\ len' = 0 /\ (IF MODE = "aug" THEN Skel ELSE PSkel)
Step == phase = "ops" /\ len < 22 /\ len' = len + 1 /\ UNCHANGED phase /\ (IF MODE = "aug" THEN AugStep ELSE PStep)
Emit == phase = "ops" /\ len >= 22 /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len, m>>
Next == Choose \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
