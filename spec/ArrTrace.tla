------------------------------ MODULE ArrTrace ------------------------------
(* Conformance of recorded handle histories with ArrOps and DMOps.           *)
EXTENDS TraceLib, DMOps, Num
ExtK(kind) == [k \in {-1, -2, -3} |-> [i \in 0..(IF kind = "dm" THEN 11 ELSE 5) |-> 100 * (-k) + i]]
RBegin(scn) == [s |-> scn, m |-> DNewSt(scn.H, ExtK(scn.kind)), i |-> 1]
Op(st) == st.s.ops[st.i]
IsDM(st) == st.s.kind = "dm"
Dbg(st) == st.s.dbg = 1
U(st) == IF IsDM(st) THEN Under(st.m, Op(st)) ELSE Op(st)
B(st) == IF IsDM(st) THEN Base(st.m, Op(st)) ELSE st.m.s
Refused(st) ==
  LET o == Op(st) s == st.m.s IN
  IF IsDM(st) THEN (o.op \in {"set", "at"} /\ o.n1 >= st.m.d[o.a][1]) \/ (Dbg(st) /\ U(st).op = "resize" /\ B(st).h[o.a].s = WRAP /\ <<o.n1, o.n2>> # st.m.d[o.a])
  ELSE (Dbg(st) /\ Misuse(s, o)) \/ (o.op \in {"set", "idx", "at"} /\ o.n >= s.h[o.a].z)
Obs(e, k) == e.h[k]
After(st, e) ==
  LET o == Op(st) IN
  IF Refused(st) THEN [st.m EXCEPT !.d[o.a] = IF IsDM(st) /\ U(st).op = "resize" THEN Unspec ELSE @]
  ELSE LET nb == Obs(e, o.a).b nc == MaxI(Obs(e, o.a).c, Need(B(st), U(st))) IN
       IF IsDM(st) THEN DApply(st.m, o, nb, nc) ELSE [st.m EXCEPT !.s = Apply(@, o, nb, nc)]
SameContent(s, k, v) == s.h[k].b = 0 \/ \A i \in 1..Len(v) : s.mem[s.h[k].b][i - 1] \in {UNK, v[i]}
SetOf(q) == {q[k] : k \in 1..Len(q)}
Matches(want, got) == Len(want) = Len(got) /\ \A k \in 1..Len(want) : want[k] \in {UNK, got[k]}
Ret(st, o, e, w) ==
  LET s == st.m.s a == o.a IN
  IF IsDM(st) THEN
    CASE o.op = "row" -> Clause(Matches(Row(st.m, a, o.n1), e.ret), "row traversal")
      [] o.op = "col" -> Clause(Matches(Col(st.m, a, o.n1), e.ret), "column traversal")
      [] o.op = "at" -> Clause(Matches(<<s.mem[s.h[a].b][Cell(st.m.d[a][1], o.n1, o.n2)]>>, e.ret), "element access")
      [] OTHER -> {}
  ELSE CASE o.op \in {"at", "idx"} -> Clause(Matches(<<s.mem[s.h[a].b][o.n]>>, e.ret), "element access")
         [] o.op = "ends" -> Clause(Matches(<<s.mem[s.h[a].b][0], s.mem[s.h[a].b][s.h[a].z - 1], s.h[a].z>>, e.ret), "first and last element")
         [] o.op = "steal" -> Clause(e.ret = (IF s.h[a].s = OWN THEN <<s.h[a].b, s.h[a].z, s.h[a].c>> ELSE <<0, 0, 0>>), "stolen block")
         [] OTHER -> {}
StepWhy(st, e) ==
  LET o == Op(st) u == U(st) a == o.a ref == Refused(st) al == ~ref /\ Allocates(B(st), u) /\ u.f = 0 IN
  IF e.ev # o.op THEN {"order of events"}
  ELSE IF e.err # (IF ref THEN 1 ELSE 0) THEN {"misuse is refused and nothing else is"}
  ELSE IF al /\ (Obs(e, a).b <= 0 \/ Obs(e, a).b \in st.m.s.seen) THEN {"an operation needing memory of its own takes a new block"}
  ELSE IF al /\ Obs(e, a).c < Need(B(st), u) THEN {"capacity covers the size"}
  ELSE LET w == After(st, e) s == w.s IN
    Clause(\A k \in 1..Len(e.h) : Obs(e, k).s = s.h[k].s, "status") \cup
    Clause(\A k \in 1..Len(e.h) : Obs(e, k).z = s.h[k].z /\ (Obs(e, k).e = 1) = (s.h[k].z = 0), "size") \cup
    Clause(\A k \in 1..Len(e.h) : Obs(e, k).c = s.h[k].c, "capacity") \cup
    Clause(\A k \in 1..Len(e.h) : Obs(e, k).b = s.h[k].b, "sharing") \cup
    (IF \A k \in 1..Len(e.h) : Obs(e, k).b = s.h[k].b /\ Obs(e, k).z = s.h[k].z THEN Clause(\A k \in 1..Len(e.h) : SameContent(s, k, Obs(e, k).v), "contents") ELSE {}) \cup
    Clause(SetOf(e.live) = Live(s), "blocks live exactly while owned") \cup
    Clause(e.bad = 0, "no block is released twice") \cup
    (IF IsDM(st) THEN Clause(\A k \in 1..Len(e.d) : w.d[k] # Unspec => <<e.d[k][1], e.d[k][2]>> = w.d[k] /\ (e.d[k][3] = 1) = (w.d[k][1] = w.d[k][2]) /\ e.d[k][4] = s.h[k].z /\ e.d[k][5] = s.h[k].s /\ (e.d[k][6] = 1) = (s.h[k].z = 0), "dimensions") ELSE {}) \cup
    (IF ref THEN {} ELSE Ret(st, o, e, w))
RWhy(st, e) ==
  IF e.ev = "fini" THEN Clause(e.live = <<>> /\ e.bad = 0, "everything is released at the end") \cup Clause(e.leak = 0, "no bookkeeping is left behind")
  ELSE StepWhy(st, e)
RPost(st, e) == IF e.ev = "fini" THEN st ELSE [st EXCEPT !.i = @ + 1, !.m = TLCEval(After(st, e))]
=============================================================================
