------------------------------ MODULE AugTrace ------------------------------
(* Conformance of recorded augmented-storage and permutation histories.      *)
EXTENDS TraceLib, AugOps, Num
UBegin(scn) == [s |-> scn, a |-> IF scn.kind = "aug" THEN NewAug(scn.ns) ELSE Eye(scn.n), i |-> 1]
Op(st) == st.s.ops[st.i]
LineOf(es) == [j \in {es[x][1] : x \in 1..Len(es)} |-> es[CHOOSE x \in 1..Len(es) : es[x][1] = j][2]]
After(st) ==
  LET o == Op(st) a == st.a IN
  CASE o.op = "build" -> [a EXCEPT !.lines = [p \in 1..Len(o.lines) |-> LineOf(o.lines[p])]]
    [] o.op \in {"push", "push2"} -> PushLine(a, LineOf(o.ents))
    [] o.op = "swap" -> Interchange(a, o.i, o.k)
    [] o.op = "defer" -> Defer(a, o.i, o.k)
    [] OTHER -> a
Flat(q) == [x \in 1..Len(q) |-> <<q[x][1], q[x][2][1], q[x][2][2]>>]
AugWhy(st, e) ==
  LET w == After(st) IN
  Clause(e.ev = Op(st).op, "order of events") \cup
  Clause(Len(e.pri) = Len(w.lines) /\ \A p \in 1..Len(w.lines) : e.pri[p] = Flat(PrimaryOf(w.lines[p])), "lines hold exactly the entries, sorted") \cup
  Clause(\A j \in 1..w.ns : e.sec[j] = Flat(SecondaryOf(w, j - 1)), "the linked structure enumerates exactly the entries of each line") \cup
  Clause(\A j \in 1..w.ns : e.cnt[j] = Len(SecondaryOf(w, j - 1)), "counts per line") \cup
  Clause(\A j \in 1..w.ns : e.tail[j] = 1, "tail of each line")
OfSeq(q) == [i \in 0..(Len(q) - 1) |-> q[i + 1]]
AfterP(st) ==
  LET o == Op(st) p == st.a IN
  CASE o.op = "eye" -> Eye(Cardinality(DOMAIN p))
    [] o.op = "resize" -> Eye(o.k)
    [] o.op = "swap" -> SwapP(p, o.i, o.k)
    [] o.op = "swapinv" -> SwapInv(p, o.i, o.k)
    [] o.op \in {"build", "from"} -> OfSeq(o.p)
    [] OTHER -> p
PermWhy(st, e) ==
  LET p == AfterP(st) n == Cardinality(DOMAIN p) IN
  Clause(e.ev = Op(st).op, "order of events") \cup
  Clause(e.n = n /\ e.ni = n, "sizes") \cup
  (IF e.n # n THEN {} ELSE
    Clause(OfSeq(e.p) = p, "permutation") \cup Clause(OfSeq(e.pi) = InvOf(p), "inverse") \cup Clause(OfSeq(e.s) = p, "one-way permutation") \cup
    Clause((e.eye = 1) = (p = Eye(n)) /\ (e.seye = 1) = (p = Eye(n)), "identity test"))
UWhy(st, e) == IF e.ev = "noop" THEN {} ELSE IF st.s.kind = "aug" THEN AugWhy(st, e) ELSE PermWhy(st, e)
UPost(st, e) == [st EXCEPT !.i = @ + 1, !.a = TLCEval(IF st.s.kind = "aug" THEN After(st) ELSE AfterP(st))]
=============================================================================
