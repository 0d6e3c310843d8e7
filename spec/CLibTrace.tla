------------------------------ MODULE CLibTrace ------------------------------
(* Conformance of recorded C calls with CLibOps.                             *)
EXTENDS TraceLib, CLibOps, Num

LBegin(scn) == [s |-> CInit(scn.nh, scn.no), scn |-> scn]
EpsBits(ty) == IF ty \in {"d", "z"} THEN 64 ELSE 4096   \* relative error limit in units of 2^-24
StatsZero == [i \in 1..13 |-> 0]
NamesOK(e) == e.want = e.got

(* numerical agreement with the C++ preconditioner *)
NumOK(x, c, scn) ==
  Clause(x.reffin = 0 \/ x.fin = 1, "finite where the C++ result is") \cup
  Clause(x.reffin = 0 \/ x.fin = 0 \/ Near(x.err, 0, EpsBits(scn.ty)), "the C++ result") \cup
  (IF Len(x.ir) = 2 THEN Clause(x.ir = x.refir, "iteration count and status of the C++ call") ELSE {})

LWhy(t, e) ==
  LET s == t.s scn == t.scn c == IF Has(e, "c") THEN e.c ELSE [op |-> "?"] IN
  IF c.op = "?" THEN {"unknown event"} ELSE
  LET Sts == Statuses(s, c, scn.good, scn.size) IN
  (IF c.op \in {"mmq", "mmread", "mmvec"} THEN {} ELSE Clause(e.st \in Sts, "documented status of " \o c.op \o " (got " \o ToString(e.st) \o ")")) \cup
  Clause(e.inputs = 1, "the caller's arrays are left alone") \cup
  (CASE c.op = "msize" ->
          LET m == MatOf(s, c.h) IN
          Clause(c.aref[1] = m, "scenario") \cup
          Clause(e.n = (IF m = 0 THEN 0 ELSE scn.size[m]), "matrix size") \cup
          Clause(m = 0 \/ scn.good[m] = 0 \/ e.nnz = e.wantnnz, "matrix nonzeros") \cup Clause(m # 0 \/ e.nnz = 0, "nonzeros of an empty matrix")
     [] c.op = "apply" ->
          IF ~LiveH(s, c.o) THEN Clause(e.same = 1, "output left alone on refusal")
          ELSE LET h == s.hifs[c.o] IN
               (IF e.st \in {NULLOBJ, MISMATCH} THEN Clause(e.same = 1, "output left alone on refusal") ELSE {}) \cup
               (IF e.st = OK /\ h.st # "empty" THEN
                  (IF c.ref # h.key \/ c.aref # <<MatOf(s, WhichA(h, c.mixed)), RowOf(s, WhichA(h, c.mixed))>> THEN {"scenario"} ELSE NumOK(e, c, scn)) ELSE {})
     [] c.op = "stats" ->
          IF ~LiveH(s, c.o) \/ s.hifs[c.o].st = "empty" THEN Clause(e.got = StatsZero, "statistics of nothing are zero")
          ELSE IF s.hifs[c.o].st = "unknown" THEN Clause(e.got = StatsZero \/ e.got = e.want, "statistics after a failed factorization")
          ELSE Clause(c.ref = s.hifs[c.o].key, "scenario") \cup Clause(e.got = e.want, "statistics describe the last factorization")
     [] c.op = "defaults" -> Clause(NamesOK(e), "default parameters") \cup Clause(e.sets = 1, "parameter setters touch their slots only") \cup Clause(e.ver = e.wantver, "version numbers")
     [] c.op = "errmsg" -> Clause((e.first = 1) = s.err, IF s.err THEN "message after an error" ELSE "no message without an error") \cup Clause(e.second = 0, "message is delivered once")
     [] c.op = "mmq" ->
          IF c.file \in {"ok", "trunc"} THEN Clause(e.st = OK, "query of a valid file") \cup Clause(e.got = e.want, "file information")
          ELSE Clause(e.st # OK, "query refuses file: " \o c.file)
     [] c.op = "mmread" ->
          IF c.null = 1 THEN Clause(e.st = NULLOBJ, "null matrix handle") \cup Clause(e.same = 1, "arrays left alone")
          ELSE IF c.file # "ok" THEN Clause(e.st = ERROR, "reading refuses file: " \o c.file) \cup Clause(e.same = 1, "arrays left alone")
          ELSE IF c.dn # 0 THEN Clause(e.st = MISMATCH, "size mismatch") \cup Clause(e.same = 1, "arrays left alone")
          ELSE Clause(e.st = OK, "reading a valid file") \cup Clause(e.match = 1, "matrix read")
     [] c.op = "mmvec" ->
          IF c.file # "ok" THEN Clause(e.st = ERROR, "reading refuses file: " \o c.file) \cup Clause(e.same = 1, "vector left alone")
          ELSE IF c.dn # 0 THEN Clause(e.st = MISMATCH, "size mismatch") \cup Clause(e.same = 1, "vector left alone")
          ELSE Clause(e.st = OK, "reading a valid vector") \cup Clause(e.match = 1, "vector read")
     [] OTHER -> {})

LPost(t, e) ==
  LET s2 == After(t.s, e.c, t.scn.good, t.scn.size) IN
  [t EXCEPT !.s = IF e.st = ERROR THEN [s2 EXCEPT !.err = TRUE] ELSE s2]
=============================================================================
