------------------------------ MODULE MMTrace ------------------------------
(* Conformance of Matrix Market reading and writing with MMOps.              *)
EXTENDS TraceLib, MMOps, Num
FBegin(scn) == [scn |-> scn]
NegV(v) == <<-v[1], -v[2]>>
ConjV(v) == <<v[1], -v[2]>>

WithVal(ents) == [k \in 1..Len(ents) |-> <<ents[k][1], ents[k][2], <<ents[k][3], ents[k][4]>>>>]
MatOK(d, S, m, n, row, what) ==
  LET P == IF row THEN m ELSE n c == Compressed(S, row, P) IN
  Clause(d.m = m /\ d.n = n, what \o ": sizes") \cup
  Clause(d.start = c.start, what \o ": start positions") \cup
  Clause(d.ind = c.ind, what \o ": indices") \cup
  Clause(d.val = [k \in 1..Len(c.val) |-> c.val[k]], what \o ": values")

FWhy(s, e) ==
  LET c == s.scn IN
  Clause(e.fds = 0, "the file is closed") \cup
  CASE c.kind \in {"read", "readv"} /\ c.bad # "" -> Clause(e.threw = 1, "malformed file is refused: " \o c.bad)
    [] e.threw = 1 -> {"valid file is accepted: " \o e.what}
    [] c.kind = "read" -> MatOK(e.d, Expand(c.sym, WithVal(c.ents), NegV, ConjV), c.m, c.n, c.row = 1, "matrix read")
    [] c.kind = "readv" -> Clause(Len(e.v) = c.m /\ \A k \in 1..c.m : e.v[k] = c.ents[k], "vector read")
    [] c.kind = "write" ->
         LET S == {<<c.ents[k][1], c.ents[k][2], <<c.ents[k][3], c.ents[k][4]>>>> : k \in 1..Len(c.ents)} IN
         Clause(e.banner = <<"%%MatrixMarket", "matrix", "coordinate", IF c.ty \in {"z", "c"} THEN "complex" ELSE "real", "general">>, "banner written") \cup
         Clause(e.size = <<c.m, c.n, Len(c.ents)>>, "size line written") \cup
         Clause(Len(e.lines) = Len(c.ents) /\ {<<e.lines[k][1] - 1, e.lines[k][2] - 1, <<e.lines[k][3], e.lines[k][4]>>>> : k \in 1..Len(e.lines)} = S, "entries written") \cup
         MatOK(e.d, S, c.m, c.n, c.brow = 1, "round trip")
    [] c.kind = "writev" ->
         Clause(e.banner = <<"%%MatrixMarket", "matrix", "array", IF c.ty \in {"z", "c"} THEN "complex" ELSE "real", "general">>, "banner written") \cup
         Clause(e.size = <<c.n, 1>>, "size line written") \cup
         Clause(e.v = c.ents, "vector round trip")
    [] OTHER -> {"unknown event"}
FPost(s, e) == s
=============================================================================
