------------------------------- MODULE DMOps -------------------------------
(* Column-major dense matrices on top of ArrOps: d[k] are the dimensions of  *)
(* matrix k (<<-1,-1>>: unspecified, after it was moved from).               *)
EXTENDS ArrOps
Unspec == <<-1, -1>>
AOp(op, a, b, n, vs, x) == [op |-> op, a |-> a, b |-> b, n |-> n, vs |-> vs, x |-> x, how |-> 0, f |-> 0]
(* element (i, j) of a matrix with nr rows is cell i + j nr *)
Cell(nr, i, j) == i + j * nr
Dense(o) == [c \in 0..(o.n1 * o.n2 - 1) |-> LET S == {k \in 1..Len(o.ents) : Cell(o.n1, o.ents[k][1], o.ents[k][2]) = c} IN
              IF S = {} THEN 0 ELSE o.ents[CHOOSE k \in S : TRUE][3]]
(* the array operation behind a matrix operation *)
Under(m, o) ==
  CASE o.op = "square" -> AOp("new", o.a, o.b, o.n1 * o.n1, <<>>, o.x)
    [] o.op = "new" -> AOp("new", o.a, o.b, o.n1 * o.n2, <<>>, o.x)
    [] o.op = "newv" -> AOp("newv", o.a, o.b, o.n1 * o.n2, <<o.v>>, o.x)
    [] o.op \in {"copyext", "wrap"} -> AOp(o.op, o.a, o.b, o.n1 * o.n2, <<>>, o.x)
    [] o.op \in {"default", "conv", "share", "clone", "move", "asg", "masg"} -> AOp(o.op, o.a, o.b, 0, <<>>, o.x)
    [] o.op = "resize" -> AOp("resize", o.a, o.b, o.n1 * o.n2, <<>>, o.x)
    [] o.op \in {"crs", "ccs"} -> AOp("resize", o.a, o.b, o.n1 * o.n2, <<>>, o.x)
    [] o.op = "set" -> AOp("set", o.a, o.b, Cell(m.d[o.a][1], o.n1, o.n2), <<o.v>>, o.x)
    [] OTHER -> AOp("none", o.a, o.b, 0, <<>>, o.x)
(* from_sparse builds a new object *)
Base(m, o) == IF o.op \in {"crs", "ccs"} /\ o.how = 1 THEN Become(m.s, o.a, Nil) ELSE m.s
DNewSt(H, ext) == [s |-> NewSt(H, ext), d |-> [k \in 1..H |-> <<0, 0>>]]
DApply(m, o, nb, nc) ==
  LET t == Apply(Base(m, o), Under(m, o), nb, nc)
      s2 == IF o.op \in {"crs", "ccs"} /\ o.n1 * o.n2 > 0 THEN WriteFrom(t, o.a, 0, Dense(o), o.n1 * o.n2) ELSE t
      d2 == CASE o.op = "default" -> [m.d EXCEPT ![o.a] = <<0, 0>>]
              [] o.op = "square" -> [m.d EXCEPT ![o.a] = <<o.n1, o.n1>>]
              [] o.op \in {"new", "newv", "copyext", "wrap", "resize", "crs", "ccs"} -> [m.d EXCEPT ![o.a] = <<o.n1, o.n2>>]
              [] o.op \in {"conv", "share", "clone", "asg"} -> [m.d EXCEPT ![o.a] = m.d[o.b]]
              [] o.op \in {"move", "masg"} -> IF o.a = o.b THEN m.d ELSE [m.d EXCEPT ![o.a] = m.d[o.b], ![o.b] = Unspec]
              [] OTHER -> m.d IN
  [s |-> s2, d |-> d2]
Row(m, k, i) == [j \in 1..m.d[k][2] |-> m.s.mem[m.s.h[k].b][Cell(m.d[k][1], i, j - 1)]]
Col(m, k, j) == [i \in 1..m.d[k][1] |-> m.s.mem[m.s.h[k].b][Cell(m.d[k][1], i - 1, j)]]
=============================================================================
