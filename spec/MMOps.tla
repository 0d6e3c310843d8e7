------------------------------- MODULE MMOps -------------------------------
(* What a Matrix Market file means, and what reading and writing one yields. *)
(* An entry of a file is <<row, column, value>> with 1-based positions; the  *)
(* value is abstract (any term the caller uses), Neg/Conj act on it.         *)
EXTENDS Integers, Sequences, FiniteSets

(* the entries (0-based) a file of the given symmetry stands for *)
ExpandOne(sym, e, Neg(_), Conj(_)) ==
  LET a == <<e[1] - 1, e[2] - 1, e[3]>> IN
  IF sym = "general" \/ e[1] = e[2] THEN {a}
  ELSE {a, <<e[2] - 1, e[1] - 1, CASE sym = "symmetric" -> e[3] [] sym = "hermitian" -> Conj(e[3]) [] OTHER -> Neg(e[3])>>}
Expand(sym, ents, Neg(_), Conj(_)) == UNION {ExpandOne(sym, ents[i], Neg, Conj) : i \in 1..Len(ents)}

(* compressed arrays of a set of 0-based entries: the outer index is the row *)
(* (row-wise storage) or the column; inner indices increase in every line    *)
OuterOf(x, row) == IF row THEN x[1] ELSE x[2]
InnerOf(x, row) == IF row THEN x[2] ELSE x[1]
RECURSIVE SortInner(_, _)
SortInner(S, row) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE y \in S : \A z \in S : InnerOf(y, row) <= InnerOf(z, row) IN <<x>> \o SortInner(S \ {x}, row)
LineOf(S, row, i) == SortInner({x \in S : OuterOf(x, row) = i}, row)
RECURSIVE Lines(_, _, _, _)
Lines(S, row, i, n) == IF i >= n THEN <<>> ELSE LineOf(S, row, i) \o Lines(S, row, i + 1, n)
Starts(S, row, n) == [i \in 1..(n + 1) |-> Cardinality({x \in S : OuterOf(x, row) < i - 1})]
Compressed(S, row, n) == LET L == Lines(S, row, 0, n) IN
  [start |-> Starts(S, row, n), ind |-> [k \in 1..Len(L) |-> InnerOf(L[k], row)], val |-> [k \in 1..Len(L) |-> L[k][3]]]

(* malformed files: every kind is refused *)
SparseBad == {"nofile", "empty", "banner", "object", "format", "array", "pattern", "integer", "scheme", "tokens", "longbanner", "nosize", "badsize", "shortsize",
              "negsize", "negnnz", "trunc", "half", "letters", "rowbig", "colbig", "zerorow", "zerocol", "negrow", "typemis"}
VecBad == {"nofile", "empty", "banner", "object", "format", "coord", "integer", "scheme", "tokens", "longbanner", "nosize", "badsize", "negsize", "trunc", "letters", "typemis"}
=============================================================================
