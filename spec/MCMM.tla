-------------------------------- MODULE MCMM --------------------------------
(* Reading a coordinate file step by step: entries are scanned in file order *)
(* and mirrored, counted per line, positions accumulated, entries scattered, *)
(* the start array shifted back and unsorted lines sorted.  Checked for every*)
(* file with distinct positions of a bounded shape, both layouts, against    *)
(* the matrix the file stands for.                                           *)
EXTENDS MMOps, TLC
CONSTANTS MaxM, MaxN, MaxNnz
VARIABLES file, pc, i, coo, start, ind, val
vars == <<file, pc, i, coo, start, ind, val>>

Neg(v) == [v EXCEPT !.s = -v.s]
Conj(v) == [v EXCEPT !.c = -v.c]
Syms == {"general", "symmetric", "hermitian", "skew-symmetric"}
Cells(sym, m, n) == {c \in (1..m) \X (1..n) : sym = "general" \/ c[1] > c[2] \/ (c[1] = c[2] /\ sym # "skew-symmetric")}
Inj(S, k) == {f \in [1..k -> S] : \A a, b \in 1..k : a # b => f[a] # f[b]}
Shapes == {s \in [m : 0..MaxM, n : 0..MaxN, sym : Syms] : s.sym = "general" \/ s.m = s.n}

P == IF file.row THEN file.m ELSE file.n       \* number of lines
O(x) == OuterOf(x, file.row)
I(x) == InnerOf(x, file.row)

Init == /\ \E s \in Shapes : \E k \in 0..MaxNnz : \E f \in Inj(Cells(s.sym, s.m, s.n), k) : \E r \in BOOLEAN :
             file = [sym |-> s.sym, m |-> s.m, n |-> s.n, row |-> r, ents |-> [j \in 1..k |-> <<f[j][1], f[j][2], [id |-> j, s |-> 1, c |-> 1]>>]]
        /\ pc = "scan" /\ i = 1 /\ coo = <<>> /\ start = <<>> /\ ind = <<>> /\ val = <<>>
Scan == /\ pc = "scan"
        /\ IF i > Len(file.ents) THEN pc' = "count" /\ i' = 1 /\ start' = [k \in 1..(P + 1) |-> 0] /\ UNCHANGED coo
           ELSE LET e == file.ents[i] a == <<e[1] - 1, e[2] - 1, e[3]>> IN
                /\ coo' = IF file.sym = "general" \/ e[1] = e[2] THEN Append(coo, a)
                          ELSE coo \o <<a, <<a[2], a[1], CASE file.sym = "symmetric" -> e[3] [] file.sym = "hermitian" -> Conj(e[3]) [] OTHER -> Neg(e[3])>>>>
                /\ i' = i + 1 /\ UNCHANGED <<pc, start>>
        /\ UNCHANGED <<file, ind, val>>
Count == /\ pc = "count"
         /\ IF i > Len(coo) THEN pc' = "accum" /\ i' = 1 /\ UNCHANGED start
            ELSE start' = [start EXCEPT ![O(coo[i]) + 2] = @ + 1] /\ i' = i + 1 /\ UNCHANGED pc
         /\ UNCHANGED <<file, coo, ind, val>>
Accum == /\ pc = "accum"
         /\ IF i > P THEN pc' = "scatter" /\ i' = 1 /\ ind' = [k \in 1..Len(coo) |-> -1] /\ val' = [k \in 1..Len(coo) |-> [id |-> 0, s |-> 0, c |-> 0]] /\ UNCHANGED start
            ELSE start' = [start EXCEPT ![i + 1] = @ + start[i]] /\ i' = i + 1 /\ UNCHANGED <<pc, ind, val>>
         /\ UNCHANGED <<file, coo>>
Scatter == /\ pc = "scatter"
           /\ IF i > Len(coo) THEN pc' = "shift" /\ i' = P + 1 /\ UNCHANGED <<start, ind, val>>
              ELSE LET o == O(coo[i]) + 1 p == start[o] + 1 IN
                   ind' = [ind EXCEPT ![p] = I(coo[i])] /\ val' = [val EXCEPT ![p] = coo[i][3]] /\ start' = [start EXCEPT ![o] = @ + 1] /\ i' = i + 1 /\ UNCHANGED pc
           /\ UNCHANGED <<file, coo>>
Shift == /\ pc = "shift"
         /\ IF i = 1 THEN pc' = "sort" /\ start' = [start EXCEPT ![1] = 0] /\ i' = 1
            ELSE start' = [start EXCEPT ![i] = start[i - 1]] /\ i' = i - 1 /\ UNCHANGED pc
         /\ UNCHANGED <<file, coo, ind, val>>
Sort == /\ pc = "sort"
        /\ IF i > P THEN pc' = "done" /\ UNCHANGED <<ind, val, i>>
           ELSE LET lo == start[i] + 1 hi == start[i + 1]
                    L == SortInner({IF file.row THEN <<0, ind[k], val[k]>> ELSE <<ind[k], 0, val[k]>> : k \in lo..hi}, file.row) IN
                /\ ind' = [k \in 1..Len(ind) |-> IF k \in lo..hi THEN I(L[k - lo + 1]) ELSE ind[k]]
                /\ val' = [k \in 1..Len(val) |-> IF k \in lo..hi THEN L[k - lo + 1][3] ELSE val[k]]
                /\ i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<file, coo, start>>
Next == Scan \/ Count \/ Accum \/ Scatter \/ Shift \/ Sort
Spec == Init /\ [][Next]_vars
InBounds == pc \in {"count", "accum", "scatter"} => Len(start) = P + 1
Exact == pc = "done" => LET c == Compressed(Expand(file.sym, file.ents, Neg, Conj), file.row, P) IN
           start = c.start /\ ind = c.ind /\ val = c.val
(* the expansion has the symmetry the banner promises *)
Symmetric == pc = "done" /\ file.sym # "general" =>
  LET S == Expand(file.sym, file.ents, Neg, Conj) IN
  \A x \in S : x[1] # x[2] => \E y \in S : y[1] = x[2] /\ y[2] = x[1] /\
     (CASE file.sym = "symmetric" -> y[3] = x[3] [] file.sym = "hermitian" -> y[3] = Conj(x[3]) [] OTHER -> y[3] = Neg(x[3]))
=============================================================================
