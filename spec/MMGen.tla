-------------------------------- MODULE MMGen --------------------------------
(* Scenarios for Matrix Market files: MODE "read" (text composed by the      *)
(* driver from the description), "write" (matrix written, checked as text    *)
(* and read back in either layout).                                          *)
EXTENDS MMOps, TLC, Json, IOUtils
VARIABLES phase, scn, len
vars == <<phase, scn, len>>
MODE == IOEnv.MODE
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p

RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN <<x>> \o Shuffle(S \ {x})
Dim == W(<<0, 1, 1, 2, 3, 3, 4, 5, 6, 8, 12>>)
Val == W(<<1, -1, 2, -2, 3, 4, 8, -8, 10, 12, -20, 100, -1000, 12345, 0>>)   \* eighths
Pick(cells) == LET d == W(<<0, 15, 30, 50, 80, 100>>) IN {c \in cells : RE(1..100) <= d}
Cells(sym, m, n) == {c \in (1..m) \X (1..n) : sym = "general" \/ c[1] > c[2] \/ (c[1] = c[2] /\ sym # "skew-symmetric")}
DiagOnly(sym, cells) == IF sym \in {"symmetric", "hermitian"} /\ Coin(25) THEN {c \in cells : c[1] = c[2]} ELSE cells
Im(cx, sym, c) == IF ~cx \/ (sym = "hermitian" /\ c[1] = c[2]) THEN 0 ELSE Val
Style == [case |-> RE(0..2), sep |-> RE(0..2), ncom |-> W(<<0, 0, 1, 2, 5>>), blank |-> W(<<0, 0, 0, 1, 2, 3>>), num |-> RE(0..4), noeol |-> RE({0, 1}), pad |-> RE({0, 1})]
Types(cx) == IF cx THEN W(<<"z", "c">>) ELSE W(<<"d", "d", "s">>)

Read ==
  \E cx \in {Coin(40)} : \E ty \in {Types(cx)} : \E sym \in {W(<<"general", "general", "symmetric", "hermitian", "skew-symmetric">>)} :
  \E m \in {Dim} : \E n \in {IF sym = "general" THEN Dim ELSE m} :
  \E S \in {DiagOnly(sym, Pick(Cells(sym, m, n)))} :
  \E ents \in {LET p == Shuffle(S) IN [k \in 1..Len(p) |-> LET c == p[k] IN <<c[1], c[2], Val, Im(cx, sym, c)>>]} :
  \E bad \in {IF Coin(40) THEN RE(SparseBad) ELSE ""} :
     scn' = [kind |-> "read", ty |-> ty, iw |-> RE(0..2), row |-> RE({0, 1}), field |-> IF cx THEN "complex" ELSE "real", sym |-> sym, m |-> m, n |-> n,
             ents |-> ents, style |-> Style, bad |-> bad, at |-> RE(0..99), reuse |-> RE({0, 1}), static |-> RE({0, 1})]
ReadVec ==
  \E cx \in {Coin(40)} : \E ty \in {Types(cx)} : \E n \in {Dim} : \E nc \in {W(<<1, 1, 1, 2, 3>>)} :
  \E ents \in {[k \in 1..(n * nc) |-> <<Val, IF cx THEN Val ELSE 0>>]} :
  \E bad \in {IF Coin(40) THEN RE(IF n = 0 THEN VecBad \ {"letters"} ELSE VecBad) ELSE ""} :
     scn' = [kind |-> "readv", ty |-> ty, iw |-> 0, field |-> IF cx THEN "complex" ELSE "real", m |-> n, n |-> nc, ents |-> ents, style |-> Style, bad |-> bad,
             at |-> RE(0..99), reuse |-> RE({0, 1}), static |-> RE({0, 1})]
NSpecial == 24
Write ==
  \E ty \in {W(<<"d", "s", "z", "c">>)} : \E m \in {Dim} : \E n \in {W(<<m, Dim>>)} :
  \E S \in {Pick((0..(m - 1)) \X (0..(n - 1)))} :
  \E ents \in {LET p == Shuffle(S) IN [k \in 1..Len(p) |-> <<p[k][1], p[k][2], RE(0..(NSpecial - 1)), IF ty \in {"z", "c"} THEN RE(0..(NSpecial - 1)) ELSE 0>>]} :
     scn' = [kind |-> "write", ty |-> ty, iw |-> RE(0..2), row |-> RE({0, 1}), brow |-> RE({0, 1}), m |-> m, n |-> n, ents |-> ents, sorted |-> RE({0, 1}), over |-> RE({0, 1}), static |-> RE({0, 1})]
WriteVec ==
  \E ty \in {W(<<"d", "s", "z", "c">>)} : \E n \in {Dim} :
     scn' = [kind |-> "writev", ty |-> ty, iw |-> 0, n |-> n, ents |-> [k \in 1..n |-> <<RE(0..(NSpecial - 1)), IF ty \in {"z", "c"} THEN RE(0..(NSpecial - 1)) ELSE 0>>], over |-> RE({0, 1}), static |-> RE({0, 1})]

Init == phase = "pick" /\ scn = <<>> /\ len = 0
Choose == /\ phase = "pick" /\ phase' = "emit" /\ len' = 0
          /\ \E v \in {Coin(25)} : IF MODE = "read" THEN (IF v THEN ReadVec ELSE Read) ELSE (IF v THEN WriteVec ELSE Write)
Emit == /\ phase = "emit" /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>
Next == Choose \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
