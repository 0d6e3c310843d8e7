------------------------------- MODULE CSGen -------------------------------
(* Scenarios for the compressed-storage driver.  MODE "enum": TLC enumerates *)
(* every pattern of every shape up to EM x EN (each one scenario with a      *)
(* fixed list of operations); MODE "walk"/"tri": random behaviours.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES phase, scn, len
vars == <<phase, scn, len>>
MODE == IOEnv.MODE
Thorough == IOEnv.GEN_TIER = "thorough"
RE(S) == RandomElement(IF len < 0 THEN {0} ELSE S)
W(s) == s[RE(1..Len(s))]
Coin(p) == RE(1..100) <= p

Cplx(ty) == ty \in {"z", "c"}
RECURSIVE PermOf(_)
PermOf(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN <<x>> \o PermOf(S \ {x})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Perm(n) == LET p == PermOf(0..(n - 1)) IN p
Vec(n, c) == [i \in 1..n |-> <<RE(-4..4), IF c THEN RE(-3..3) ELSE 0>>]
IVec(n) == [i \in 1..n |-> RE({-3, -2, -1, 1, 2, 3})]

(* --------------------------------------------------------------- walks *)
Dim == W(<<0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7>>)
EntAt(c, pure, cx) == LET z == Coin(8) a == RE({-9, -5, -4, -3, -2, -1, 1, 2, 3, 4, 6, 8}) b == IF cx THEN RE(-3..3) ELSE 0 IN
  IF z THEN <<c[1], c[2], 0, 0>> ELSE IF pure /\ cx /\ Coin(40) THEN <<c[1], c[2], 0, a>> ELSE <<c[1], c[2], a, IF pure THEN 0 ELSE b>>
DrawPos(cells) == LET d == W(<<0, 20, 40, 60, 80, 100>>) IN {c \in cells : RE(1..100) <= d}
WalkSkel ==
  \E ty \in {W(<<"d", "d", "s", "z", "z", "c", "l">>)} : \E m \in {Dim} : \E n \in {W(<<m, Dim, Dim>>)} : \E pure \in {Coin(50)} :
  \E S \in {DrawPos((0..(m - 1)) \X (0..(n - 1)))} : \E e \in {{EntAt(c, pure, Cplx(ty)) : c \in S}} :
       scn' = [ty |-> ty, m |-> m, n |-> n, row |-> RE({0, 1}), ent |-> SeqOf(e), pure |-> IF pure THEN 1 ELSE 0,
               build |-> W(<<"copy", "wrap", "push", "coo">>), seed |-> RE(1..9999), ops |-> <<>>]
TriSkel ==
  \E ty \in {W(<<"d", "s", "z", "c", "l">>)} : \E n \in {W(<<1, 1, 2, 3, 4, 5, 6>>)} : \E low \in {Coin(50)} :
  \E S \in {DrawPos({c \in (0..(n - 1)) \X (0..(n - 1)) : IF low THEN c[1] > c[2] ELSE c[1] < c[2]})} :
     \E e \in {{<<c[1], c[2], RE(-2..2), IF Cplx(ty) THEN RE(-1..1) ELSE 0>> : c \in S}} :
       scn' = [ty |-> ty, m |-> n, n |-> n, row |-> RE({0, 1}), ent |-> SeqOf(e), pure |-> 0, low |-> IF low THEN "l" ELSE "u",
               build |-> W(<<"copy", "wrap", "push", "coo">>), seed |-> RE(1..9999), ops |-> <<>>]
Min2(a, b) == IF a < b THEN a ELSE b
CorKinds == <<"none", "swap", "dup", "big", "big1", "neg", "ptr0", "ptrdec", "nnzbig", "short">>
WalkOpC(c, tr, k) ==
  LET m == scn.m n == scn.n cx == Cplx(scn.ty) IN
  CASE c <= 4 -> [op |-> "mul", tran |-> tr, x |-> Vec(IF tr = 1 THEN m ELSE n, cx), form |-> W(<<"arr", "low", "range", "mt", "mtlow", "helper", "mixed">>), nt |-> RE(0..4)]
    [] c <= 8 -> [op |-> "mulm", tran |-> tr, xs |-> [i \in 1..k |-> Vec(IF tr = 1 THEN m ELSE n, cx)], form |-> W(<<"arr", "mt", "range", "mtlow">>), nt |-> RE(0..4)]
    [] c <= 10 -> [op |-> "scale", s |-> IVec(m), t |-> IVec(n)]
    [] c <= 12 -> [op |-> "conv"]
    [] c = 13 -> [op |-> "export"]
    [] c <= 16 -> [op |-> "split", k |-> RE(0..(IF scn.crow = 1 THEN n ELSE m)), st |-> RE({0, 1}), dual |-> RE({0, 1})]
    [] c <= 18 -> [op |-> "perm", p |-> Perm(m), q |-> Perm(n), lead |-> RE(0..Min2(m, n)), so |-> W(<<0, 0, 1>>)]
    [] c <= 20 -> [op |-> "lead", k |-> RE(0..Min2(m, n))]
    [] c = 21 -> IF scn.pure = 1 THEN [op |-> "prune", eps |-> W(<<<<0, 1>>, <<-1, 1>>, <<1, 4>>, <<1, 2>>, <<1, 2>>, <<1, 1>>>>), shrink |-> RE({0, 1})]
                 ELSE [op |-> "copy", s |-> IVec(m)]
    [] c = 22 -> [op |-> "copy", s |-> IVec(m)]
    [] OTHER -> [op |-> "valid", kind |-> W(CorKinds), at |-> RE(0..9)]
TriOpC(k) ==
  [op |-> "tri", kind |-> scn.low, tran |-> RE({0, 1}), k |-> k, bs |-> [i \in 1..(IF k = 0 THEN 1 ELSE k) |-> Vec(scn.n, Cplx(scn.ty))], form |-> RE({0, 1})]
MaxLen == IF MODE = "tri" THEN 6 ELSE 10
Pick == /\ phase = "pick" /\ MODE # "enum"
        /\ phase' = "ops" /\ len' = 0
        /\ IF MODE = "tri" THEN TriSkel ELSE WalkSkel
Step == /\ phase = "ops" /\ len < MaxLen
        /\ \E c \in {RE(1..24)} : \E tr \in {RE({0, 1})} : \E k \in {RE(1..3)} : \E z \in {RE(0..3)} :
           \E o \in {IF MODE = "tri" THEN (IF (len % 3) = 2 THEN [op |-> "conv"] ELSE TriOpC(z)) ELSE WalkOpC(c, tr, k)} :
             scn' = [[scn EXCEPT !.ops = Append(@, o)] EXCEPT !.crow = IF o.op = "conv" THEN 1 - @ ELSE @]
        /\ len' = len + 1 /\ UNCHANGED phase
Crow == /\ phase = "ops" /\ "crow" \notin DOMAIN scn
        /\ scn' = scn @@ [crow |-> scn.row] /\ UNCHANGED <<phase, len>>
Emit == /\ phase = "ops" /\ len = MaxLen /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>

(* --------------------------------------------------------- enumeration *)
EMax == IF Thorough THEN {<<3, 4>>, <<4, 3>>} ELSE {}
Shapes == ((0..3) \X (0..3)) \cup EMax
EVal(c) == <<c[1], c[2], (3 * c[1] + c[2] + 1) * (IF (c[1] + c[2]) % 2 = 0 THEN 1 ELSE -1), 0>>
EX(n) == [i \in 1..n |-> <<i * i - 2, 0>>]
EOps(m, n, row, h) ==
  LET w == IF row = 1 THEN n ELSE m mi == Min2(m, n)
      rot == [i \in 1..m |-> i % m] rev == [j \in 1..n |-> n - j] IN
  <<[op |-> "mul", tran |-> 0, x |-> EX(n), form |-> "arr", nt |-> 1], [op |-> "mul", tran |-> 1, x |-> EX(m), form |-> "arr", nt |-> 1],
    [op |-> "mulm", tran |-> 0, xs |-> <<EX(n), EX(n)>>, form |-> "arr", nt |-> 1], [op |-> "mulm", tran |-> 1, xs |-> <<EX(m), EX(m)>>, form |-> "arr", nt |-> 1],
    [op |-> "perm", p |-> rot, q |-> rev, lead |-> 0, so |-> 0], [op |-> "perm", p |-> rot, q |-> rev, lead |-> h % (mi + 1), so |-> 0],
    [op |-> "lead", k |-> h % (mi + 1)]>>
  \o [k \in 1..(w + 1) |-> [op |-> "split", k |-> k - 1, st |-> (k + h) % 2, dual |-> h % 2]]
  \o <<[op |-> "conv"], [op |-> "prune", eps |-> <<1, 2>>, shrink |-> h % 2], [op |-> "mul", tran |-> 0, x |-> EX(n), form |-> "arr", nt |-> 1],
       [op |-> "conv"], [op |-> "valid", kind |-> CorKinds[1 + (h % Len(CorKinds))], at |-> h], [op |-> "dump"]>>
Tys == <<"d", "l", "s", "z", "c">>
Builds == <<"copy", "wrap", "push", "coo">>
EnumInit ==
  \E sh \in Shapes : \E S \in SUBSET ((0..(sh[1] - 1)) \X (0..(sh[2] - 1))) :
    LET h == Cardinality(S) * 7 + 3 * Cardinality({c \in S : c[1] = c[2]}) + Cardinality({c \in S : c[1] > c[2]}) row == h % 2 IN
    scn = [ty |-> Tys[1 + (h % 5)], m |-> sh[1], n |-> sh[2], row |-> row, ent |-> SeqOf({EVal(c) : c \in S}), pure |-> 1,
           build |-> Builds[1 + (h % 4)], seed |-> h, ops |-> EOps(sh[1], sh[2], row, h), crow |-> row]
EnumEmit == /\ phase = "enum" /\ PrintT("SCN " \o ToJson(scn)) /\ phase' = "done" /\ UNCHANGED <<scn, len>>

Init == /\ len = 0 /\ (IF MODE = "enum" THEN phase = "enum" /\ EnumInit ELSE phase = "pick" /\ scn = [ops |-> <<>>])
Next == Pick \/ (IF phase = "ops" /\ "crow" \notin DOMAIN scn THEN Crow ELSE Step \/ Emit) \/ EnumEmit
Spec == Init /\ [][Next]_vars
=============================================================================
