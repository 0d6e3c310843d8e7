------------------------------- MODULE MCArr -------------------------------
(* The reference-counting design (every handle points to a counter shared by *)
(* the handles of one block; the block is deleted when the counter reaches   *)
(* zero) refines the ownership semantics of ArrOps, on all histories of a    *)
(* few handles, sizes and blocks.                                            *)
EXTENDS ArrOps
CONSTANTS H, MaxN, MaxOps
VARIABLES s, cnt, ref, freed, k
(* ref[k]: the counter handle k points to (0: none); cnt: id -> [c, inv]     *)
vars == <<s, cnt, ref, freed, k>>
Ext == (-1 :> (0 :> 7 @@ 1 :> 8))
Hs == 1..H
Init == s = NewSt(H, Ext) /\ cnt = [j \in Hs |-> [c |-> 1, inv |-> FALSE]] /\ ref = [j \in Hs |-> j] /\ freed = {} /\ k = 0
NewC == Cardinality(DOMAIN cnt) + 1
(* destructor of handle a in state (h, cnt, freed): deletes at zero *)
Dtor(h, c, f, a) ==
  IF ref[a] = 0 THEN [c |-> c, f |-> f]
  ELSE LET c2 == [c EXCEPT ![ref[a]].c = @ - 1] IN
       [c |-> c2, f |-> IF h[a].b > 0 /\ h[a].s = OWN /\ c2[ref[a]].c = 0 /\ ~c2[ref[a]].inv THEN f \cup {h[a].b} ELSE f]
Op(op, a, b, n) == [op |-> op, a |-> a, b |-> b, n |-> n, vs |-> IF op \in {"newv", "push", "set"} THEN <<3>> ELSE <<>>, x |-> 1, how |-> 0, f |-> 0]
Pick == {Op("new", a, 1, n) : a \in Hs, n \in 0..MaxN} \cup {Op(x, a, 1, n) : x \in {"resize"}, a \in Hs, n \in 0..MaxN} \cup
        {Op("wrap", a, 1, n) : a \in Hs, n \in 1..2} \cup {Op(x, a, b, 0) : x \in {"share", "clone", "move", "asg", "masg", "swap"}, a \in Hs, b \in Hs} \cup
        {Op(x, a, 1, 0) : x \in {"default", "steal", "push"}, a \in Hs}
Nb == 1 + Cardinality(s.seen)
Do(o) ==
  LET a == o.a b == o.b t == Apply(s, o, Nb, IF Need(s, o) > 0 THEN Need(s, o) ELSE 0) d == Dtor(s.h, cnt, freed, a) IN
  /\ ~Misuse(s, o) /\ (a = b => o.op \notin {"share", "move", "clone"})
  /\ s' = t
  /\ CASE o.op = "swap" -> ref' = [ref EXCEPT ![a] = ref[b], ![b] = ref[a]] /\ UNCHANGED <<cnt, freed>>
       [] o.op \in {"share", "asg"} /\ a # b /\ ref[b] # 0 -> ref' = [ref EXCEPT ![a] = ref[b]] /\ cnt' = [d.c EXCEPT ![ref[b]].c = @ + 1] /\ freed' = d.f
       [] o.op \in {"share", "asg"} /\ a # b /\ ref[b] = 0 -> ref' = [ref EXCEPT ![a] = NewC] /\ cnt' = d.c @@ (NewC :> [c |-> 1, inv |-> FALSE]) /\ freed' = d.f
       [] o.op \in {"move", "masg"} /\ a # b -> ref' = [ref EXCEPT ![a] = ref[b], ![b] = 0] /\ cnt' = d.c /\ freed' = d.f
       [] o.op \in {"asg", "masg"} /\ a = b -> UNCHANGED <<ref, cnt, freed>>
       [] o.op = "steal" -> UNCHANGED <<ref, freed>> /\ (IF s.h[a].s = OWN THEN cnt' = [cnt EXCEPT ![ref[a]].inv = TRUE] ELSE UNCHANGED cnt)
       [] Allocates(s, o) \/ o.op \in {"default", "wrap"} -> ref' = [ref EXCEPT ![a] = NewC] /\ cnt' = d.c @@ (NewC :> [c |-> 1, inv |-> FALSE]) /\ freed' = d.f
       [] OTHER -> UNCHANGED <<ref, cnt, freed>>
Next == k < MaxOps /\ k' = k + 1 /\ \E o \in Pick : Do(o)
Spec == Init /\ [][Next]_vars
(* freed exactly when no owner is left; nobody refers to freed memory *)
Released == freed = s.seen \ Live(s)
NoDangling == \A a \in Hs : s.h[a].b > 0 => s.h[a].b \notin freed
Counted == \A a \in Hs : ref[a] # 0 => cnt[ref[a]].c = Cardinality({b \in Hs : ref[b] = ref[a]})
Truthful == \A a \in Hs : /\ s.h[a].z <= s.h[a].c /\ (s.h[a].s = UNDEF <=> s.h[a].b = 0) /\ (s.h[a].s = WRAP <=> s.h[a].b < 0)
                          /\ (s.h[a].b # 0 => s.h[a].c <= Cardinality(DOMAIN s.mem[s.h[a].b]))
ExternalKept == -1 \in DOMAIN s.mem
=============================================================================
