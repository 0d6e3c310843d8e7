------------------------------- MODULE MCCLib -------------------------------
(* All histories of C calls over two matrix handles and one preconditioner:  *)
(* matrix 1 and 2 are well-formed (sizes 2 and 3), matrix 3 is ill-formed.   *)
EXTENDS CLibOps
VARIABLES st, last
Goods == <<1, 1, 0>>
Szs == <<2, 3, 2>>
H2 == 0..2
ConstOK(s, h) == ~LiveM(s, h) \/ s.mats[h].m = 0 \/ Goods[s.mats[h].m] = 1
Calls(s) ==
  {c \in [op : {"mat"}, h : 1..2, m : 0..3, row : {0}] : ~LiveM(s, c.h)}
  \cup {c \in [op : {"mdestroy"}, h : 1..2] : LiveM(s, c.h) /\ ~InUse(s, c.h)}
  \cup {c \in [op : {"wrap"}, h : H2, m : 0..3] : InUse(s, c.h) => c.m # 3}
  \cup {c \in [op : {"create"}, o : {1}, A : H2, S : H2, k : {0}] : ~LiveH(s, 1) /\ (ConstOK(s, c.A) \/ ~LiveM(s, c.S))}
  \cup {c \in [op : {"setup"}, o : {1}, A : H2, S : H2, k : {0}] : ConstOK(s, c.A) \/ ~LiveM(s, c.S)}
  \cup {c \in [op : {"update"}, o : {1}, A : H2, mixed : {0, 1}] : ConstOK(s, c.A) /\ ~(LiveH(s, 1) /\ s.hifs[1].st = "unknown")}
  \cup {c \in [op : {"refac"}, o : {1}, S : H2, k : {0}] : TRUE}
  \cup {c \in [op : {"apply"}, o : {1}, what : {0, 2}, N : {1, 2}, mixed : {0, 1}] : TRUE}
  \cup {[op |-> "errmsg"]}
  \cup {c \in [op : {"destroy"}, o : {1}] : TRUE}
Init == st = CInit(2, 1) /\ last = [op |-> "none", sts |-> {OK}, refused |-> FALSE]
Do(c) == LET e == Effect(st, c, Goods, Szs) IN
         /\ st' = e[2] /\ last' = [op |-> c.op, sts |-> e[1], refused |-> e[1] \cap {OK} = {} /\ e[1] \cap {ERROR} = {} /\ e[2] # st]
Mk == \E c \in Calls(st) : c.op \in {"mat", "mdestroy", "wrap"} /\ Do(c)
Fac == \E c \in Calls(st) : c.op \in {"create", "setup", "refac", "destroy"} /\ Do(c)
Use == \E c \in Calls(st) : c.op \in {"update", "apply", "errmsg"} /\ Do(c)
Next == Mk \/ Fac \/ Use
Spec == Init /\ [][Next]_<<st, last>>
h == st.hifs[1]
Defined == last.sts # {}
(* a refusal with a status of its own never changes anything *)
RefusalChangesNothing == ~last.refused
(* ready means: factorized from a well-formed matrix of that size *)
ReadyMeans == h.live /\ h.st \in {"ready", "unknown"} => h.key # <<>> /\ Goods[h.key[1]] = 1 /\ h.n = Szs[h.key[1]]
(* the refinement matrix is a live handle *)
NoDangling == h.live => (h.A = 0 \/ LiveM(st, h.A)) /\ (h.Ad = 0 \/ LiveM(st, h.Ad))
RefineGood == h.live => ConstOK(st, h.A) /\ ConstOK(st, h.Ad)
=============================================================================
