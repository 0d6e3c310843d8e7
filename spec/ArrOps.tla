------------------------------- MODULE ArrOps -------------------------------
(* Array handles over memory blocks.  A handle is empty, wraps external      *)
(* memory, or shares the ownership of an allocated block; a block lives      *)
(* until its last owner goes away (or, once stolen, until it is freed).      *)
(* Blocks: 0 none, negative external, positive allocated; ids never recur.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
UNDEF == 0
WRAP == 1
OWN == 2
UNK == -777777     \* memory nobody has written
MinZ(a, b) == IF a < b THEN a ELSE b
Nil == [b |-> 0, z |-> 0, c |-> 0, s |-> UNDEF]
NewSt(H, ext) == [h |-> [k \in 1..H |-> Nil], mem |-> ext, stolen |-> {}, seen |-> {}]
Owners(h, b) == {k \in DOMAIN h : h[k].b = b /\ h[k].s = OWN}
Live(s) == {s.h[k].b : k \in {j \in DOMAIN s.h : s.h[j].s = OWN}} \cup s.stolen
Fresh(n) == [i \in 0..(n - 1) |-> UNK]
Take(f, n) == [i \in 0..(n - 1) |-> f[i]]
Content(s, k) == [i \in 0..(s.h[k].z - 1) |-> s.mem[s.h[k].b][i]]
(* contents of c cells: the first ones given, the others unwritten *)
Pad(f, n, c) == [i \in 0..(c - 1) |-> IF i < n THEN f[i] ELSE UNK]
OfSeq(q) == [i \in 0..(Len(q) - 1) |-> q[i + 1]]
(* the handle a takes a new block nb of capacity c with the given contents *)
Alloc(s, a, nb, n, c, f) == [s EXCEPT !.h[a] = [b |-> nb, z |-> n, c |-> c, s |-> OWN], !.mem = (nb :> f) @@ @, !.seen = @ \cup {nb}]
Become(s, a, hd) == [s EXCEPT !.h[a] = hd]
WriteFrom(s, a, i0, f, n) == [s EXCEPT !.mem[s.h[a].b] = [i \in DOMAIN @ |-> IF i >= i0 /\ i < i0 + n THEN f[i - i0] ELSE @[i]]]
(* growth to size n: in place while the capacity suffices *)
Grows(s, a, n) == n > s.h[a].c
Resize(s, a, n, presv, nb, nc) ==
  IF ~Grows(s, a, n) THEN [s EXCEPT !.h[a].z = n]
  ELSE Alloc(s, a, nb, n, nc, Pad(IF presv THEN Content(s, a) ELSE <<>>, IF presv THEN s.h[a].z ELSE 0, nc))
Reserve(s, a, n, nb, nc) ==
  IF ~Grows(s, a, n) THEN s ELSE Alloc(s, a, nb, s.h[a].z, nc, Pad(Content(s, a), s.h[a].z, nc))
(* does the operation need a new block? *)
Allocates(s, o) ==
  CASE o.op \in {"new", "newv", "copyext", "conv", "clone"} -> TRUE
    [] o.op \in {"resize", "reserve"} -> Grows(s, o.a, o.n)
    [] o.op \in {"push", "pushr"} -> Grows(s, o.a, s.h[o.a].z + Len(o.vs))
    [] OTHER -> FALSE
Need(s, o) == IF o.op \in {"push", "pushr"} THEN s.h[o.a].z + Len(o.vs) ELSE IF o.op \in {"conv", "clone"} THEN s.h[o.b].z ELSE o.n
(* a growing handle that wraps external memory is a misuse *)
Misuse(s, o) == o.op \in {"resize", "reserve", "push", "pushr"} /\ s.h[o.a].s = WRAP
(* o applied with new block nb of capacity nc (if any); fails when the       *)
(* allocation does: the handle is then empty                                 *)
Apply(s, o, nb, nc) ==
  LET a == o.a b == o.b IN
  IF o.f = 1 /\ Allocates(s, o) THEN Become(s, a, Nil)
  ELSE CASE o.op = "default" -> Become(s, a, Nil)
    [] o.op = "new" -> Alloc(s, a, nb, o.n, nc, Fresh(nc))
    [] o.op = "newv" -> Alloc(s, a, nb, o.n, nc, [i \in 0..(nc - 1) |-> IF i < o.n THEN o.vs[1] ELSE UNK])
    [] o.op = "copyext" -> Alloc(s, a, nb, o.n, nc, Pad(s.mem[-o.x], o.n, nc))
    [] o.op = "wrap" -> Become(s, a, [b |-> -o.x, z |-> o.n, c |-> o.n, s |-> WRAP])
    [] o.op \in {"conv", "clone"} -> Alloc(s, a, nb, s.h[b].z, nc, Pad(Content(s, b), s.h[b].z, nc))
    [] o.op \in {"share", "asg"} -> Become(s, a, s.h[b])
    [] o.op \in {"move", "masg"} -> IF a = b THEN s ELSE [s EXCEPT !.h = [@ EXCEPT ![a] = s.h[b], ![b] = Nil]]
    [] o.op = "swap" -> [s EXCEPT !.h = [@ EXCEPT ![a] = s.h[b], ![b] = s.h[a]]]
    [] o.op = "set" -> WriteFrom(s, a, o.n, OfSeq(o.vs), 1)
    [] o.op = "setext" -> [s EXCEPT !.mem[-o.x] = [@ EXCEPT ![o.n] = o.vs[1]]]
    [] o.op = "resize" -> Resize(s, a, o.n, o.how = 0, nb, nc)
    [] o.op = "reserve" -> Reserve(s, a, o.n, nb, nc)
    [] o.op \in {"push", "pushr"} -> LET w == Resize(s, a, s.h[a].z + Len(o.vs), TRUE, nb, nc) IN
         IF o.vs = <<>> THEN w ELSE WriteFrom(w, a, s.h[a].z, OfSeq(o.vs), Len(o.vs))
    [] o.op = "steal" -> IF s.h[a].s # OWN THEN s ELSE [s EXCEPT !.h[a] = Nil, !.stolen = @ \cup {s.h[a].b}]
    [] OTHER -> s
=============================================================================
