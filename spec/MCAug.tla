------------------------------- MODULE MCAug -------------------------------
(* The linked-list design of the augmented storage refines AugOps: nodes     *)
(* chained per secondary line, value positions and their inverse, rotations  *)
(* inside a line when an index changes its rank.                             *)
EXTENDS AugOps
CONSTANTS NP, NS, MaxOps
VARIABLES a,          \* the abstract storage
          st, ix, vl, \* primary arrays (start per line, indices, values)
          nd, nx, hd, tl, ct, vp, vi,  \* nodes: line, next, heads, tails, counts, value position and inverse
          k
vars == <<a, st, ix, vl, nd, nx, hd, tl, ct, vp, vi, k>>
NIL == -1
C == [st |-> st, ix |-> ix, vl |-> vl, nd |-> nd, nx |-> nx, hd |-> hd, tl |-> tl, ct |-> ct, vp |-> vp, vi |-> vi]
Set(c) == st' = c.st /\ ix' = c.ix /\ vl' = c.vl /\ nd' = c.nd /\ nx' = c.nx /\ hd' = c.hd /\ tl' = c.tl /\ ct' = c.ct /\ vp' = c.vp /\ vi' = c.vi
Ss == 0..(NS - 1)
Init == a = NewAug(NS) /\ st = <<1>> /\ ix = <<>> /\ vl = <<>> /\ nd = <<>> /\ nx = <<>> /\ hd = [j \in Ss |-> NIL] /\ tl = [j \in Ss |-> NIL]
        /\ ct = [j \in Ss |-> 0] /\ vp = <<>> /\ vi = <<>> /\ k = 0
Val(p, j) == 10 * (p + 1) + j
RECURSIVE PushNodes(_, _, _)
PushNodes(c, p, q) ==
  IF q = <<>> THEN c
  ELSE LET j == Head(q) n == Len(c.nd) + 1 IN
       PushNodes([c EXCEPT !.ix = Append(@, j), !.vl = Append(@, Val(p, j)), !.nd = Append(@, p),
                           !.nx = Append(IF c.tl[j] = NIL THEN @ ELSE [@ EXCEPT ![c.tl[j]] = n], NIL),
                           !.vp = Append(@, n), !.vi = Append(@, n), !.tl[j] = n, !.hd[j] = IF @ = NIL THEN n ELSE @, !.ct[j] = @ + 1], p, Tail(q))
Push == \E S \in SUBSET Ss : LET p == Len(a.lines) c == PushNodes(C, p, SortedSeq(S)) IN
          /\ p < NP /\ a' = PushLine(a, [j \in S |-> Val(p, j)]) /\ Set([c EXCEPT !.st = Append(@, Len(c.ix) + 1)])
(* move the element at position s to position t inside the arrays (rotation) *)
MoveTo(q, s, t) == [i \in DOMAIN q |-> IF i = t THEN q[s] ELSE IF s < t /\ i >= s /\ i < t THEN q[i + 1] ELSE IF t < s /\ i > t /\ i <= s THEN q[i - 1] ELSE q[i]]
Relocate(c, s, t, new) ==
  LET vi2 == MoveTo(c.vi, s, t) IN
  [c EXCEPT !.ix = MoveTo([@ EXCEPT ![s] = new], s, t), !.vl = MoveTo(@, s, t), !.vi = vi2, !.vp = [n \in DOMAIN @ |-> CHOOSE pos \in DOMAIN vi2 : vi2[pos] = n]]
(* rank position the index `new` gets when it replaces the one at s in line p *)
Target(c, p, s, new) == LET lo == c.st[p + 1] hi == c.st[p + 2] - 1 less == Cardinality({x \in lo..hi : x # s /\ c.ix[x] < new}) IN lo + less
RECURSIVE Walk(_, _, _, _, _)
Walk(c, i, kk, ni, nk) ==
  IF ni = NIL /\ nk = NIL THEN [c EXCEPT !.hd = [@ EXCEPT ![i] = c.hd[kk], ![kk] = c.hd[i]], !.tl = [@ EXCEPT ![i] = c.tl[kk], ![kk] = c.tl[i]], !.ct = [@ EXCEPT ![i] = c.ct[kk], ![kk] = c.ct[i]]]
  ELSE IF ni # NIL /\ nk # NIL /\ c.nd[ni] = c.nd[nk]
  THEN LET p1 == c.vp[ni] p2 == c.vp[nk] IN
       Walk([c EXCEPT !.vl = [@ EXCEPT ![p1] = c.vl[p2], ![p2] = c.vl[p1]], !.vp = [@ EXCEPT ![c.vi[p1]] = p2, ![c.vi[p2]] = p1], !.vi = [@ EXCEPT ![p1] = c.vi[p2], ![p2] = c.vi[p1]]], i, kk, c.nx[ni], c.nx[nk])
  ELSE IF nk = NIL \/ (ni # NIL /\ c.nd[ni] < c.nd[nk])
  THEN Walk(Relocate(c, c.vp[ni], Target(c, c.nd[ni], c.vp[ni], kk), kk), i, kk, c.nx[ni], nk)
  ELSE Walk(Relocate(c, c.vp[nk], Target(c, c.nd[nk], c.vp[nk], i), i), i, kk, ni, c.nx[nk])
Swap == \E i \in Ss, j \in Ss : i < j /\ a' = Interchange(a, i, j) /\ Set(Walk(C, i, j, hd[i], hd[j]))
RECURSIVE DeferWalk(_, _, _)
DeferWalk(c, to, n) == IF n = NIL THEN c ELSE DeferWalk(Relocate(c, c.vp[n], c.st[c.nd[n] + 2] - 1, to), to, c.nx[n])
DoDefer == \E i \in Ss, j \in Ss : CanDefer(a, i, j) /\ a' = Defer(a, i, j)
             /\ Set(LET c == DeferWalk(C, j, hd[i]) IN [c EXCEPT !.hd = [@ EXCEPT ![i] = c.hd[j], ![j] = c.hd[i]], !.tl = [@ EXCEPT ![i] = c.tl[j], ![j] = c.tl[i]], !.ct = [@ EXCEPT ![i] = c.ct[j], ![j] = c.ct[i]]])
Next == k < MaxOps /\ k' = k + 1 /\ (Push \/ Swap \/ DoDefer)
Spec == Init /\ [][Next]_vars
(* refinement *)
RECURSIVE Chain(_)
Chain(n) == IF n = NIL THEN <<>> ELSE <<<<nd[n], vl[vp[n]]>>>> \o Chain(nx[n])
RECURSIVE LastOf(_)
LastOf(n) == IF n = NIL THEN NIL ELSE IF nx[n] = NIL THEN n ELSE LastOf(nx[n])
PrimaryRefines == \A p \in DOMAIN a.lines : [x \in 1..(st[p + 1] - st[p]) |-> <<ix[st[p] + x - 1], vl[st[p] + x - 1]>>] = PrimaryOf(a.lines[p])
SecondaryRefines == \A j \in Ss : Chain(hd[j]) = SecondaryOf(a, j) /\ tl[j] = LastOf(hd[j]) /\ ct[j] = Len(Chain(hd[j]))
PosInverse == \A n \in DOMAIN vp : vi[vp[n]] = n
(* permutations: both swap forms keep p and its inverse consistent *)
PermLaws == \A p \in {q \in [0..2 -> 0..2] : IsPerm(q)} : \A i \in 0..2, j \in 0..2 :
  /\ IsPerm(SwapP(p, i, j)) /\ InvOf(SwapP(p, i, j)) = SwapP(InvOf(p), p[i], p[j])
  /\ SwapInv(p, i, j) = SwapP(p, InvOf(p)[i], InvOf(p)[j])
ASSUME PermLaws
=============================================================================
