------------------------------- MODULE HIFObj -------------------------------
(* The preconditioner object as a user sees it: a state machine over         *)
(* factorizations, solves, multiplies, filters, clears and failing calls.    *)
(* The operators that transform one object's state live in HIFObjOps; the    *)
(* trace specification uses the same ones.                                   *)
(*                                                                           *)
(* obj[o].st    "empty", "ready", or "unknown" (after a refused matrix)      *)
(* obj[o].key   identity of the last factorization                           *)
(* obj[o].work  length of the scratch buffer all later calls share           *)
(* answers      set of <<answer key, width, scratch available>> given so far *)
EXTENDS HIFObjOps, FiniteSets, TLC
CONSTANTS Objs, Keys, SizeOf(_), NeedOf(_), Widths, Filters, MaxOps
VARIABLES obj, answers, nops

vars == <<obj, answers, nops>>
Need(k) == NeedOf(k)

Init == /\ obj = [o \in Objs |-> EmptyObj]
        /\ answers = {}
        /\ nops = 0

Tick == nops < MaxOps /\ nops' = nops + 1

Factorize(o, k) ==
  /\ Tick
  /\ obj' = [obj EXCEPT ![o] = FactorizePost(@, k, SizeOf(k))]
  /\ UNCHANGED answers

FailFactorize(o) ==
  /\ Tick
  /\ obj' = [obj EXCEPT ![o] = FailPost(@)]
  /\ UNCHANGED answers

Clear(o) ==
  /\ Tick
  /\ obj' = [obj EXCEPT ![o] = ClearPost(@)]
  /\ UNCHANGED answers

SetFilter(o, side, f) ==
  /\ Tick
  /\ obj' = [obj EXCEPT ![o] = FilterPost(@, side, f)]
  /\ UNCHANGED answers

Call(o, op, tr, w) ==
  LET s2 == GrowPost(obj[o], w * Need(obj[o].key)) IN
  /\ Tick /\ CanSolve(obj[o])
  /\ obj' = [obj EXCEPT ![o] = s2]
  /\ answers' = answers \cup {<<AnswerKey(obj[o], op, tr), w, s2.work>>}

Solve(o, tr) == Call(o, "solve", tr, 1)
Multiply(o, tr) == Call(o, "mult", tr, 1)
SolveMrhs(o, w) == obj[o].fr = NoFilter /\ Call(o, "mrhs", FALSE, w)

Refuse(o) ==   \* any use of an empty object is refused and changes nothing
  /\ Tick /\ MustRefuse(obj[o])
  /\ UNCHANGED <<obj, answers>>

Next == \E o \in Objs :
          \/ \E k \in Keys : Factorize(o, k)
          \/ FailFactorize(o) \/ Clear(o) \/ Refuse(o)
          \/ \E tr \in BOOLEAN : Solve(o, tr) \/ Multiply(o, tr)
          \/ \E w \in Widths : SolveMrhs(o, w)
          \/ \E side \in {"r", "l"} : \E f \in Filters : SetFilter(o, side, f)

Spec == Init /\ [][Next]_vars

TypeOK == \A o \in Objs : /\ obj[o].st \in {"empty", "ready", "unknown"}
                          /\ obj[o].st = "ready" <=> obj[o].key # NoKey
                          /\ obj[o].work >= 0
EmptyHasNothing == \A o \in Objs : obj[o].st = "empty" => (obj[o].work = 0 /\ obj[o].n = 0)
(* an answer names the factorization it came from, never an earlier one *)
AnswersAreCurrent ==
  [][\A a \in answers' \ answers : \E o \in Objs : obj[o].st = "ready" /\ obj[o].key = a[1][1] /\ obj'[o].key = a[1][1]]_vars
(* the left filter is invisible to plain calls and the right one to transposed ones *)
FiltersSided ==
  [][\A a \in answers' \ answers : a[1][2] = "mult" => a[1][3] = NoFilter]_vars
(* scratch is sufficient for every call that was ever made *)
ScratchSuffices == \A a \in answers : a[3] >= a[2] * Need(a[1][1])
ObjectsIndependent == [][Cardinality({o \in Objs : obj'[o] # obj[o]}) <= 1]_vars
=============================================================================
