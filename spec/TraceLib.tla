------------------------------ MODULE TraceLib ------------------------------
(* Reads a recorded trace and walks it through a specification.  The module  *)
(* that extends it supplies                                                  *)
(*   BeginSt(scn)  the specification's state at the start of a scenario,     *)
(*   Why(st, e)    the names of the clauses of the specification's action    *)
(*                 that event e violates in state st ({} = e is a step),     *)
(*   Post(st, e)   the state after the step.                                 *)
(* A scenario whose next event is no step of the specification is reported   *)
(* (REJ) and skipped up to the next Begin, so that the rest is validated too.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS BeginSt(_), Why(_, _), Post(_, _)
VARIABLES pos, mst, skip
tlvars == <<pos, mst, skip>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoSt == [none |-> TRUE]

TLInit == pos = 1 /\ mst = NoSt /\ skip = FALSE

Report(e, w) == PrintT("REJ " \o ToJson([l |-> pos, sid |-> e.sid, ev |-> e.ev, why |-> w]))

TLStep ==
  LET e == Trace[pos] IN
  /\ pos' = pos + 1
  /\ CASE e.ev = "Begin" -> mst' = BeginSt(e.scn) /\ skip' = FALSE
       [] e.ev # "Begin" /\ skip -> UNCHANGED <<mst, skip>>
       [] e.ev = "Crash" /\ ~skip -> Report(e, {"crash: " \o e.what}) /\ skip' = TRUE /\ mst' = NoSt
       [] e.ev = "End" /\ ~skip -> UNCHANGED <<mst, skip>>
       [] OTHER -> LET w == Why(mst, e) IN
                   IF w = {} THEN mst' = Post(mst, e) /\ skip' = FALSE
                   ELSE Report(e, w) /\ skip' = TRUE /\ mst' = NoSt
  /\ (pos = Len(Trace) => PrintT("TRACE-END " \o ToString(pos)))

TLNext == pos <= Len(Trace) /\ TLStep
TLSpec == TLInit /\ [][TLNext]_tlvars
=============================================================================
