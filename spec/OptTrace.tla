------------------------------ MODULE OptTrace ------------------------------
(* Conformance of recorded option operations with OptOps.                    *)
EXTENDS TraceLib, OptOps
Clause(b, name) == IF b THEN {} ELSE {name}
OBegin(scn) == [o |-> Defaults, c |-> CDefaults, ops |-> scn.ops, i |-> 1]
Op(s) == s.ops[s.i]
After(s) ==
  LET c == Op(s) IN
  CASE c.op = "set" -> Set(s.o, c.name, c.v)
    [] c.op = "stream" -> Stream(s.o, c.vals)
    [] c.op = "verb" -> [s.o EXCEPT !["verbose"] = ToString(EnableVerbose(Num(s.o["verbose"]), c.flag))]
    [] c.op = "defaults" -> Defaults
    [] OTHER -> s.o
AfterC(s) == CASE Op(s).op = "cdef" -> CDefaults [] Op(s).op = "cset" -> CSet(s.c, Op(s).what, Op(s).v) [] OTHER -> s.c
ReprOK(o, r) ==
  Clause(DOMAIN r = Printed, "every option is printed once") \cup
  (IF DOMAIN r # Printed THEN {} ELSE
     Clause(\A n \in PlainInts : r[n] = o[n], "printed integers") \cup
     Clause(\A n \in Names : IsReal(n) => r[n] = "near", "printed reals") \cup
     Clause(r["reorder"] = ReorderName(o["reorder"]), "printed reordering") \cup Clause(r["pivot"] = PivotName(o["pivot"]), "printed pivoting") \cup
     Clause(r["check"] = CheckName(o["check"]), "printed checking flag") \cup
     (IF o["verbose"] \notin VerbTexts THEN {} ELSE
       LET v == Num(o["verbose"]) IN
       Clause((v = 0) = (r["verbose"] = "none"), "printed verbosity")))
OWhy(s, e) ==
  LET c == Op(s) o2 == After(s) c2 == AfterC(s) IN
  Clause(e.ev = c.op, "order of events") \cup
  Clause(DOMAIN e.o = Names, "options observed") \cup
  (IF c.op = "verb" /\ s.o["verbose"] \notin VerbTexts THEN {} ELSE
   {"value of " \o n : n \in {m \in Names \cap DOMAIN e.o : e.o[m] # o2[m]}}) \cup
  (IF DOMAIN e.c # SlotNames THEN {"C slots observed"} ELSE {"C slot " \o n : n \in {m \in SlotNames : e.c[m] # c2[m]}}) \cup
  (CASE c.op = "set" -> Clause(e.refused = (IF c.name \in Names THEN 0 ELSE 1), "unknown names are refused and known ones are not")
     [] c.op = "repr" -> ReprOK(s.o, e.repr)
     [] c.op = "stream" -> Clause(e.good = 1, "the whole text form is consumed")
     [] c.op = "consts" -> Clause(e.verbose = Constants /\ e.cverbose = Constants, "verbosity constants") \cup
          Clause(e.reorder = <<0, 1, 2, 3>> /\ e.creorder = <<0, 1, 2, 3>>, "reordering constants") \cup
          Clause(e.pivot = <<0, 1, 2>> /\ e.cpivot = <<0, 1, 2>>, "pivoting constants") \cup
          Clause(e.nparams = Len(Slots) /\ Cardinality({e.slots[i] : i \in 1..Len(e.slots)}) = Len(Slots) /\ \A i \in 1..Len(e.slots) : e.slots[i] \in 0..(e.nparams - 1), "parameter slots are distinct and within the array")
     [] OTHER -> {})
OPost(s, e) == [s EXCEPT !.o = IF Op(s).op = "verb" /\ s.o["verbose"] \notin VerbTexts THEN e.o ELSE After(s), !.c = AfterC(s), !.i = @ + 1]
=============================================================================
