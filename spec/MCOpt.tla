-------------------------------- MODULE MCOpt --------------------------------
(* All sequences of two option operations (every name, every value):  each   *)
(* changes what it names and nothing else, and every option is reachable     *)
(* through its name, the text form and the C array alike.                    *)
EXTENDS OptOps
VARIABLES o, prev, op, k
vars == <<o, prev, op, k>>
Init == o = Defaults /\ prev = Defaults /\ op = <<"none">> /\ k = 0
SetA(mx) == \E n \in Names \cup {"tau", ""} : \E i \in 1..mx : o' = Set(o, n, Pool[i]) /\ op' = <<"set", n, i>>
StreamA == \E i \in 1..Len(Pool) : \E j \in 1..NumOpts : LET vals == [x \in 1..NumOpts |-> IF x = j THEN Pool[i] ELSE Pool[4]] IN o' = Stream(o, vals) /\ op' = <<"stream", Table[j][1], i>>
Verb == o["verbose"] \in VerbTexts /\ \E f \in {-1, 0, 1, 2, 4, 128} : o' = [o EXCEPT !["verbose"] = ToString(EnableVerbose(Num(o["verbose"]), f))] /\ op' = <<"verb", f>>
Next == k < 2 /\ (IF k = 0 THEN SetA(Len(Pool)) \/ StreamA ELSE SetA(2) \/ Verb) /\ prev' = o /\ k' = k + 1
Spec == Init /\ [][Next]_vars
OnlyNamed == op[1] = "set" => \A n \in Names : n # op[2] => o[n] = prev[n]
Exactly == op[1] = "set" /\ op[2] \in Names => o[op[2]] = (IF IsReal(op[2]) THEN Pool[op[3]][1] ELSE Pool[op[3]][2])
Integral == \A n \in Names : ~IsReal(n) => o[n] = Defaults[n] \/ (\E i \in 1..Len(Pool) : o[n] = Pool[i][2]) \/ n = "verbose"
StreamAll == op[1] = "stream" => \A n \in Names : o[n] = Store(n, IF n = op[2] THEN Pool[op[3]] ELSE Pool[4])
VerbOnly == op[1] = "verb" => \A n \in Names \ {"verbose"} : o[n] = prev[n]
VerbBits == op[1] = "verb" => IF op[2] > 0 THEN \A b \in {1, 2, 4, 8, 16, 32, 64, 128} : Bit(Num(o["verbose"]), b) <=> Bit(Num(prev["verbose"]), b) \/ Bit(op[2], b) ELSE o["verbose"] = "0"
SlotsOK == Cardinality(SlotNames) = Len(Slots) /\ Cardinality({OptOf(s) : s \in SlotNames}) = Len(Slots) /\ Cardinality(Names) = NumOpts
=============================================================================
