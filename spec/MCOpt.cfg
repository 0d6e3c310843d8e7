SPECIFICATION Spec
INVARIANTS OnlyNamed Exactly Integral StreamAll VerbOnly VerbBits SlotsOK
CHECK_DEADLOCK FALSE
