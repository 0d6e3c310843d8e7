SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxT = 4
INVARIANTS CutOK NeverTwice AllAtJoin
CHECK_DEADLOCK FALSE
