SPECIFICATION Spec
CONSTANTS H = 3
 MaxN = 2
 MaxOps = 4
INVARIANTS Released NoDangling Counted Truthful ExternalKept
CHECK_DEADLOCK FALSE
