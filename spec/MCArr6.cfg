SPECIFICATION Spec
CONSTANTS H = 2
 MaxN = 2
 MaxOps = 6
INVARIANTS Released NoDangling Counted Truthful ExternalKept
CHECK_DEADLOCK FALSE
