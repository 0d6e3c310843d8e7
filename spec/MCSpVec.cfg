SPECIFICATION Spec
CONSTANTS N = 3
 MaxStep = 1
 MaxOps = 6
INVARIANTS IsSet Bounded Selectable
CHECK_DEADLOCK FALSE
