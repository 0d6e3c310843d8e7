SPECIFICATION Spec
CONSTANTS NP = 3
 NS = 3
 MaxOps = 6
INVARIANTS PrimaryRefines SecondaryRefines PosInverse
CHECK_DEADLOCK FALSE
