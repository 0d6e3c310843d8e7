SPECIFICATION Spec
CONSTANTS NP = 2
 NS = 4
 MaxOps = 4
INVARIANTS PrimaryRefines SecondaryRefines PosInverse
CHECK_DEADLOCK FALSE
