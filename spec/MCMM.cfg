SPECIFICATION Spec
CONSTANTS
  MaxM = 3
  MaxN = 3
  MaxNnz = 3
INVARIANTS InBounds Exact Symmetric
CHECK_DEADLOCK FALSE
