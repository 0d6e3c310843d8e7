SPECIFICATION Spec
CONSTANTS MaxM = 2
 MaxN = 3
 Depth = 2
 Vals <- MCVals
INVARIANTS TypeOK HermInvolutive AdjointLaw SplitJoins PermUndone SolveInverts PruneKeepsLarge LinesWellFormed
CHECK_DEADLOCK FALSE
