SPECIFICATION Spec
CONSTANT MaxSize = 4
INVARIANTS CroutPartition DoneOK Progress
CHECK_DEADLOCK FALSE
