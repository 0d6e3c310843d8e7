SPECIFICATION Spec
INVARIANTS Defined RefusalChangesNothing ReadyMeans NoDangling RefineGood
CHECK_DEADLOCK FALSE
