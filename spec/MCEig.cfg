SPECIFICATION Spec
INVARIANTS Herm EigenPairs Projectors Full SomeChoice RankAgrees
CHECK_DEADLOCK FALSE
