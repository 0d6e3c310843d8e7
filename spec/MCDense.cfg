SPECIFICATION Spec
CONSTANTS N = 2
 Ents <- MCEnts
INVARIANTS Laws GreedyReachesRank FullIffDet RankSelfAdj
CHECK_DEADLOCK FALSE
