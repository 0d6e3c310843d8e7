SPECIFICATION Spec
CONSTANTS N = 3
 Ents <- MCEnts3
INVARIANTS Laws GreedyReachesRank FullIffDet RankSelfAdj
CHECK_DEADLOCK FALSE
