SPECIFICATION Spec
INVARIANTS OwnBest TopBest Costs
CONSTANTS Pop = 1
 Depth = 4
