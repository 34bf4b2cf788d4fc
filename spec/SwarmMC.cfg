SPECIFICATION Spec
INVARIANTS OwnBest TopBest Costs
CONSTANTS Pop = 2
 Depth = 2
