SPECIFICATION Spec
CONSTANTS Mode = "sub"
 Depth = 1
 Long = 7
INVARIANTS InRadius AtBoundary BeatsCauchy NoIncrease Monotone Bounded
