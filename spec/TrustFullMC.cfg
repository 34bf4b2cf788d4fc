SPECIFICATION Spec
CONSTANTS Mode = "radius"
 Depth = 2
 Long = 7
INVARIANTS InRadius AtBoundary BeatsCauchy NoIncrease Monotone Bounded
