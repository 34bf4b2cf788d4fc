SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "radius"
 Depth = 3
 Long = 7
INVARIANTS InRadius AtBoundary BeatsCauchy NoIncrease Monotone Bounded
