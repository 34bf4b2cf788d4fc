SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "radius"
 Depth = 5
 Long = 7
INVARIANTS InRadius AtBoundary BeatsCauchy NoIncrease Monotone Bounded
