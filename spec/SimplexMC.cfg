SPECIFICATION Spec
CONSTANTS Dim = 2
 Depth = 2
 Init0 = "no"
INVARIANTS Size Monotone KeepsBest
