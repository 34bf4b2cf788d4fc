SPECIFICATION Spec
VIEW View
INVARIANTS Bounded InTime
CONSTANTS
  Opts = {"sd", "cg", "tr", "nm", "pso"}
  Depth = 3
  Idles = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 25, 31, 32, 33, 49, 50, 51}
