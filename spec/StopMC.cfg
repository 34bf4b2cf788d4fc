SPECIFICATION Spec
VIEW View
INVARIANTS Bounded InTime
CONSTANTS
  Opts = {"sd", "cg", "tr", "nm", "pso"}
  Depth = 3
  Idles = {0}
