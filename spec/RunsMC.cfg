SPECIFICATION Spec
INVARIANTS Independent Bounded
CONSTANTS Kinds = {"sd", "cg", "tr", "nm", "pso"}
 Length = 3
