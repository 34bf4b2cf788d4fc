SPECIFICATION Spec
INVARIANTS Descends
CONSTANTS
  Depth = 4
  Gradients <- GVecs
  OrthValues = {0, 1}
