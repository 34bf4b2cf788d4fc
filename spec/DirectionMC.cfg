SPECIFICATION Spec
INVARIANTS Descends
CONSTANTS
  Depth = 3
  Gradients <- GVecs
  OrthValues = {0, 1, 4}
