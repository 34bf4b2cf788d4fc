SPECIFICATION Spec
INVARIANTS Emit Decided Both Monotone FirstOrder LogDist
CONSTANT Hi = 4
