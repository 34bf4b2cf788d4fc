SPECIFICATION Spec
INVARIANTS Emit Consistent
CONSTANTS MaxN = 4
 Stacks = {0, 1, 3}
