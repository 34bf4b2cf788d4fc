SPECIFICATION Spec
INVARIANTS Monotone Defined
CONSTANTS Length = 4
 MaxIts = {0, 1, 2}
