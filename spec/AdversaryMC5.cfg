SPECIFICATION Spec
INVARIANTS Monotone Defined
CONSTANTS Length = 5
 MaxIts = {1, 2}
