SPECIFICATION Spec
CONSTANT MaxMoves = 2
INVARIANT Emit
VIEW View
