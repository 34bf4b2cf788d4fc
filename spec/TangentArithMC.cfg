SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Laws Emit
VIEW View
