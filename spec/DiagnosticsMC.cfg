SPECIFICATION Spec
INVARIANTS Exposes OneLower OwnPoint Emit
