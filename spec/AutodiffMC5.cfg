SPECIFICATION Spec
INVARIANTS Emit Rules
CONSTANTS Length = 5
 Check = TRUE
 Names = {"m", "cm", "mm", "cmcm", "vcm", "k", "cv", "vmv", "v"}
