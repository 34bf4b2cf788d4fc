SPECIFICATION Spec
INVARIANTS Emit Rules
CONSTANTS Length = 11
 Check = FALSE
 Names = {"m", "cm", "mm", "cmcm", "vcm", "k", "cv", "vmv", "v"}
