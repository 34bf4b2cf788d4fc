------------------------------ MODULE NumJson ------------------------------
(* JSON input and output with exact numbers (java/NumJson.java). *)
NJParse(s) == CHOOSE v : TRUE    \* the value the JSON text s denotes
NJLoad(f) == CHOOSE v : TRUE     \* the sequence of values on the lines of file f
NJStr(v) == CHOOSE s : TRUE      \* JSON text of v
NJEnv(k) == ""                  \* value of an environment variable
NJEmit(v) == TRUE                \* prints it, marked @@J
=============================================================================
