---------------------------- MODULE RequestsTrace ----------------------------
(* Recorded answers: T.r the request, T.exc the type of the error ("" if none), *)
(* T.msg its text, T.works whether what was built could be used, T.dim          *)
EXTENDS Requests, Verdict
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, pc
vars == <<tid, pc>>
T == Traces[tid]
R == T.r
Clause(n, ok) == IF ok THEN {} ELSE {<<n, 0>>}
Build == LET f == Fate(R.c, R.a, R.o) IN
  CASE f = "refused" -> Clause("not refused", T.exc \in {"ValueError", "TypeError"})
    [] f = "accepted" -> Clause("valid arguments refused", T.exc = "") \cup (IF T.exc = "" THEN Clause("what was built does not work", T.works) ELSE {})
    [] OTHER -> {}
Ks == {T.ks[i] : i \in DOMAIN T.ks}
Operation == LET f == IF R.c = "prod" THEN ProdFate(Ks, R.o) ELSE OpFate(R.c, R.o) IN
  CASE f = "not implemented" -> Clause("operation that is not implemented answered", T.exc # "")
                                \cup (IF T.exc = "" THEN {} ELSE Clause("not-implemented error", T.exc = "NotImplementedError") \cup Clause("error does not name the manifold and the operation", T.named))
    [] f = "implemented" -> Clause("implemented operation refused: " \o T.exc, T.exc = "")
    [] OTHER -> {}
Other == LET E == Misc[R.c] IN
  IF E = {} THEN Clause("refused: " \o T.exc, T.exc = "") ELSE Clause("not refused as documented: " \o (IF T.exc = "" THEN "accepted" ELSE T.exc), T.exc \in E)
Bad == CASE R.kind = "build" -> Build [] R.kind = "op" -> Operation [] R.kind = "misc" -> Other
Init == tid \in 1..Len(Traces) /\ pc = 0
Next == pc = 0 /\ NJEmit([tid |-> tid, bad |-> Bad]) /\ pc' = 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
