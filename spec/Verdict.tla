------------------------------ MODULE Verdict ------------------------------
(* Clauses of a property: VP_PROP selects the property being decided. *)
EXTENDS Num, NumJson, TLC, Integers, FiniteSets
PROP == NJEnv("VP_PROP")
CAL == NJEnv("VP_CAL") = "1"
On(p) == PROP = p
(* p: property, n: clause, i: where; fails unless ok *)
C(p, n, i, ok) == IF On(p) /\ ~ok THEN {<<n, i>>} ELSE {}
(* fails unless err <= tol *)
D(p, n, i, err, tol) ==
  IF ~On(p) THEN {}
  ELSE (IF CAL THEN (IF NJEmit([cal |-> n, kind |-> "", op |-> "", r |-> NDiv(err, tol)]) THEN {} ELSE {}) ELSE {})
       \cup (IF NLe(err, tol) THEN {} ELSE {<<n, i>>})
SameNum(a, b) == (NIsNaN(a) /\ NIsNaN(b)) \/ NEq(a, b)
=============================================================================
