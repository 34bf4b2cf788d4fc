--------------------------- MODULE AutodiffTrace ---------------------------
(***************************************************************************)
(* Recorded evaluations of generated operators.                             *)
(* T = [be, name, L, prog, ev]; ev[k] = [X, U, f, g, h, late, kinds, same,   *)
(* fexc, gexc, hexc]: arguments, direction, cost, gradient, Hessian times    *)
(* direction, both again after the last evaluation, whether each result is   *)
(* an array, real for a real argument, whether the arguments were left alone *)
(***************************************************************************)
EXTENDS Autodiff, Verdict
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
N == Len(T.L)
Tol(peak) == NMul(NDec("2e-12"), NMul(peak, peak))
(* all basis directions: <<argument, path, unit>> *)
RECURSIVE Units(_)
(* the arrays shaped like a with a single entry 1 *)
Units(a) == IF NIsNum(a) THEN <<N1>>
            ELSE LET RECURSIVE cat(_)
                     cat(i) == IF i > Len(a) THEN <<>>
                               ELSE [j \in 1..Len(Units(a[i])) |-> [ArrZero(a) EXCEPT ![i] = Units(a[i])[j]]] \o cat(i + 1) IN cat(1)
Basis(i, X) == LET u == Units(X[i]) IN IF T.L[i][2] THEN u \o [j \in DOMAIN u |-> ArrScale(NCplx(N0, N1), u[j])] ELSE u
Only(i, b, X) == Force([j \in DOMAIN X |-> IF j = i THEN b ELSE ArrZero(X[j])])
Shape(a, X) == Len(a) = N /\ \A i \in 1..N : SameShape(a[i], X[i])
Wrong(e, what, i) == <<T.be \o ": wrong " \o what \o (IF \E q \in Used(T.prog) : q = i THEN "" ELSE " for an unused argument"), k>>
Judge(e) ==
  LET j0 == Jet(T.prog, e.X, e.U, e.U) IN
  IF j0 = <<>> THEN {}
  ELSE IF NLt(NDec("1e4"), j0[5]) THEN {}
  ELSE LET
    F == IF e.fexc # "" THEN {<<T.be \o ": exception from the cost: " \o e.fexc, k>>}
         ELSE IF NIsNum(e.f) /\ Close(e.f, j0[1], NDec("1e-12"), NMul(j0[5], j0[5])) THEN {} ELSE {<<T.be \o ": wrong cost", k>>}
    G == IF e.gexc # "" THEN {<<T.be \o ": exception from the gradient: " \o e.gexc, k>>}
         ELSE IF ~Shape(e.g, e.X) THEN {<<T.be \o ": wrong shape of the gradient", k>>}
         ELSE UNION {IF LET B == Basis(i, e.X) IN \A b \in DOMAIN B :
                        LET v == B[b] j == Jet(T.prog, e.X, Only(i, v, e.X), e.U) IN
                        j # <<>> => Close(RDot(v, e.g[i]), j[2], N1, Tol(NMax(j0[5], j[5])))
                     THEN {} ELSE {Wrong(e, "gradient", i)} : i \in 1..N}
    H == IF e.hexc # "" THEN {<<T.be \o ": exception from the Hessian: " \o e.hexc, k>>}
         ELSE IF ~Shape(e.h, e.X) THEN {<<T.be \o ": wrong shape of the Hessian product", k>>}
         ELSE UNION {IF LET B == Basis(i, e.X) IN \A b \in DOMAIN B :
                        LET v == B[b] j == Jet(T.prog, e.X, e.U, Only(i, v, e.X)) IN
                        j # <<>> => Close(RDot(v, e.h[i]), j[4], N1, Tol(NMax(j0[5], j[5])))
                     THEN {} ELSE {Wrong(e, "Hessian product", i)} : i \in 1..N} IN
    F \cup G \cup H
    \cup (IF G \cup H # {} \/ e.kinds THEN {} ELSE {<<T.be \o ": a result is no array of the type of its argument", k>>})
    \cup (IF e.same THEN {} ELSE {<<T.be \o ": an argument was modified", k>>})
    \cup (IF G \cup H # {} \/ e.late THEN {} ELSE {<<T.be \o ": an earlier result changed", k>>})
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Eval == k <= Len(T.ev) /\ bad' = bad \cup Judge(T.ev[k]) /\ k' = k + 1 /\ tid' = tid
End == k = Len(T.ev) + 1 /\ NJEmit([tid |-> tid, bad |-> bad]) /\ k' = k + 1 /\ UNCHANGED <<tid, bad>>
Next == Eval \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
