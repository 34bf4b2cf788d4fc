----------------------------- MODULE MultiTools -----------------------------
(***************************************************************************)
(* The stacked linear-algebra helpers: each returns, matrix by matrix, the   *)
(* solution of a defining equation.  A request is a record                   *)
(*   [fn, n, m, k, cplx, opt, cls]: n x m matrices, a stack of k of them      *)
(* (k = 0: one matrix, not a stack), opt the option of the function, cls the  *)
(* kind of content.  Req(q) says whether the request is in the domain.       *)
(***************************************************************************)
EXTENDS LinAlg, Integers
Square == {"sym", "herm", "skew", "skewh", "expm", "logm"}
Fns == {"transp", "hconj", "qr", "eye"} \cup Square
Options(f) == CASE f = "expm" -> {"", "symmetric"} [] f = "logm" -> {"", "positive_definite"} [] OTHER -> {""}
(* contents: any function but the logarithm takes all; exp and log of symmetric matrices need those *)
Classes(f, opt) == CASE opt = "symmetric" -> {"zero", "eye", "selfadj", "rank1", "pd", "wide"}
                     [] opt = "positive_definite" -> {"eye", "pd", "spread"}
                     [] f = "logm" -> {"eye", "pd", "expof", "rot", "mixed"}
                     [] f = "expm" -> {"zero", "eye", "small", "generic", "selfadj", "jordan", "skew", "wide"}
                     [] f = "eye" -> {"eye"}
                     [] OTHER -> {"zero", "eye", "generic", "rank1", "selfadj", "zerocol", "huge", "tiny", "int"}
Legal(q) == /\ q.fn \in Square => q.n = q.m
            /\ q.opt \in Options(q.fn) /\ q.cls \in Classes(q.fn, q.opt)
            /\ q.fn = "eye" => q.k > 0 /\ ~q.cplx /\ q.n = q.m
            /\ q.cls \in {"eye", "selfadj", "pd", "spread", "expof", "rot", "mixed", "jordan", "skew", "small", "wide"} => q.n = q.m
            /\ q.cls = "rot" => q.n >= 2

(* --- the defining equations: residual of result r (for qr <<q, r>>) on matrix A --- *)
Scale(A) == NMax(NDec("1e-300"), MaxAbs(A))
HalfSum(A, B) == ArrScale(NHalf, ArrAdd(A, B))
HalfDif(A, B) == ArrScale(NHalf, ArrSub(A, B))
Exact(f, A) == CASE f = "transp" -> Transp(A)
                 [] f = "hconj" -> Herm(A)
                 [] f = "sym" -> HalfSum(A, Transp(A))
                 [] f = "herm" -> HalfSum(A, Herm(A))
                 [] f = "skew" -> HalfDif(A, Transp(A))
                 [] f = "skewh" -> HalfDif(A, Herm(A))
                 [] f = "eye" -> Eye(Len(A))
Tol == NDec("1e-12")
Upper(R) == \A i \in DOMAIN R : \A j \in DOMAIN R[1] : j < i => NEq(NAbs(R[i][j]), N0)
Ok(f, opt, A, r, ref) ==
  CASE f \in {"transp", "hconj", "sym", "herm", "skew", "skewh", "eye"} ->
         SameShape(r, Exact(f, A)) /\ AllFin(r) /\ NLe(MaxAbs(ArrSub(r, Exact(f, A))), NMul(NDec("4e-16"), MaxAbs(A)))
    [] f = "expm" -> SameShape(r, A) /\ AllFin(r) /\ LET X == ExpM(A) IN NLe(MaxAbs(ArrSub(r, X)), NMul(Tol, NMax(N1, NMul(MaxAbs(X), NAdd(N1, MaxAbs(A))))))
    [] f = "logm" -> /\ SameShape(r, A) /\ AllFin(r)
                     /\ NLe(MaxAbs(ArrSub(ExpM(r), A)), NMul(NMul(NInt(100), Tol), NMul(MaxAbs(A), NAdd(N1, MaxAbs(r)))))
                     (* the principal one, where the content was made from a small logarithm *)
                     /\ ref = <<>> \/ NLe(MaxAbs(ArrSub(r, ref[1])), NDec("1e-8"))
    [] f = "qr" -> LET Q == r[1] R == r[2] k == IF Len(A) < Len(A[1]) THEN Len(A) ELSE Len(A[1]) t == NMul(NInt(20), NDec("1e-15")) IN
         /\ Len(Q) = Len(A) /\ Len(Q[1]) = k /\ Len(R) = k /\ Len(R[1]) = Len(A[1]) /\ AllFin(Q) /\ AllFin(R)
         /\ NLe(MaxAbs(ArrSub(MatMul(Q, R), A)), NMul(t, NMul(NInt(Len(A)), MaxAbs(A))))
         /\ NLe(MaxAbs(ArrSub(MatMul(Herm(Q), Q), Eye(k))), t)
         /\ Upper(R)
         /\ \A i \in 1..k : NLe(N0, NRe(R[i][i])) /\ NLe(NAbs(NIm(R[i][i])), NMul(t, NAbs(R[i][i])))
(* results of real input are real, except logarithms that cannot be *)
Real(r) == \A i \in DOMAIN Flat(r) : NIsReal(Flat(r)[i])
=============================================================================
