------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The Riemannian manifolds of pymanopt, defined from their mathematics.    *)
(*                                                                         *)
(* A manifold is a record M = [kind, shape, k, cplx, retr, par, span, comp, *)
(* f]: shape = shape of one copy of a point, k = multiplicity (k > 1: a     *)
(* point is a tuple of k points), cplx = complex entries, retr = retraction *)
(* option, par = parallel transport option, span/comp = the subspace of a   *)
(* sphere-subspace intersection, f = factors of a product.                  *)
(*                                                                         *)
(* Points of "fr" are <<u, s, vt>>, its tangent vectors <<Up, M, Vp>>;       *)
(* tangent vectors of "so" and "u" are elements of the Lie algebra; points   *)
(* of products are tuples.  "gr", "psd" and "ell" are quotients: points are  *)
(* representatives, tangent vectors horizontal lifts.                        *)
(***************************************************************************)
EXTENDS LinAlg, Integers, FiniteSets

T12 == NDec("1e-12")

(* --- stacks and products: an operation on each component ----------------- *)
IsProd(M) == M.kind = "prod"
IsStack(M) == ~IsProd(M) /\ M.k > 1
Comps(M) == IF IsProd(M) THEN Len(M.f) ELSE M.k
Comp(M, i) == IF IsProd(M) THEN M.f[i] ELSE [M EXCEPT !.k = 1]
Comp2(M) == IsProd(M) \/ IsStack(M)
SumOf(f(_), n) == IF n = 0 THEN N0 ELSE ArrSum([i \in 1..n |-> f(i)])
HasLen(a, n) == IsArr(a) /\ ~NIsNum(a) /\ Len(a) = n
RECURSIVE ShapeIs(_, _)
ShapeIs(a, sh) == IF sh = <<>> THEN NIsNum(a)
                  ELSE HasLen(a, sh[1]) /\ \A i \in 1..sh[1] : ShapeIs(a[i], Tail(sh))
Quot(M) == M.kind \in {"gr", "psd", "ell"}

(* --- shapes --------------------------------------------------------------- *)
RECURSIVE PointShape(_, _), TangentShape(_, _)
PointShape(M, x) ==
  IF Comp2(M) THEN HasLen(x, Comps(M)) /\ \A i \in 1..Comps(M) : PointShape(Comp(M, i), x[i])
  ELSE IF M.kind = "fr" THEN HasLen(x, 3) /\ ShapeIs(x[1], <<M.shape[1], M.shape[3]>>) /\ ShapeIs(x[2], <<M.shape[3]>>) /\ ShapeIs(x[3], <<M.shape[3], M.shape[2]>>)
  ELSE ShapeIs(x, M.shape)
TangentShape(M, u) ==
  IF Comp2(M) THEN HasLen(u, Comps(M)) /\ \A i \in 1..Comps(M) : TangentShape(Comp(M, i), u[i])
  ELSE IF M.kind = "fr" THEN HasLen(u, 3) /\ ShapeIs(u[1], <<M.shape[1], M.shape[3]>>) /\ ShapeIs(u[2], <<M.shape[3], M.shape[3]>>) /\ ShapeIs(u[3], <<M.shape[2], M.shape[3]>>)
  ELSE ShapeIs(u, M.shape)

(* --- small helpers ---------------------------------------------------------- *)
SincN(t) == IF NEq(t, N0) THEN N1 ELSE NDiv(NSin(t), t)
FunH(f(_), A) == LET e == EigH(A) IN MM3(e[2], Diag([i \in DOMAIN e[1] |-> f(e[1][i])]), Herm(e[2]))
Pos0(t) == NMax(N0, t)
CosSqrt(t) == NCos(NSqrt(Pos0(t)))
SincSqrt(t) == SincN(NSqrt(Pos0(t)))
AtanSqrtBy(t) == LET s == NSqrt(Pos0(t)) IN IF NEq(s, N0) THEN N1 ELSE NDiv(NAtan2(s, N1), s)
Rows(X) == [i \in DOMAIN X |-> X[i]]
Block2(A, B, C, D) == [i \in 1..(Len(A) + Len(C)) |-> IF i <= Len(A) THEN A[i] \o B[i] ELSE C[i - Len(A)] \o D[i - Len(A)]]
ColsOf(A, p) == [i \in DOMAIN A |-> SubSeq(A[i], 1, p)]
MatDiag(s) == Diag(s)
FRMat(x) == MM3(x[1], Diag(x[2]), x[3])
(* orthogonal projector on (the complement of) the span of the columns of M.span *)
SubProj(M) == LET S == MatMul(M.span, Transp(M.span)) e == EigH(S)[1] t == NMul(NDec("1e-20"), e[Len(e)])
                  On(l) == IF NLt(t, l) THEN N1 ELSE N0
                  P == FunH(On, S) IN
              IF M.comp THEN ArrSub(Eye(Len(M.span)), P) ELSE P
ApplyMV(P, v) == Force([i \in DOMAIN P |-> RDot(P[i], v)])
ElemSub(M) == M.kind \in {"sph", "sphsub"}
SphMap(x, u) == LET n == ArrNorm(u) IN LinComb(NCos(n), x, SincN(n), u)
Normed(a) == ArrScale(NDiv(N1, ArrNorm(a)), a)
(* angle between unit vectors a, b, accurate for all angles *)
Angle(a, b) == LET c == RDot(a, b) IN NAtan2(ArrNorm(ArrSub(b, ArrScale(c, a))), c)
SphLog(a, b) == LET c == RDot(a, b) v == ArrSub(b, ArrScale(c, a)) n == ArrNorm(v) IN
                IF NEq(n, N0) THEN ArrZero(a) ELSE ArrScale(NDiv(NAtan2(n, c), n), v)
Zip(f(_, _), X, Y) == Force([i \in DOMAIN X |-> f(X[i], Y[i])])
Lam(x) == NDiv(N2, NSub(N1, RDot(x, x)))
Mobius(a, b) == LET s == RDot(a, b) na == RDot(a, a) nb == RDot(b, b) IN
  ArrScale(NDiv(N1, NAdd(NAdd(N1, NMul(N2, s)), NMul(na, nb))),
           LinComb(NAdd(NAdd(N1, NMul(N2, s)), nb), a, NSub(N1, na), b))
Atanh(t) == NMul(NHalf, NLog(NDiv(NAdd(N1, t), NSub(N1, t))))
CayleyLog(W) == LET n == Len(W) K == MatMul(ArrSub(W, Eye(n)), Inv(ArrAdd(W, Eye(n))))
                    im == NCplx(N0, N1) H == SymH(ArrScale(NNeg(im), K)) f(t) == NMul(N2, NAtan2(t, N1)) IN
                ArrScale(im, FunH(f, H))
PDSqrt(x) == SqrtH(SymH(x))
Lyap(A, B) == LET e == EigH(A) C == MM3(Herm(e[2]), B, e[2]) n == Len(A) IN  \* A W + W A = B
  MM3(e[2], Force([i \in 1..n |-> [j \in 1..n |-> NDiv(C[i][j], NAdd(e[1][i], e[1][j]))]]), Herm(e[2]))
RowDots(X, V) == Force([i \in DOMAIN X |-> RDot(X[i], V[i])])
RowScale(c, X) == Force([i \in DOMAIN X |-> ArrScale(c[i], X[i])])
ProjRows(X, V) == ArrSub(V, RowScale(RowDots(X, V), X))
VertOut(Y, V) == ArrSub(V, MatMul(Y, Lyap(MatMul(Herm(Y), Y), ArrSub(MatMul(Herm(Y), V), MatMul(Herm(V), Y)))))
PartOf(M, a) == IF M.cplx THEN a ELSE ArrRe(a)
EigSmall(A) == EigH(SymH(A))[1][1]                  \* smallest eigenvalue
MinOf(v) == CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : NLe(x, v[i])
MaxOf(v) == CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : NLe(v[i], x)

(* --- defining constraints: residual (0 on the manifold, infinite outside the open conditions) *)
Orth(X) == MaxAbs(ArrSub(MatMul(Herm(X), X), Eye(Len(X[1]))))
Open(c) == IF c THEN N0 ELSE NInf
RECURSIVE MemberRes(_, _)
MemberRes(M, x) ==
  IF Comp2(M) THEN MaxOf([i \in 1..Comps(M) |-> MemberRes(Comp(M, i), x[i])])
  ELSE IF ~AllFin(x) \/ (~M.cplx /\ ~AllReal(x)) THEN NInf
  ELSE CASE M.kind = "euc" -> N0
    [] M.kind = "sym" -> MaxAbs(ArrSub(x, Transp(x)))
    [] M.kind = "skew" -> MaxAbs(ArrAdd(x, Transp(x)))
    [] M.kind = "sph" -> NAbs(NSub(ArrNorm(x), N1))
    [] M.kind = "sphsub" -> NMax(NAbs(NSub(ArrNorm(x), N1)), MaxAbs(ArrSub(x, ApplyMV(SubProj(M), x))))
    [] M.kind = "obl" -> MaxOf([j \in DOMAIN x[1] |-> NAbs(NSub(ArrNorm(Transp(x)[j]), N1))])
    [] M.kind = "ell" -> MaxOf([i \in DOMAIN x |-> NAbs(NSub(ArrNorm(x[i]), N1))])
    [] M.kind = "cc" -> MaxOf([i \in DOMAIN x |-> NAbs(NSub(NAbs(x[i]), N1))])
    [] M.kind \in {"st", "gr", "u"} -> Orth(x)
    [] M.kind = "so" -> NMax(Orth(x), NAbs(NSub(Det(x), N1)))
    [] M.kind = "pd" -> NMax(NDiv(MaxAbs(ArrSub(x, Herm(x))), NMax(NDec("1e-300"), MaxAbs(x))), Open(NLt(N0, EigSmall(x))))
    [] M.kind = "spd" -> NMax(NDiv(MaxAbs(ArrSub(x, Herm(x))), NMax(NDec("1e-300"), MaxAbs(x))), NMax(Open(NLt(N0, EigSmall(x))), NAbs(NSub(Det(x), N1))))
    [] M.kind = "psd" -> Open(NLt(NDec("1e-20"), EigSmall(MatMul(Herm(x), x))))
    [] M.kind = "fr" -> NMax(NMax(Orth(x[1]), Orth(Transp(x[3]))), Open(\A i \in DOMAIN x[2] : NLt(N0, x[2][i])))
    [] M.kind = "pos" -> Open(\A i \in DOMAIN Flat(x) : NLt(N0, Flat(x)[i]))
    [] M.kind = "pb" -> Open(NLt(RDot(x, x), N1))

(* --- tangent (horizontal) vectors ------------------------------------------ *)
RECURSIVE TangentRes(_, _, _), Amb(_, _, _), Proj(_, _, _), Inner(_, _, _, _)
(* ambient representation *)
Amb(M, x, u) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> Amb(Comp(M, i), x[i], u[i])])
  ELSE CASE M.kind \in {"so", "u"} -> MatMul(x, u)
    [] M.kind = "fr" -> ArrAdd(ArrAdd(MM3(x[1], u[2], x[3]), MatMul(u[1], x[3])), MatMul(x[1], Transp(u[3])))
    [] OTHER -> u
(* orthogonal projection of an ambient vector, as a tangent vector *)
Proj(M, x, v) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> Proj(Comp(M, i), x[i], v[i])])
  ELSE CASE M.kind \in {"euc", "pos", "pb"} -> v
    [] M.kind = "sym" -> Sym(v)
    [] M.kind = "skew" -> ArrScale(NHalf, ArrSub(v, Transp(v)))
    [] M.kind = "sph" -> ArrSub(v, ArrScale(RDot(x, v), x))
    [] M.kind = "sphsub" -> LET w == ApplyMV(SubProj(M), v) IN ArrSub(w, ArrScale(RDot(x, w), x))
    [] M.kind = "obl" -> Transp(ProjRows(Transp(x), Transp(v)))
    [] M.kind = "cc" -> LET f(a, b) == NSub(b, NMul(NRe(NMul(NConj(a), b)), a)) IN Zip(f, x, v)
    [] M.kind = "st" -> ArrSub(v, MatMul(x, SymH(MatMul(Herm(x), v))))
    [] M.kind = "gr" -> ArrSub(v, MatMul(x, MatMul(Herm(x), v)))
    [] M.kind \in {"so", "u"} -> SkewH(MatMul(Herm(x), v))
    [] M.kind = "pd" -> SymH(v)
    [] M.kind = "spd" -> LET h == SymH(v) IN ArrSub(h, ArrScale(NDiv(NRe(Tr(Solve(x, h))), NInt(Len(x))), x))
    [] M.kind = "psd" -> VertOut(x, v)
    [] M.kind = "ell" -> VertOut(x, ProjRows(x, v))
    [] M.kind = "fr" -> LET U == x[1] V == Transp(x[3]) ZV == MatMul(v, V) m == MatMul(Transp(U), ZV) IN
         <<ArrSub(ZV, MatMul(U, m)), m, ArrSub(MatMul(Transp(v), U), MatMul(V, Transp(m)))>>
TangentRes(M, x, u) ==
  IF Comp2(M) THEN MaxOf([i \in 1..Comps(M) |-> TangentRes(Comp(M, i), x[i], u[i])])
  ELSE IF ~AllFin(u) \/ (~M.cplx /\ ~AllReal(u)) THEN NInf
  ELSE CASE M.kind \in {"euc", "pos", "pb"} -> N0
    [] M.kind \in {"so", "u"} -> MaxAbs(ArrAdd(u, Herm(u)))
    [] M.kind = "fr" -> NMax(MaxAbs(MatMul(Transp(x[1]), u[1])), MaxAbs(MatMul(x[3], u[3])))
    [] M.kind = "cc" -> MaxOf([i \in DOMAIN x |-> NAbs(NRe(NMul(NConj(x[i]), u[i])))])
    [] OTHER -> MaxAbs(ArrSub(u, Proj(M, x, u)))
Inner(M, x, u, v) ==
  IF Comp2(M) THEN LET f(i) == Inner(Comp(M, i), x[i], u[i], v[i]) IN SumOf(f, Comps(M))
  ELSE CASE M.kind \in {"pd", "spd"} -> NRe(Tr(MatMul(Solve(x, u), Solve(x, v))))
    [] M.kind = "pos" -> RDot(ArrDiv(u, x), ArrDiv(v, x))
    [] M.kind = "pb" -> NMul(NSq(Lam(x)), RDot(u, v))
    [] OTHER -> RDot(u, v)
(* differences of nearly equal vectors need not be exactly symmetric *)
Norm(M, x, u) == LET q == Inner(M, x, u, u) IN IF NIsNaN(q) THEN q ELSE NSqrt(Pos0(q))
(* inner product for which Proj is orthogonal *)
RECURSIVE ProjInner(_, _, _, _)
ProjInner(M, x, a, b) ==
  IF Comp2(M) THEN LET f(i) == ProjInner(Comp(M, i), x[i], a[i], b[i]) IN SumOf(f, Comps(M))
  ELSE IF M.kind = "spd" THEN NRe(Tr(MatMul(Solve(x, Herm(a)), Solve(x, b))))
  ELSE RDot(a, b)

(* --- geodesics ------------------------------------------------------------- *)
HasExp(M) == M.kind \notin {"fr", "ell"}
HasLog(M) == M.kind \notin {"st", "fr", "ell"}
RECURSIVE Exp(_, _, _), Log(_, _, _), Dist(_, _, _), LogOK(_, _, _), Retr(_, _, _), Diff(_, _, _), Cond(_, _)
GrPair(x, y) == MatMul(Herm(x), y)
(* is y away from the cut locus of x (the logarithm is single valued and well conditioned)? *)
LogOK(M, x, y) ==
  IF Comp2(M) THEN \A i \in 1..Comps(M) : LogOK(Comp(M, i), x[i], y[i])
  ELSE LET far == NDec("0.001") IN
    CASE M.kind \in {"sph", "sphsub"} -> NLt(NAdd(NInt(0 - 1), far), RDot(x, y))
    [] M.kind = "obl" -> \A j \in DOMAIN x[1] : NLt(NAdd(NInt(0 - 1), far), RDot(Transp(x)[j], Transp(y)[j]))
    [] M.kind = "cc" -> \A i \in DOMAIN x : NLt(NAdd(NInt(0 - 1), far), NRe(NMul(NConj(x[i]), y[i])))
    [] M.kind = "gr" -> LET G == GrPair(x, y) IN NLt(far, EigSmall(MatMul(Herm(G), G)))
    [] M.kind \in {"so", "u"} -> LET W == ArrAdd(MatMul(Herm(x), y), Eye(Len(x))) IN NLt(far, EigSmall(MatMul(Herm(W), W)))
    [] M.kind = "psd" -> LET G == MatMul(Herm(y), x) IN NLt(NDec("1e-6"), EigSmall(MatMul(Herm(G), G)))
    [] OTHER -> TRUE
Exp(M, x, u) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> Exp(Comp(M, i), x[i], u[i])])
  ELSE CASE M.kind \in {"euc", "sym", "skew", "psd"} -> ArrAdd(x, u)
    [] M.kind \in {"sph", "sphsub"} -> SphMap(x, u)
    [] M.kind = "obl" -> Transp(Zip(SphMap, Transp(x), Transp(u)))
    [] M.kind = "ell" -> Zip(SphMap, x, u)
    [] M.kind = "cc" -> LET f(a, b) == LET t == NAbs(b) IN NAdd(NMul(NCos(t), a), NMul(SincN(t), b)) IN Zip(f, x, u)
    [] M.kind = "st" -> LET p == Len(x[1]) A == MatMul(Transp(x), u)
                            B == ExpM(Block2(A, ArrNeg(MatMul(Transp(u), u)), Eye(p), A)) IN
         MM3(Force([i \in DOMAIN x |-> x[i] \o u[i]]), ColsOf(B, p), ExpM(ArrNeg(A)))
    [] M.kind = "gr" -> LET S == MatMul(Herm(u), u) IN ArrAdd(MatMul(x, FunH(CosSqrt, S)), MatMul(u, FunH(SincSqrt, S)))
    [] M.kind \in {"so", "u"} -> MatMul(x, ExpM(u))
    [] M.kind \in {"pd", "spd"} -> LET c == PDSqrt(x) ci == Inv(c) IN MM3(c, ExpH(SymH(MM3(ci, u, ci))), c)
    [] M.kind = "pos" -> ArrMul(x, ArrExp(ArrDiv(u, x)))
    [] M.kind = "pb" -> LET n == ArrNorm(u) IN
         IF NEq(n, N0) THEN x ELSE Mobius(x, ArrScale(NDiv(NTanh(NDiv(NMul(n, Lam(x)), N2)), n), u))
Log(M, x, y) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> Log(Comp(M, i), x[i], y[i])])
  ELSE CASE M.kind \in {"euc", "sym", "skew"} -> ArrSub(y, x)
    [] M.kind \in {"sph", "sphsub"} -> SphLog(x, y)
    [] M.kind = "obl" -> Transp(Zip(SphLog, Transp(x), Transp(y)))
    [] M.kind = "cc" -> LET f(a, b) == LET w == NMul(NConj(a), b) IN NMul(NMul(a, NCplx(N0, N1)), NAtan2(NIm(w), NRe(w))) IN Zip(f, x, y)
    [] M.kind = "gr" -> LET L == MatMul(ArrSub(y, MatMul(x, GrPair(x, y))), Inv(GrPair(x, y))) IN MatMul(L, FunH(AtanSqrtBy, MatMul(Herm(L), L)))
    [] M.kind \in {"so", "u"} -> PartOf(M, CayleyLog(MatMul(Herm(x), y)))
    [] M.kind \in {"pd", "spd"} -> LET c == PDSqrt(x) ci == Inv(c) IN MM3(c, LogH(SymH(MM3(ci, y, ci))), c)
    [] M.kind = "psd" -> ArrSub(MatMul(y, Polar(MatMul(Herm(y), x))), x)
    [] M.kind = "pos" -> ArrMul(x, ArrSub(ArrLog(y), ArrLog(x)))
    [] M.kind = "pb" -> LET w == Mobius(ArrNeg(x), y) n == ArrNorm(w) IN
         IF NEq(n, N0) THEN ArrZero(x) ELSE ArrScale(NMul(NDiv(Atanh(n), n), NDiv(N2, Lam(x))), w)
Dist(M, x, y) ==
  IF Comp2(M) THEN LET f(i) == NSq(Dist(Comp(M, i), x[i], y[i])) IN NSqrt(SumOf(f, Comps(M)))
  ELSE CASE M.kind \in {"euc", "sym", "skew"} -> ArrNorm(ArrSub(x, y))
    [] M.kind \in {"sph", "sphsub"} -> Angle(x, y)
    [] M.kind = "obl" -> ArrNorm(Zip(Angle, Transp(x), Transp(y)))
    [] M.kind = "cc" -> LET f(a, b) == LET w == NMul(NConj(a), b) IN NAtan2(NIm(w), NRe(w)) IN ArrNorm(Zip(f, x, y))
    [] M.kind = "gr" -> LET G == GrPair(x, y) c == EigH(MatMul(Herm(G), G))[1]
                            R == ArrSub(y, MatMul(x, G)) s == EigH(MatMul(Herm(R), R))[1] p == Len(c) IN
         ArrNorm(Force([i \in 1..p |-> NAtan2(NSqrt(Pos0(s[p + 1 - i])), NSqrt(Pos0(c[i])))]))
    [] M.kind = "psd" -> LET G == MatMul(Herm(y), x) e == EigH(MatMul(Herm(G), G))[1] IN   \* Bures-Wasserstein
         NSqrt(Pos0(NSub(NAdd(RDot(x, x), RDot(y, y)), NMul(N2, ArrSum([i \in DOMAIN e |-> NSqrt(Pos0(e[i]))])))))
    [] M.kind \in {"so", "u"} ->       \* the angles of the eigenvalues w of x^H y, from |w - 1| and |w + 1|
         LET W == MatMul(Herm(x), y) a == ArrSub(W, Eye(Len(W))) b == ArrAdd(W, Eye(Len(W)))
             s == EigH(MatMul(Herm(a), a))[1] c == EigH(MatMul(Herm(b), b))[1] p == Len(s) IN
         ArrNorm(Force([i \in 1..p |-> NMul(N2, NAtan2(NSqrt(Pos0(s[i])), NSqrt(Pos0(c[p + 1 - i]))))]))
    [] M.kind \in {"pd", "spd"} -> LET ci == Inv(PDSqrt(x)) IN ArrNorm(LogH(SymH(MM3(ci, y, ci))))
    [] M.kind = "pos" -> ArrNorm(ArrSub(ArrLog(x), ArrLog(y)))
    [] M.kind = "pb" -> LET w == Mobius(ArrNeg(x), y) IN NMul(N2, Atanh(ArrNorm(w)))
HasDist(M) == M.kind \notin {"st", "fr", "ell"}

(* --- retractions ----------------------------------------------------------- *)
NormRows(X) == Zip(LAMBDA a, b : Normed(a), X, X)
TruncSVD(A, r) == LET e == EigH(SymH(MatMul(Transp(A), A))) n == Len(e[1])
                      V == Force([i \in 1..n |-> [j \in 1..r |-> e[2][i][n + 1 - j]]]) IN MM3(A, V, Transp(V))
TruncGap(A, r) == LET e == EigH(SymH(MatMul(Transp(A), A)))[1] n == Len(e) IN
                  IF n <= r THEN N1 ELSE NDiv(NSub(e[n + 1 - r], e[n - r]), NMax(e[n], NDec("1e-300")))
DetNorm(x) == ArrScale(NExp(NDiv(NNeg(NLog(NRe(Det(x)))), NInt(Len(x)))), x)
PDRetr(x, u) == SymH(ArrAdd(ArrAdd(x, u), ArrScale(NHalf, MatMul(u, Solve(x, u)))))
Retr(M, x, u) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> Retr(Comp(M, i), x[i], u[i])])
  ELSE CASE M.kind \in {"euc", "sym", "skew", "psd"} -> ArrAdd(x, u)
    [] M.kind \in {"sph", "sphsub"} -> Normed(ArrAdd(x, u))
    [] M.kind = "obl" -> Transp(NormRows(Transp(ArrAdd(x, u))))
    [] M.kind = "ell" -> NormRows(ArrAdd(x, u))
    [] M.kind = "cc" -> LET f(a, b) == NDiv(NAdd(a, b), NAbs(NAdd(a, b))) IN Zip(f, x, u)
    [] M.kind = "gr" -> Polar(ArrAdd(x, u))
    [] M.kind \in {"st", "so", "u"} -> LET A == ArrAdd(x, Amb(M, x, u)) IN IF M.retr = "qr" THEN QR(A)[1] ELSE Polar(A)
    [] M.kind = "pd" -> PDRetr(x, u)
    [] M.kind = "spd" -> DetNorm(PDRetr(x, u))
    [] M.kind = "pos" -> ArrAdd(ArrAdd(x, u), ArrDiv(ArrMul(u, u), ArrScale(N2, x)))
    [] M.kind = "pb" -> Exp(M, x, u)
    [] M.kind = "fr" -> TruncSVD(ArrAdd(FRMat(x), Amb(M, x, u)), Len(x[2]))   \* as a matrix
(* does the retraction agree with geodesics to second order? *)
SecondOrder(M) == ~(M.kind \in {"st", "so", "u"} /\ M.retr = "qr") /\ M.kind # "psd"

(* --- equality of (classes of) points: size of the difference ---------------- *)
(* fr: b is the matrix; quotients: equality up to the group action             *)
Diff(M, a, b) ==
  IF Comp2(M) THEN MaxOf([i \in 1..Comps(M) |-> Diff(Comp(M, i), a[i], b[i])])
  ELSE IF ~AllFin(a) THEN NInf
  ELSE CASE M.kind = "fr" -> MaxAbs(ArrSub(FRMat(a), b))
    [] M.kind = "gr" -> MaxAbs(ArrSub(MatMul(a, Herm(a)), MatMul(b, Herm(b))))
    [] M.kind \in {"psd", "ell"} -> NDiv(MaxAbs(ArrSub(MatMul(a, Herm(a)), MatMul(b, Herm(b)))), NMax(N1, MaxAbs(b)))
    [] OTHER -> MaxAbs(ArrSub(a, b))
(* factor by which rounding errors may be amplified at x *)
RECURSIVE Size(_, _)
Cond(M, x) ==
  IF Comp2(M) THEN MaxOf([i \in 1..Comps(M) |-> Cond(Comp(M, i), x[i])])
  ELSE CASE M.kind \in {"pd", "spd"} -> LET e == EigH(SymH(x))[1] IN NDiv(e[Len(e)], NMax(e[1], NDec("1e-30")))
    [] M.kind = "pb" -> NSq(Lam(x))
    [] M.kind \in {"psd", "ell"} -> LET e == EigH(MatMul(Herm(x), x))[1] IN NDiv(e[Len(e)], NMax(e[1], NDec("1e-30")))
    [] M.kind = "fr" -> NDiv(MaxOf(x[2]), MinOf(x[2]))
    [] OTHER -> N1
Size(M, x) == NMax(N1, MaxAbs(IF M.kind = "fr" THEN x[2] ELSE x))

(* --- test costs -------------------------------------------------------------- *)
(* general:  F(X) = 1/2 sum w |x|^2 + Re<B,X> + 1/2 (Re<C,X>)^2                  *)
(* invariant under X -> XQ:  F(Y) = 1/2 tr(Y^H A Y) + 1/4 tr((Y^H C Y)^2)        *)
(* c = [inv, A, B, C]; the gradient G satisfies Re<G, u> = DF[u]                 *)
RECURSIVE CostF(_, _, _), CostG(_, _, _), CostH(_, _, _, _), AmbPoint(_, _)
AmbPoint(M, x) == IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> AmbPoint(Comp(M, i), x[i])])
                  ELSE IF M.kind = "fr" THEN FRMat(x) ELSE x
CostF(M, c, X) ==
  IF Comp2(M) THEN LET f(i) == CostF(Comp(M, i), c[i], X[i]) IN SumOf(f, Comps(M))
  ELSE IF Quot(M) THEN LET K == MM3(Herm(X), c.C, X) IN
       NAdd(NMul(NHalf, RDot(X, MatMul(c.A, X))), NMul(NDec("0.25"), RDot(K, K)))
  ELSE NAdd(NAdd(NMul(NHalf, RDot(X, ArrMul(c.A, X))), RDot(c.B, X)), NMul(NHalf, NSq(RDot(c.C, X))))
CostG(M, c, X) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> CostG(Comp(M, i), c[i], X[i])])
  ELSE IF Quot(M) THEN ArrAdd(MatMul(c.A, X), MatMul(MatMul(c.C, X), MM3(Herm(X), c.C, X)))
  ELSE ArrAdd(ArrAdd(ArrMul(c.A, X), c.B), ArrScale(RDot(c.C, X), c.C))
CostH(M, c, X, u) ==
  IF Comp2(M) THEN Force([i \in 1..Comps(M) |-> CostH(Comp(M, i), c[i], X[i], u[i])])
  ELSE IF Quot(M) THEN LET CX == MatMul(c.C, X) IN
       ArrAdd(ArrAdd(MatMul(c.A, u), MatMul(MatMul(c.C, u), MatMul(Herm(X), CX))),
              MatMul(CX, ArrAdd(MatMul(Herm(u), CX), MM3(Herm(X), c.C, u))))
  ELSE ArrAdd(ArrMul(c.A, u), ArrScale(RDot(c.C, u), c.C))

(* derivatives along geodesics, by central differences with 44 digits *)
HStep == NDec("1e-9")
D1(f(_)) == NDiv(NSub(f(HStep), f(NNeg(HStep))), NMul(N2, HStep))
D2(f(_)) == NDiv(NAdd(NSub(f(HStep), NMul(N2, f(N0))), f(NNeg(HStep))), NSq(HStep))
AlongExp(M, c, x, u) == LET f(t) == CostF(M, c, Exp(M, x, ArrScale(t, u))) IN D2(f)

(* --- dimension ----------------------------------------------------------------- *)
RECURSIVE Dim(_)
Dim(M) ==
  IF IsProd(M) THEN LET RECURSIVE s(_)
                        s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + Dim(M.f[i]) IN s(Len(M.f))
  ELSE LET n == M.shape[1]
           p == IF Len(M.shape) > 1 THEN M.shape[2] ELSE 1
           size == LET RECURSIVE m(_)
                       m(i) == IF i = 0 THEN 1 ELSE m(i - 1) * M.shape[i] IN m(Len(M.shape))
           c == IF M.cplx THEN 2 ELSE 1 IN
    M.k * (CASE M.kind \in {"euc", "pos", "pb"} -> c * size
      [] M.kind = "sym" -> (n * (n + 1)) \div 2
      [] M.kind \in {"skew", "so"} -> (n * (n - 1)) \div 2
      [] M.kind = "sph" -> size - 1
      [] M.kind = "sphsub" -> LET r == RankOf([j \in DOMAIN M.span[1] |-> Transp(M.span)[j]], T12) IN (IF M.comp THEN n - r ELSE r) - 1
      [] M.kind = "obl" -> (n - 1) * p
      [] M.kind = "ell" -> n * (p - 1) - (p * (p - 1)) \div 2
      [] M.kind = "cc" -> n
      [] M.kind = "st" -> n * p - (p * (p + 1)) \div 2
      [] M.kind = "gr" -> c * (n * p - p * p)
      [] M.kind = "u" -> n * n
      [] M.kind = "pd" -> IF M.cplx THEN n * n ELSE (n * (n + 1)) \div 2
      [] M.kind = "spd" -> IF M.cplx THEN n * n - 1 ELSE (n * (n + 1)) \div 2 - 1
      [] M.kind = "psd" -> IF M.cplx THEN 2 * n * p - p * p ELSE n * p - (p * (p - 1)) \div 2
      [] M.kind = "fr" -> (n + p - M.shape[3]) * M.shape[3])
(* dimension of the real span of the projections of an ambient basis (vs: projected basis vectors) *)
RECURSIVE AmbShape(_)
AmbShape(M) == IF M.kind = "fr" THEN <<M.shape[1], M.shape[2]>> ELSE M.shape
RECURSIVE UnitArr(_, _, _)    \* array of shape sh, z at flat position i (1-based), 0 elsewhere
UnitArr(sh, i, z) == IF sh = <<>> THEN (IF i = 1 THEN z ELSE N0)
  ELSE LET RECURSIVE sz(_)
           sz(s) == IF s = <<>> THEN 1 ELSE s[1] * sz(Tail(s))
           b == sz(Tail(sh)) IN [j \in 1..sh[1] |-> UnitArr(Tail(sh), i - (j - 1) * b, z)]
ArrSize(sh) == LET RECURSIVE sz(_)
                   sz(s) == IF s = <<>> THEN 1 ELSE s[1] * sz(Tail(s)) IN sz(sh)
AmbBasis(M) == LET sh == AmbShape(M) n == ArrSize(sh) IN      \* one copy
  [i \in 1..(IF M.cplx THEN 2 * n ELSE n) |-> Force(UnitArr(sh, IF i > n THEN i - n ELSE i, IF i > n THEN NCplx(N0, N1) ELSE N1))]
TangentSpan(M, x) == LET B == AmbBasis(M) IN [i \in DOMAIN B |-> Proj(M, x, B[i])]
=============================================================================
