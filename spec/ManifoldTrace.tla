---------------------------- MODULE ManifoldTrace ----------------------------
(***************************************************************************)
(* Recorded histories of calls to a real manifold, judged against Geometry. *)
(* A trace is [m |-> manifold descriptor, h |-> events]; an event records   *)
(* one group of calls [op, operands, results, exc].  VP_PROP selects the    *)
(* property whose clauses are evaluated.                                    *)
(***************************************************************************)
EXTENDS Geometry, NumJson, TLC

Traces == NJLoad(NJEnv("VP_TRACES"))
PROP == NJEnv("VP_PROP")
CAL == NJEnv("VP_CAL") = "1"
VARIABLES tid, i, bad, dead
vars == <<tid, i, bad, dead>>
T == Traces[tid]
M == T.m
H == T.h
E == H[i]

On(p) == PROP = p
(* a clause: its property, name, size of the deviation and what is tolerated *)
L(p, name, err, tol) ==
  IF ~On(p) THEN {}
  ELSE (IF CAL THEN (IF NJEmit([cal |-> name, kind |-> M.kind, op |-> E.op, r |-> NDiv(err, tol)]) THEN {} ELSE {}) ELSE {})
       \cup (IF NLe(err, tol) THEN {} ELSE {<<name, i>>})
B(p, name, ok) == IF On(p) /\ ~ok THEN {<<name, i>>} ELSE {}

eps == NDec("1e-10")
RECURSIVE VMax(_)
VMax(s) == MaxOf(s)
(* rounding errors are relative to the sizes of the operands, amplified by the conditioning of the points *)
PT(x) == NMul(eps, NMul(Cond(M, x), NSq(Size(M, x))))
TT(x, u) == NMul(eps, NMul(Cond(M, x), MaxAbs(u)))
AmbSub(M0, x, u, v) == MaxAbs(ArrSub(u, v))
(* the angle between unit vectors is only determined up to 1e-16 / sin *)
AngTol(M0, d) == IF M0.kind = "gr" THEN NDec("2e-6") ELSE IF M0.kind \in {"sph", "sphsub", "obl", "cc", "gr", "prod"} THEN NDec("3e-7") ELSE NDec("1e-8")
(* the smallest sine of an angle between x and y *)
RECURSIVE WorstSin(_, _, _)
WorstSin(M0, x, y) ==
  LET s(a) == NAbs(NSin(a)) IN
  IF Comp2(M0) THEN LET f[j \in 0..Comps(M0)] == IF j = 0 THEN N1 ELSE NMin(f[j - 1], WorstSin(Comp(M0, j), x[j], y[j])) IN f[Comps(M0)]
  ELSE CASE M0.kind \in {"sph", "sphsub"} -> s(Angle(x, y))
    [] M0.kind = "obl" -> LET A == Transp(x) C == Transp(y) f[j \in 0..Len(A)] == IF j = 0 THEN N1 ELSE NMin(f[j - 1], s(Angle(A[j], C[j]))) IN f[Len(A)]
    [] M0.kind = "cc" -> LET f[j \in 0..Len(x)] == IF j = 0 THEN N1 ELSE NMin(f[j - 1], NAbs(NIm(NMul(NConj(x[j]), y[j])))) IN f[Len(x)]
    [] M0.kind = "gr" -> LET R == ArrSub(y, MatMul(x, GrPair(x, y))) IN NSqrt(Pos0(EigSmall(MatMul(Herm(R), R))))
    [] OTHER -> N1
PairTol(x, y) == NMul(NMul(IF M.kind \in {"sph", "sphsub", "obl", "cc", "gr"} \/ Comp2(M)
                           THEN NMin(AngTol(M, N0), NAdd(NDec("1e-9"), NDiv(NDec("2e-14"), NMax(WorstSin(M, x, y), NDec("1e-30"))))) ELSE AngTol(M, N0),
                           NMax(Cond(M, x), Cond(M, y))), NMax(N1, NMax(Size(M, x), Size(M, y))))
(* vectors of tiny size carry absolute rounding errors of the points they were computed from *)
UM(u) == NMax(MaxAbs(u), NDec("1e-4"))
Valid(p, name, x) ==
  IF ~PointShape(M, x) THEN B(p, name \o ": shape", FALSE)
  ELSE L(p, name \o ": not on the manifold", MemberRes(M, x), NMul(NDec("1e-9"), Cond(M, x)))
Tangent(p, name, x, u) ==
  IF ~TangentShape(M, u) THEN B(p, name \o ": shape", FALSE)
  ELSE L(p, name \o ": not tangent", TangentRes(M, x, u), NMul(NDec("1e-9"), NMul(Cond(M, x), NMul(Size(M, x), UM(u)))))
SamePoint(p, name, r, s, tol) == IF ~PointShape(M, r) THEN B(p, name \o ": shape", FALSE) ELSE L(p, name, Diff(M, r, s), tol)
(* what is linear stays so for tiny and huge operands *)
Scaled(p, name, x, rs, s, r, scale) ==
  IF ~TangentShape(M, rs) THEN B(p, name \o ": scaled operands: shape", FALSE)
  ELSE IF ~AllFin(rs) THEN B(p, name \o ": scaled operands: not finite", FALSE)
  ELSE L(p, name \o ": wrong for scaled operands", MaxAbs(ArrSub(rs, ArrScale(s, r))), NMul(s, NMul(NMul(eps, Cond(M, x)), scale)))
SameVec(p, name, x, r, s, scale) ==
  IF ~TangentShape(M, r) THEN B(p, name \o ": shape", FALSE)
  ELSE IF ~AllFin(r) THEN B(p, name \o ": not finite", FALSE)
  ELSE L(p, name, MaxAbs(ArrSub(r, s)), NMul(NMul(eps, Cond(M, x)), scale))
RealNum(a) == NIsNum(a) /\ NIsReal(a)
AllNum(a) == IsArr(a)
ULen(x, u) == NMax(Norm(M, x, u), NDec("1e-300"))
AL == E.al
BE == E.be
LinC(u, v) == LinComb(AL, u, BE, v)

HasEll == IsProd(M) /\ \E j \in DOMAIN M.f : M.f[j].kind = "ell"
HasFR == IsProd(M) /\ \E j \in DOMAIN M.f : M.f[j].kind = "fr"
RightMul(a) == IF IsStack(M) THEN Force([j \in 1..M.k |-> MatMul(a[j], E.q[j])]) ELSE MatMul(a, E.q)
RECURSIVE ISum(_, _)
ISum(s, n) == IF n = 0 THEN 0 ELSE s[n] + ISum(s, n - 1)

Point == Valid("C15", "random point", E.r) \cup Valid("C15", "random point", E.r2) \cup B("C15", "random point: the same again", Dim(M) = 0 \/ E.r # E.r2) \cup B("C15", "random point: complex entries", E.real \/ M.cplx \/ IsProd(M))
RandTangent == Tangent("C16", "random tangent vector", E.x, E.r)
  \cup (IF TangentShape(M, E.r) /\ AllFin(E.r) THEN L("C16", "random tangent vector: not of unit norm", NAbs(NSub(Norm(M, E.x, E.r), N1)), NMul(NDec("1e-9"), Cond(M, E.x))) ELSE {})
Zero == IF ~TangentShape(M, E.r) THEN B("C16", "zero vector: shape", FALSE)
        ELSE B("C16", "zero vector: not zero", AllFin(E.r) /\ MaxAbs(E.r) = N0)
             \cup L("C16", "zero vector: norm", NAbs(E.norm), N0)
             \cup L("C16", "zero vector: not neutral", MaxAbs(ArrSub(E.sum, E.u)), N0)
ExpC == Valid("C15", "exponential", E.r)
  \cup (IF HasExp(M) /\ M.kind # "ell" /\ ~HasEll THEN SamePoint("C20", "exponential: wrong point", E.r, Exp(M, E.x, E.u),
          NMul(PT(E.x), NMul(NMax(N1, Size(M, E.r)), NMax(N1, NMul(MaxAbs(E.u), MaxAbs(E.u)))))) ELSE {})
LogC ==
  IF ~LogOK(M, E.x, E.y) THEN {}
  ELSE LET o == Log(M, E.x, E.y) IN
    Tangent("C16", "logarithm", E.x, E.r)
    \cup (IF ~TangentShape(M, E.r) THEN B("C20", "logarithm: shape", FALSE)
          ELSE L("C20", "logarithm: wrong vector", IF AllFin(E.r) THEN MaxAbs(ArrSub(E.r, o)) ELSE NInf, PairTol(E.x, E.y))
               \cup L("C19", "logarithm: norm is not the distance", NAbs(NSub(E.norm, Dist(M, E.x, E.y))), PairTol(E.x, E.y)))
MeanC ==
  IF ~LogOK(M, E.x, E.y) THEN {}
  ELSE Valid("C15", "pair mean", E.r)
    \cup SamePoint("C20", "pair mean: not the midpoint", E.r, Exp(M, E.x, ArrScale(NHalf, Log(M, E.x, E.y))),
           NMul(NMul(NDec("1e-9"), NMax(Cond(M, E.x), Cond(M, E.y))), NMul(Size(M, E.x), Size(M, E.y))))
DistTol(x, y) == PairTol(x, y)
DistC == LET o == Dist(M, E.x, E.y) tol == DistTol(E.x, E.y) IN
  L("C19", "distance: wrong value", IF RealNum(E.r) THEN NAbs(NSub(E.r, o)) ELSE NInf, tol)
  \cup L("C19", "distance: not symmetric", NAbs(NSub(E.r, E.r2)), tol)
  \cup L("C19", "distance: negative", NNeg(E.r), N0)
  \cup L("C19", "distance: triangle inequality", NSub(E.r, NAdd(E.rxz, E.rzy)), NMul(N2, NMax(tol, DistTol(E.z, E.z))))
  \cup L("C19", "distance: not zero for equal points", NAbs(E.rxx), NMul(NMul(AngTol(M, N0), Cond(M, E.x)), Size(M, E.x)))
InnerC == LET sc == NMul(ULen(E.x, E.u), ULen(E.x, E.v)) tol == NMul(NMul(NDec("1e-9"), Cond(M, E.x)), sc) IN
  B("C18", "inner product: not real", RealNum(E.r))
  \cup (IF ~RealNum(E.r) THEN {} ELSE L("C18", "inner product: wrong value", NAbs(NSub(E.r, Inner(M, E.x, E.u, E.v))), tol)
  \cup L("C18", "inner product: not symmetric", NAbs(NSub(E.r, E.r2)), tol)
  \cup L("C18", "inner product: wrong value for tiny vectors", IF RealNum(E.rs) THEN NAbs(NSub(E.rs, NMul(NSq(E.s), E.r))) ELSE NInf, NMul(NSq(E.s), tol))
  \cup L("C18", "inner product: not linear", NAbs(NSub(E.rc, NAdd(NMul(AL, E.ruu), NMul(BE, E.r)))), NMul(NMul(NDec("1e-9"), Cond(M, E.x)), NMul(NInt(4), NMax(sc, NSq(ULen(E.x, E.u)))))))
NormC == B("C18", "norm: not real", RealNum(E.r))
  \cup (IF ~RealNum(E.r) THEN {} ELSE L("C18", "norm: wrong value", NAbs(NSub(E.r, Norm(M, E.x, E.u))), NMul(NMul(NDec("1e-9"), Cond(M, E.x)), Norm(M, E.x, E.u)))
  \cup L("C18", "norm: depends on the scale", NAbs(NSub(E.rs, NMul(E.s, E.r))), NMul(NMul(NDec("1e-9"), Cond(M, E.x)), NMul(E.s, E.r))))
ProjC == LET sc == NMax(MaxAbs(E.a), NDec("1e-300")) n == MaxAbs(E.x) a == IF "amat" \in DOMAIN E THEN E.amat ELSE E.a IN
  IF ~TangentShape(M, E.r) THEN B("C17", "projection: shape", FALSE) \cup B("C16", "projection: shape", FALSE)
  ELSE Tangent("C16", "projection", E.x, IF MaxAbs(E.r) = N0 THEN E.r ELSE E.r)
   \cup L("C17", "projection: not tangent", TangentRes(M, E.x, E.r), NMul(NMul(NDec("1e-9"), Cond(M, E.x)), sc))
   \cup SameVec("C17", "projection: not the orthogonal projection", E.x, E.r, Proj(M, E.x, a), NMul(NInt(10), sc))
   \cup (IF AllFin(E.r) /\ ~HasFR THEN L("C17", "projection: residual not orthogonal",
            NAbs(ProjInner(M, E.x, ArrSub(a, Amb(M, E.x, E.r)), Amb(M, E.x, E.u))),
            NMul(NMul(NDec("1e-8"), NSq(Cond(M, E.x))), NMul(sc, NMax(MaxAbs(E.u), NDec("1e-300"))))) ELSE {})
   \cup Scaled("C17", "projection", E.x, E.rs, E.s, E.r, NMul(NInt(10), sc))
   \cup (IF E.lin THEN SameVec("C17", "projection: not linear", E.x, E.rc, LinC(E.r, E.rb), NMul(NInt(10), NMax(sc, MaxAbs(E.b)))) ELSE {})
ProjTan == SameVec("C17", "projection of a tangent vector: changed", E.x, E.r, E.u, NMul(NInt(10), NMul(Size(M, E.x), UM(E.u))))
  \cup (IF E.embok THEN L("C17", "embedding: wrong vector", MaxAbs(ArrSub(E.e, Amb(M, E.x, E.u))), NMul(NMul(eps, NInt(10)), NMul(Size(M, E.x), NMax(MaxAbs(E.u), NDec("1e-300"))))) ELSE {})
TtsC == SameVec("C16", "to_tangent_space: changes tangent vectors", E.x, E.r, E.u, NMul(NInt(10), NMul(Size(M, E.x), UM(E.u))))
  \cup (IF E.wok THEN Tangent("C16", "to_tangent_space", E.x, E.rw) ELSE {})
(* how fast tangent spaces turn *)
RECURSIVE Small(_, _)
Small(M0, x) == IF IsProd(M0) THEN MaxOf([j \in DOMAIN M0.f |-> Small(M0.f[j], x[j])])
                ELSE IF M0.kind = "fr" THEN NDiv(N1, MinOf(x[2])) ELSE N1
TransportC == LET sc == NMul(NInt(10), NMul(NMax(N1, NAbs(AL)), NMul(Size(M, E.x), NMax(UM(E.u), UM(E.v))))) IN
  Tangent("C16", "transport", E.y, E.ru)
  \cup Tangent("C22", "transport", E.y, E.ru)
  \cup (IF ~TangentShape(M, E.ru) \/ ~TangentShape(M, E.rc) \/ ~TangentShape(M, E.rx) THEN B("C22", "transport: shape", FALSE)
        ELSE SameVec("C22", "transport: not linear", E.y, E.rc, LinC(E.ru, E.rv), NMul(sc, Cond(M, E.x)))
        \cup Scaled("C22", "transport", E.y, E.rs, E.s, E.rv, NMul(sc, Cond(M, E.x)))
        \cup SameVec("C22", "transport: not the identity at one point", E.x, E.rx, E.u, NMul(sc, Cond(M, E.x)))
        \cup (IF M.par \/ M.kind \in {"euc", "sym", "skew"} THEN L("C22", "transport: not isometric",
                  NAbs(NSub(Inner(M, E.y, E.ru, E.rv), Inner(M, E.x, E.u, E.v))), NMul(NDec("1e-9"), NMul(ULen(E.x, E.u), ULen(E.x, E.v)))) ELSE {})
        \* close points: the transported vector is close to the vector
        \cup (IF E.close THEN L("C22", "transport: not continuous", MaxAbs(ArrSub(Amb(M, E.y, E.ru), Amb(M, E.x, E.u))),
                  NMul(NDec("1e-4"), NMul(NSq(NMax(NMax(Cond(M, E.x), Small(M, E.x)), Size(M, E.x))), NMax(MaxAbs(E.u), NDec("1e-300"))))) ELSE {}))
(* the matrix that is retracted to is determined however small its singular values are *)
PTR(x) == IF M.kind = "fr" THEN NMul(eps, NSq(Size(M, x))) ELSE PT(x)
RetrC == Valid("C15", "retraction", E.r)
  \cup SamePoint("C21", "retraction: wrong point", E.r, Retr(M, E.x, E.u),
      NMul(PTR(E.x), NMul(NMax(N1, NDiv(Size(M, E.r), Size(M, E.x))), NMax(N1, MaxAbs(E.u)))))
  \cup SamePoint("C21", "retraction: zero vector moves the point", E.r0, AmbPoint(M, E.x), PTR(E.x))
GradC == LET X == AmbPoint(M, E.x) G == CostG(M, E.c, X) gs == NMul(NMax(N1, MaxAbs(G)), NMul(NSq(Size(M, E.x)), E.cond)) IN
  Tangent("C16", "gradient", E.x, E.r) \cup Tangent("C13", "gradient", E.x, E.r)
  \cup (IF ~TangentShape(M, E.r) \/ ~AllFin(E.r) THEN B("C13", "gradient: not finite", FALSE)
        ELSE UNION {L("C13", "gradient: not the gradient",
              NAbs(NSub(Inner(M, E.x, E.r, E.us[j]), RDot(G, Amb(M, E.x, E.us[j])))),
              NMul(NMul(NDec("1e-9"), NMul(gs, IF M.kind = "fr" THEN Cond(M, E.x) ELSE NSq(Cond(M, E.x)))), UM(E.us[j]))) : j \in DOMAIN E.us}
             \cup Scaled("C13", "gradient", E.x, E.rs, E.s, E.r, NMul(NInt(10), NMul(gs, NSq(Cond(M, E.x))))))
HessC == LET X == AmbPoint(M, E.x) G == CostG(M, E.c, X)
             gs == NMul(NMul(NMax(N1, NMax(MaxAbs(G), E.hs)), NSq(Size(M, E.x))), NSq(Cond(M, E.x)))
             tl(a, b) == NMul(NMul(NDec("1e-8"), gs), NMul(UM(a), UM(b))) IN
  Tangent("C16", "Hessian", E.x, E.hu) \cup Tangent("C14", "Hessian", E.x, E.hu)
  \cup (IF ~TangentShape(M, E.hu) \/ ~TangentShape(M, E.hv) \/ ~TangentShape(M, E.hc) \/ ~AllFin(<<E.hu, E.hv, E.hc>>) THEN B("C14", "Hessian: not finite", FALSE)
        ELSE L("C14", "Hessian: not symmetric", NAbs(NSub(Inner(M, E.x, E.hu, E.v), Inner(M, E.x, E.u, E.hv))), tl(E.u, E.v))
          \cup Scaled("C14", "Hessian", E.x, E.hus, E.s, E.hu, NMul(NMul(NInt(100), gs), UM(E.u)))
          \cup L("C14", "Hessian: not linear", MaxAbs(ArrSub(E.hc, LinC(E.hu, E.hv))), NMul(NMul(NDec("1e-8"), gs), NMul(NMax(N1, NAbs(AL)), NMax(UM(E.u), UM(E.v)))))
          \cup (IF NLt(NDec("1e-6"), MaxAbs(E.u)) THEN LET w == ArrScale(NDiv(N1, MaxAbs(E.u)), E.u) hw == ArrScale(NDiv(N1, MaxAbs(E.u)), E.hu) IN
                 L("C14", "Hessian: not the second derivative", NAbs(NSub(Inner(M, E.x, hw, w), AlongExp(M, E.c, E.x, w))), tl(w, w)) ELSE {}))
(* <W(u, n), u> = <acceleration of the geodesic, n> for normal vectors n *)
WeinC == IF ~TangentShape(M, E.ru) THEN B("C14", "Weingarten map: shape", FALSE)
  ELSE LET un == NMax(MaxAbs(E.u), NDec("1e-300")) w == ArrScale(NDiv(N1, un), E.u) rw == ArrScale(NDiv(N1, un), E.ru)
           a == ArrScale(NDiv(N1, NSq(HStep)), ArrSub(ArrAdd(Exp(M, E.x, ArrScale(HStep, w)), Exp(M, E.x, ArrScale(NNeg(HStep), w))), ArrScale(N2, E.x)))
           n == ArrSub(E.n, Proj(M, E.x, E.n)) ns == NMax(N1, MaxAbs(E.n)) IN
    Tangent("C14", "Weingarten map", E.x, E.ru)
    \cup (IF NLt(NDec("1e-6"), un) THEN L("C14", "Weingarten map: wrong value", NAbs(NSub(RDot(rw, w), RDot(a, n))), NMul(NDec("1e-8"), ns)) ELSE {})
    \cup L("C14", "Weingarten map: not symmetric", NAbs(NSub(RDot(E.ru, E.v), RDot(E.u, E.rv))), NMul(NDec("1e-9"), NMul(ns, NMul(UM(E.u), UM(E.v)))))
(* dimension and layout *)
LayoutOf(m) == IF m.kind = "fr" THEN 3 ELSE 1
RECURSIVE SumLay(_)
SumLay(j) == IF j = 0 THEN 0 ELSE SumLay(j - 1) + LayoutOf(M.f[j])
RankHere(x) == LET RECURSIVE rk(_)
                   one(m, y) == RankOf(TangentSpan(m, y), NDec("1e-7"))
                   rk(j) == IF j = 0 THEN 0 ELSE rk(j - 1) + (IF IsStack(Comp(M, j)) THEN Comp(M, j).k * one(Comp(Comp(M, j), 1), x[j][1]) ELSE one(Comp(M, j), x[j])) IN
               IF Comp2(M) THEN rk(Comps(M)) ELSE one(M, x)
DimsC ==
  (IF On("C24") /\ E.dim # Dim(M) THEN {<<"dimension", i, E.dim>>} ELSE {})
  \cup (IF On("C24") /\ E.rank /\ RankHere(E.x) # Dim(M) THEN B("C24", "spec-dimension", FALSE) ELSE {})
  \cup B("C24", "point layout", IF IsProd(M) THEN E.layout = [j \in DOMAIN M.f |-> LayoutOf(M.f[j])] ELSE E.layout = LayoutOf(M))
  \cup B("C24", "number of values", E.num = (IF IsProd(M) THEN SumLay(Len(M.f)) ELSE LayoutOf(M)))
  \cup B("C24", "shape of points", PointShape(M, E.x))
(* parts: results of the same call on the components (C23, C25) *)
PartsC == LET P == IF IsProd(M) THEN "C23" ELSE "C25" sc == NMul(NDec("1e-9"), E.scale)
             \* what depends on two points carries their rounding errors, however close they are
             fl == IF E.what \in {"log", "pair_mean", "transport", "dist"} THEN NDec("1e-2") ELSE NDec("1e-300") IN
  CASE E.how = "each" -> B(P, E.what \o ": number of components", HasLen(E.r, Len(E.parts)))
                          \cup (IF HasLen(E.r, Len(E.parts)) THEN UNION {L(P, E.what \o ": differs from the component's result",
                                IF SameShape(E.r[j], E.parts[j]) /\ AllFin(E.r[j]) THEN MaxAbs(ArrSub(E.r[j], E.parts[j])) ELSE NInf, NMul(sc, NMax(fl, MaxAbs(E.parts[j])))) : j \in DOMAIN E.parts} ELSE {})
    [] E.how = "class" -> B(P, E.what \o ": number of components", HasLen(E.r, Len(E.parts)))
                          \cup (IF HasLen(E.r, Len(E.parts)) THEN UNION {L(P, E.what \o ": differs from the component's result",
                                IF SameShape(E.r[j], E.parts[j]) /\ AllFin(E.r[j]) THEN Diff(Comp(M, j), E.r[j], IF Comp(M, j).kind = "fr" THEN FRMat(E.parts[j]) ELSE E.parts[j]) ELSE NInf, NMul(sc, NMax(N1, MaxAbs(E.parts[j])))) : j \in DOMAIN E.parts} ELSE {})
    [] E.how = "sum" -> L(P, E.what \o ": not the sum over components", IF NIsNum(E.r) THEN NAbs(NSub(E.r, ArrSum(E.parts))) ELSE NInf, NMul(sc, NMax(NDec("1e-300"), MaxAbs(E.parts))))
    [] E.how = "rss" -> L(P, E.what \o ": squares do not add up", IF NIsNum(E.r) THEN NAbs(NSub(E.r, ArrNorm(E.parts))) ELSE NInf, NMul(NMul(sc, E.dtol), NMax(fl, MaxAbs(E.parts))))
    [] E.how = "distinct" -> B(P, E.what \o ": equal components", \A a, b \in DOMAIN E.parts : a # b /\ E.parts[a] = E.parts[b] => E.r[a] # E.r[b])
                             \* nor do positive definite ones share their eigenvectors
                             \cup B(P, E.what \o ": commuting components", M.kind \in {"pd", "spd"} /\ E.what = "random_point" /\ M.shape[1] > 1 =>
                                   \A a, b \in DOMAIN E.r : a # b => NLt(NDec("1e-9"), MaxAbs(ArrSub(MatMul(E.r[a], E.r[b]), MatMul(E.r[b], E.r[a])))))
    [] E.how = "isum" -> B(P, E.what \o ": not the sum over components", E.r = ISum(E.parts, Len(E.parts)))
(* results at an equivalent representative (C27): Q the group element *)
ReprC ==
  CASE E.how = "num" -> L("C27", E.what, IF NIsNum(E.r) /\ NIsNum(E.rq) THEN NAbs(NSub(E.r, E.rq)) ELSE NInf, NMul(AngTol(M, N0), NMul(Cond(M, E.x), NMax(N1, E.scale))))
    [] E.how = "point" -> L("C27", E.what, Diff(M, E.rq, E.r), NMul(NDec("1e-9"), NMul(NSq(Cond(M, E.x)), NMax(N1, E.scale))))
    [] E.how = "vec" -> L("C27", E.what, MaxAbs(ArrSub(E.rq, RightMul(E.r))), NMul(NMul(AngTol(M, N0), NSq(Cond(M, E.x))), NMax(N1, E.scale)))
PureC == B("C26", E.what \o ": modified its input", E.mut = <<>>) \cup B("C26", E.what \o ": not deterministic", E.same)
NotImpl == B(PROP, E.what \o ": not refused", E.refused)

Judge ==
  IF E.exc # "" THEN {<<"exception in " \o E.op, i, E.exc>>}
  ELSE CASE E.op = "random_point" -> Point [] E.op = "rand_tangent" -> RandTangent [] E.op = "zero" -> Zero
    [] E.op = "exp" -> ExpC [] E.op = "log" -> LogC [] E.op = "mean" -> MeanC [] E.op = "dist" -> DistC
    [] E.op = "inner" -> InnerC [] E.op = "norm" -> NormC [] E.op = "proj" -> ProjC [] E.op = "projtan" -> ProjTan
    [] E.op = "tts" -> TtsC [] E.op = "transport" -> TransportC [] E.op = "retr" -> RetrC [] E.op = "grad" -> GradC
    [] E.op = "hess" -> HessC [] E.op = "wein" -> WeinC [] E.op = "dims" -> DimsC [] E.op = "parts" -> PartsC
    [] E.op = "repr" -> ReprC [] E.op = "pure" -> PureC [] E.op = "notimpl" -> NotImpl
(* beyond the cut locus a logarithm and what is built from it mean nothing *)
Cut == E.exc = "" /\ E.op \in {"log", "mean"} /\ ~LogOK(M, E.x, E.y)

Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ dead = FALSE
Event == /\ i <= Len(H) /\ ~dead
         /\ bad' = bad \cup Judge /\ dead' = (Cut \/ E.exc # "") /\ i' = i + 1 /\ tid' = tid
End == /\ (i = Len(H) + 1 \/ (dead /\ i <= Len(H)))
       /\ NJEmit([tid |-> tid, bad |-> bad]) /\ i' = Len(H) + 2 /\ UNCHANGED <<tid, bad, dead>>
Next == Event \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
