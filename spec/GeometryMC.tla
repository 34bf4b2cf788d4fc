----------------------------- MODULE GeometryMC -----------------------------
(***************************************************************************)
(* Design check of Geometry: a point walks over each manifold by geodesics  *)
(* and retractions along tangent directions of several lengths; in every    *)
(* reachable state the geometric laws hold for every enumerated vector.     *)
(***************************************************************************)
EXTENDS Geometry, TLC
CONSTANT Depth
q(a, b) == NDiv(NInt(a), NInt(b))
D(kind, shape, cplx, retr) == [kind |-> kind, shape |-> shape, k |-> 1, cplx |-> cplx, retr |-> retr, par |-> FALSE, span |-> <<>>, comp |-> FALSE, f |-> <<>>]
Span == << <<N1, N0>>, <<N2, N1>>, <<N0, q(1,3)>>, <<N1, N1>> >>
Ms == << D("euc", <<2>>, FALSE, ""), D("euc", <<2, 1>>, TRUE, ""), D("sym", <<2, 2>>, FALSE, ""), D("skew", <<3, 3>>, FALSE, ""),
  D("sph", <<3>>, FALSE, ""), D("sph", <<2, 2>>, FALSE, ""), [D("sphsub", <<4>>, FALSE, "") EXCEPT !.span = Span], [D("sphsub", <<4>>, FALSE, "") EXCEPT !.span = Span, !.comp = TRUE],
  D("obl", <<3, 2>>, FALSE, ""), D("st", <<3, 2>>, FALSE, "qr"), D("st", <<3, 2>>, FALSE, "polar"), D("gr", <<4, 2>>, FALSE, ""), D("gr", <<3, 1>>, TRUE, ""),
  D("cc", <<2>>, TRUE, ""), D("so", <<3, 3>>, FALSE, "qr"), D("so", <<3, 3>>, FALSE, "polar"), D("u", <<2, 2>>, TRUE, "qr"), D("u", <<2, 2>>, TRUE, "polar"),
  D("pd", <<2, 2>>, FALSE, ""), D("pd", <<2, 2>>, TRUE, ""), D("spd", <<2, 2>>, TRUE, ""), D("psd", <<3, 2>>, FALSE, ""), D("psd", <<3, 2>>, TRUE, ""),
  D("ell", <<3, 2>>, FALSE, ""), D("pos", <<2, 2>>, FALSE, ""), D("pb", <<2>>, FALSE, ""), D("fr", <<3, 4, 2>>, FALSE, "") >>
Mat(n, p) == [i \in 1..n |-> [j \in 1..p |-> IF i = j THEN N1 ELSE N0]]
Std(M) == Force(CASE M.kind \in {"euc", "pos"} -> LET f(a) == N1 IN Map1(f, UnitArr(M.shape, 1, N1))
  [] M.kind \in {"sym", "skew"} -> ArrZero(UnitArr(M.shape, 1, N1))
  [] M.kind = "sph" -> UnitArr(M.shape, 1, N1)
  [] M.kind = "sphsub" -> Normed(ApplyMV(SubProj(M), <<N1, N0, N0, N0>>))
  [] M.kind \in {"obl", "st", "gr", "so", "u", "pd", "spd"} -> Mat(M.shape[1], M.shape[2])
  [] M.kind = "ell" -> <<<<N1, N0>>, <<N0, N1>>, <<q(3,5), q(4,5)>>>>
  [] M.kind = "psd" -> <<<<N1, N0>>, <<N0, N2>>, <<q(1,2), N1>>>>
  [] M.kind = "cc" -> <<N1, NCplx(N0, N1)>>
  [] M.kind = "pb" -> <<q(1,4), q(0,1)>>
  [] M.kind = "fr" -> <<Mat(3, 2), <<N2, N1>>, Mat(2, 4)>>)
(* tangent directions: projections of a few fixed ambient vectors *)
Gen(M, s) == LET sh == AmbShape(M) n == ArrSize(sh)
                 val(i) == q(((s * 7 + i * i * 3 + i * s * 5) % 11) - 5, 7)
                 RECURSIVE b(_)
                 b(i) == IF i = 0 THEN ArrZero(UnitArr(sh, 1, N1))
                         ELSE ArrAdd(b(i - 1), UnitArr(sh, i, IF M.cplx THEN NCplx(val(i), val(i + s)) ELSE val(i))) IN b(n)
Vec(M, x, s) == Proj(M, x, Gen(M, s))
Unit(M, x, s) == LET v == Vec(M, x, s) IN ArrScale(NDiv(N1, Norm(M, x, v)), v)
Lens == <<NDec("1e-7"), q(1, 3), q(9, 10)>>

VARIABLES m, x, x0, d
M == Ms[m]
Init == m \in 1..Len(Ms) /\ x = Std(Ms[m]) /\ x0 = x /\ d = 0
Step(s, l) == LET u == ArrScale(Lens[l], Unit(M, x, s)) IN
   x' \in IF HasExp(M) THEN {Force(Exp(M, x, u))} \cup (IF M.kind # "psd" /\ l = 3 THEN {Force(Retr(M, x, u))} ELSE {}) ELSE {x}
Next == d < Depth /\ d' = d + 1 /\ m' = m /\ x0' = x /\ \E s \in {1, 4}, l \in 1..3 : Step(s, l)
Spec == Init /\ [][Next]_<<m, x, x0, d>>

tight == NDec("1e-24")
small(e) == NLe(e, tight)
Say(b, what) == b \/ (PrintT(<<"LAW", what, M.kind, M.shape, M.cplx, M.retr, d>>) /\ FALSE)
U == Unit(M, x, 2)
V == Vec(M, x, 3)
Members == Say(small(MemberRes(M, x)), "member") /\ Say(small(TangentRes(M, x, U)) /\ small(TangentRes(M, x, V)), "tangent")
Projections ==
  LET a == Gen(M, 5) p == Proj(M, x, a) IN
  /\ Say(small(MaxAbs(ArrSub(Proj(M, x, Amb(M, x, p)), p))), "idempotent")
  /\ Say(small(NAbs(ProjInner(M, x, ArrSub(a, Amb(M, x, p)), Amb(M, x, U)))), "residual orthogonal")
Geodesics == HasExp(M) =>
  LET h == q(2, 5) y == Exp(M, x, ArrScale(h, U))
      c(t) == Exp(M, x, ArrScale(t, U)) IN
  /\ Say(small(MemberRes(M, y)), "exp member")
  /\ LET dv == ArrScale(NDiv(N1, NMul(N2, HStep)), ArrSub(c(HStep), c(NNeg(HStep)))) IN
     Say(NLe(MaxAbs(ArrSub(dv, Amb(M, x, U))), NDec("1e-14")), "velocity")
  /\ (M.kind \notin {"pd", "spd", "pos", "pb"} =>
       LET a == ArrScale(NDiv(N1, NSq(HStep)), ArrSub(ArrAdd(c(HStep), c(NNeg(HStep))), ArrScale(N2, x))) IN
       Say(NLe(NAbs(RDot(a, Amb(M, x, V))), NDec("1e-12")), "normal acceleration"))
  /\ (HasDist(M) => Say(small(NAbs(NSub(Dist(M, x, y), h))), "distance along geodesic"))
  /\ (HasLog(M) => Say(LogOK(M, x, y) /\ small(MaxAbs(ArrSub(Log(M, x, y), ArrScale(h, U)))), "log inverts exp"))
  /\ (HasLog(M) => LET z == Exp(M, x, ArrScale(q(1,5), V)) w == Log(M, z, y) IN
        Say(small(Diff(M, Exp(M, z, w), y)) /\ small(TangentRes(M, z, w)), "exp inverts log"))
Metric == HasDist(M) =>
  LET y == Exp(M, x, ArrScale(q(3, 10), U)) z == Exp(M, x, V) IN
  /\ Say(NLe(Dist(M, x, x), NDec("1e-20")), "zero") 
  /\ Say(small(NAbs(NSub(Dist(M, x, z), Dist(M, z, x)))), "symmetric")
  /\ Say(NLe(Dist(M, y, z), NAdd(tight, NAdd(Dist(M, y, x), Dist(M, x, z)))), "triangle")
  /\ Say(NLe(Dist(M, x0, y), NAdd(tight, NAdd(Dist(M, x0, x), Dist(M, x, y)))), "triangle")
Retractions ==
  LET h == NDec("1e-5") IN
  IF M.kind = "fr" THEN
     LET f(t) == Retr(M, x, ArrScale(t, U)) IN Say(NLe(MaxAbs(ArrSub(ArrSub(f(h), FRMat(x)), ArrScale(h, Amb(M, x, U)))), NDec("1e-9")), "first order")
  ELSE LET w == ArrScale(h, U) IN
  /\ Say(small(Diff(M, Retr(M, x, ArrZero(U)), x)), "R(0)")
  /\ Say(NLe(Diff(M, Exp(M, x, w), Retr(M, x, w)), IF SecondOrder(M) THEN NDec("1e-13") ELSE NDec("1e-8")), "order")
  /\ Say(small(MemberRes(M, Retr(M, x, ArrScale(q(3, 2), U)))), "retraction member")
Gradients == HasExp(M) =>
  LET one == UnitArr(M.shape, 1, N1)
      n == M.shape[1]
      c == IF Quot(M) THEN LET G(s) == SymH(Force([i \in 1..n |-> [j \in 1..n |-> LET t == q(((i * j * s + i + j + s) % 7) - 3, 3) IN
                   IF M.cplx /\ i # j THEN NCplx(t, q(IF i < j THEN s ELSE 0 - s, 3)) ELSE t]])) IN [A |-> G(1), B |-> one, C |-> G(2)]
           ELSE [A |-> ArrAbs(Gen(M, 6)), B |-> Gen(M, 7), C |-> Gen(M, 8)]
      f(t) == CostF(M, c, Exp(M, x, ArrScale(t, U))) IN
  /\ Say(NLe(NAbs(NSub(D1(f), RDot(CostG(M, c, x), Amb(M, x, U)))), NDec("1e-14")), "gradient")
  /\ LET g(t) == RDot(CostG(M, c, ArrAdd(x, ArrScale(t, Gen(M, 9)))), Gen(M, 5)) IN
     Say(NLe(NAbs(NSub(D1(g), RDot(CostH(M, c, x, Gen(M, 9)), Gen(M, 5)))), NDec("1e-14")), "hessian")
Dimension == d = 0 => Say(Dim(M) = RankOf(TangentSpan(M, x), T12), <<"dimension", Dim(M), RankOf(TangentSpan(M, x), T12)>>)
Laws == Members /\ Projections /\ Geodesics /\ Metric /\ Retractions /\ Gradients /\ Dimension
=============================================================================
