---------------------------- MODULE TrustRegion ----------------------------
(***************************************************************************)
(* Riemannian trust regions, in coordinates of an orthonormal basis of the  *)
(* tangent space.  A subproblem Q is [g, H, P]: gradient, Hessian matrix    *)
(* and the matrix of the preconditioner (<<>> if there is none).            *)
(* par = [kappa, theta, rhop, rand, reg, mininner, maxinner, D0, Dbar, wob].     *)
(***************************************************************************)
EXTENDS LinAlg, Integers, FiniteSets

Eps == NDec("2.220446049250313080847263336181640625e-16")
Dot(a, b) == RDot(a, b)
MV(A, v) == Force([i \in DOMAIN A |-> RDot(A[i], v)])
Prec(Q, v) == IF Q.P = <<>> THEN v ELSE MV(Q.P, v)
PNorm(Q, v) == IF Q.P = <<>> THEN ArrNorm(v) ELSE NSqrt(NMax(N0, Dot(v, [i \in DOMAIN v |-> Solve(Q.P, [j \in DOMAIN v |-> <<v[j]>>])[i][1]])))
Model(Q, eta) == NAdd(Dot(Q.g, eta), NMul(NHalf, Dot(eta, MV(Q.H, eta))))

Tie(a, b, sc, tol) == ~NEq(tol, N0) /\ NLe(NAbs(NSub(a, b)), NMul(tol, sc))
Pow(a, t) == IF NEq(t, N1) THEN a ELSE IF NEq(t, N0) THEN N1 ELSE NExp(NMul(t, NLog(a)))

(* --- the Cauchy step: the best step along -P g within the radius ----------- *)
Cauchy(Q, Delta) ==
  LET z == Prec(Q, Q.g) c == Dot(z, MV(Q.H, z)) zg == Dot(z, Q.g) n == PNorm(Q, z)
      tmax == NDiv(Delta, n)
      t == IF NLe(c, N0) THEN tmax ELSE NMin(tmax, NDiv(zg, c)) IN
  IF NEq(zg, N0) THEN ArrZero(Q.g) ELSE ArrScale(NNeg(t), z)

(* --- truncated conjugate gradients ------------------------------------------ *)
(* the set of outcomes [eta, stop]; tests that are ties up to tol are left     *)
(* undecided, and once the residual is rounding noise so is the rest.          *)
(* par.wob > 0 adds errors of that relative size to every Hessian-vector       *)
(* product, to find out how sensitive the outcome is to rounding                *)
Wobble(v, sc, w) == IF NEq(w, N0) THEN v ELSE [i \in DOMAIN v |-> NAdd(v[i], NMul(NMul(w, sc), NInt(((i * i) % 3) - 1 + (i % 2))))]
RECURSIVE Inner_(_, _, _, _, _, _)
Start(Q, par, eta0) ==
  LET He == MV(Q.H, eta0)
      r == IF par.rand THEN ArrAdd(Q.g, He) ELSE Q.g
      z == IF par.rand THEN r ELSE Prec(Q, r) IN
  [eta |-> eta0, He |-> He, r |-> r, zr |-> Dot(z, r), del |-> ArrNeg(z), ePe |-> IF par.rand THEN Dot(eta0, eta0) ELSE N0,
   ePd |-> IF par.rand THEN NNeg(Dot(eta0, z)) ELSE N0, dPd |-> Dot(z, r), nr0 |-> ArrNorm(r),
   mv |-> NAdd(Dot(Q.g, eta0), NMul(NHalf, Dot(eta0, He)))]
Inner_(Q, par, Delta, s, j, tol) ==
  IF j >= par.maxinner THEN {[eta |-> s.eta, stop |-> "limit", n |-> j]}
  ELSE
  LET Hd == Wobble(MV(Q.H, s.del), NMul(MaxAbs(Q.H), ArrNorm(s.del)), par.wob)
      dHd == Dot(s.del, Hd)
      dsc == NMul(Dot(s.del, s.del), MaxAbs(Q.H))
      zeroC == NEq(dHd, N0)
      tieC == ~zeroC /\ Tie(dHd, N0, dsc, tol)
      alpha == NDiv(s.zr, dHd)
      ePn == NAdd(NAdd(s.ePe, NMul(NMul(N2, alpha), s.ePd)), NMul(NSq(alpha), s.dPd))
      D2 == NSq(Delta)
      tau == NDiv(NAdd(NNeg(s.ePd), NSqrt(NMax(N0, NAdd(NSq(s.ePd), NMul(s.dPd, NSub(D2, s.ePe)))))), s.dPd)
      edge == ArrAdd(s.eta, ArrScale(tau, s.del))
      mayNeg == NLe(dHd, N0) \/ tieC
      mayPos == NLt(N0, dHd) \/ tieC
      mayOut == mayPos /\ ~zeroC /\ (NLe(D2, ePn) \/ Tie(ePn, D2, D2, tol))
      mayIn == mayPos /\ ~zeroC /\ (NLt(ePn, D2) \/ Tie(ePn, D2, D2, tol))
      neta == ArrAdd(s.eta, ArrScale(alpha, s.del))
      nHe == ArrAdd(s.He, ArrScale(alpha, Hd))
      nmv == NAdd(Dot(neta, Q.g), NMul(NHalf, Dot(neta, nHe)))
      msc == NMax(NAbs(nmv), NAbs(s.mv))
      mayInc == NLe(s.mv, nmv) \/ Tie(s.mv, nmv, msc, tol)
      mayDec == NLt(nmv, s.mv) \/ Tie(s.mv, nmv, msc, tol)
      nr == ArrAdd(s.r, ArrScale(alpha, Hd))
      nnr == ArrNorm(nr)
      target == NMul(s.nr0, NMin(Pow(s.nr0, par.theta), par.kappa))
      noise == NLe(nnr, NMul(NDec("1e-10"), s.nr0))
      exact0 == NEq(nnr, N0)
      tieR == Tie(nnr, target, NMax(target, NMul(s.nr0, NDec("1e-6"))), tol)
      mayHit == exact0 \/ (j >= par.mininner /\ (NLe(nnr, target) \/ tieR))
      mayMiss == ~exact0 /\ (j < par.mininner \/ NLt(target, nnr) \/ tieR)
      nz == IF par.rand THEN nr ELSE Prec(Q, nr)
      nzr == Dot(nz, nr)
      beta == NDiv(nzr, s.zr)
      ndel == ArrAdd(ArrNeg(nz), ArrScale(beta, s.del))
      nxt == [s EXCEPT !.eta = neta, !.He = nHe, !.mv = nmv, !.r = nr, !.zr = nzr, !.ePe = ePn, !.del = ndel,
                       \* <eta, del>_P: a recurrence when eta starts at zero
                       !.ePd = IF par.rand THEN Dot(neta, ndel) ELSE NMul(beta, NAdd(s.ePd, NMul(alpha, s.dPd))),
                       !.dPd = NAdd(nzr, NMul(NSq(beta), s.dPd))] IN
  (IF mayNeg THEN {[eta |-> edge, stop |-> "negative", n |-> j + 1]} ELSE {})
  \cup (IF mayOut THEN {[eta |-> edge, stop |-> "boundary", n |-> j + 1]} ELSE {})
  \cup (IF mayIn /\ mayInc THEN {[eta |-> s.eta, stop |-> "increased", n |-> j + 1]} ELSE {})
  \cup (IF mayIn /\ mayDec THEN
          (IF mayHit THEN {[eta |-> neta, stop |-> "target", n |-> j + 1]} ELSE {})
          \cup (IF ~mayMiss THEN {}
                ELSE IF noise THEN {[eta |-> neta, stop |-> "noise", n |-> j + 1]}
                ELSE Inner_(Q, par, Delta, nxt, j + 1, tol))
        ELSE {})
TCG(Q, par, Delta, eta0, tol) ==
  LET s == Start(Q, par, eta0) IN
  IF NEq(s.nr0, N0) THEN {[eta |-> eta0, stop |-> "target", n |-> 0]}
  ELSE Inner_(Q, par, Delta, s, 0, tol)
(* a random start: 1e-6 times a random tangent vector, shrunk into the radius *)
RECURSIVE Fit(_, _)
Fit(v, Delta) == IF NLt(Delta, ArrNorm(v)) THEN Fit(ArrScale(NSqrt(NSqrt(Eps)), v), Delta) ELSE v
RandomStart(v, Delta) == Fit(ArrScale(NDec("1e-6"), v), Delta)
(* the step that is tried: with a random start, the better of tCG's and Cauchy's *)
Trials(Q, par, Delta, eta0, tol) ==
  LET O == TCG(Q, par, Delta, eta0, tol) IN
  IF ~par.rand THEN O
  ELSE LET ec == Cauchy(Q, Delta) mc == Model(Q, ec) IN
    UNION {LET m == Model(Q, o.eta) IN
             (IF NLt(mc, m) \/ Tie(mc, m, NAbs(m), NDec("1e-9")) THEN {[o EXCEPT !.eta = ec]} ELSE {})
             \cup (IF NLe(m, mc) \/ Tie(mc, m, NAbs(m), NDec("1e-9")) THEN {o} ELSE {}) : o \in O}

(* --- acceptance and radius ------------------------------------------------------ *)
RhoReg(par, f) == NMul(NMul(NMax(N1, NAbs(f)), Eps), par.reg)
Quarter == NDec("0.25")
Shrunk(D) == NMul(Quarter, D)
Grown(D, par) == NMin(NMul(N2, D), par.Dbar)
AtEdge(stop) == stop \in {"negative", "boundary"}
(* rho is known up to re: sets of possible decisions *)
Radii(rho, re, decreased, D, par, stop) ==
  (IF ~NIsFin(rho) /\ NIsNaN(rho) THEN {Shrunk(D)}
   ELSE IF ~decreased THEN {Shrunk(D)}
   ELSE LET lo == NSub(rho, re) hi == NAdd(rho, re) tq == NDec("0.75") IN
     (IF NLt(lo, Quarter) THEN {Shrunk(D)} ELSE {})
     \cup (IF NLe(Quarter, hi) THEN
             (IF NLt(tq, hi) /\ (AtEdge(stop) \/ stop = "noise") THEN {Grown(D, par)} ELSE {})
             \cup (IF NLe(lo, tq) \/ ~AtEdge(stop) THEN {D} ELSE {})
           ELSE {}))
MayAccept(rho, re, decreased, par) == decreased /\ ~NIsNaN(rho) /\ NLt(par.rhop, NAdd(rho, re))
MayReject(rho, re, decreased, par) == ~decreased \/ NIsNaN(rho) \/ NLe(NSub(rho, re), par.rhop)
=============================================================================
