----------------------------- MODULE TrustTrace -----------------------------
(***************************************************************************)
(* Recorded runs of trust regions.                                          *)
(* T = [m, exact, lim, par, typ, t0, ta, tend, P, E, res, exc, valid0]        *)
(*   P[i] a visited point [g, H, P, gn, x]: subproblem data in coordinates    *)
(*   E[k] the k-th trial step [pt, eta, off, eta0, acc, rej, f, fp, tc, tr]:  *)
(*        point, coordinates of the step, size of what the coordinates do     *)
(*        not represent, coordinates of the random start, whether the next    *)
(*        iterate is the proposal / the old point, costs, clocks             *)
(***************************************************************************)
EXTENDS TrustRegion, Stopping, Verdict
G == INSTANCE Geometry

Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, k, Delta, bad
vars == <<tid, k, Delta, bad>>
T == Traces[tid]
E == T.E[k]
N == Len(T.E)
R == T.res
Q == T.P[E.pt]
Slack == IF T.exact THEN N0 ELSE NDec("1e-9")
TieTol == IF T.exact /\ ~T.par.rand THEN (IF T.dyadic THEN N0 ELSE NDec("1e-13")) ELSE NDec("1e-9")

par0 == T.par
Dbar0(t) == IF t.par.Dbar = "null" THEN t.typ ELSE t.par.Dbar
Delta0(t) == IF t.par.D0 = "null" THEN NDiv(Dbar0(t), NInt(8)) ELSE t.par.D0
par == [kappa |-> T.par.kappa, theta |-> T.par.theta, rhop |-> T.par.rhop, rand |-> T.par.rand, reg |-> T.par.reg, mininner |-> T.par.mininner,
        maxinner |-> IF T.par.maxinner = -1 THEN T.dim ELSE T.par.maxinner, Dbar |-> Dbar0(T), D0 |-> Delta0(T), wob |-> N0]

(* --- the trial step ---------------------------------------------------------- *)
etaTol == NMul(IF T.exact /\ ~T.par.rand THEN NDec("1e-9") ELSE NDec("1e-6"), NMax(ArrNorm(E.eta), NMul(NDec("1e-6"), Delta)))
Outs == Trials(Q, par, Delta, RandomStart(E.rnd, Delta), TieTol)
(* how much rounding matters: the same subproblem, slightly perturbed *)
wob(i, j) == NAdd(N1, NMul(NInt(((i * i + 3 * i * j + j * j) % 7) - 3), NDec("1e-13")))
Q2 == [Q EXCEPT !.g = [i \in DOMAIN Q.g |-> NMul(Q.g[i], wob(i, 2))],
                !.H = [i \in DOMAIN Q.H |-> [j \in DOMAIN Q.H |-> NMul(Q.H[i][j], wob(i, j))]]]
Outs2 == Trials(Q2, [par EXCEPT !.wob = NDec("3e-15")], Delta, RandomStart(E.rnd, Delta), TieTol)
Match(o) == LET d == ArrNorm(ArrSub(o.eta, E.eta)) IN
  \/ NLe(d, etaTol)
  \/ ~T.dyadic /\ AllFin(E.eta) /\ \A p \in {w \in Outs2 : w.stop = o.stop /\ w.n = o.n} : NLe(d, NAdd(etaTol, NMul(NInt(10), ArrNorm(ArrSub(o.eta, p.eta)))))
Matching == {o \in Outs : o.stop = "noise" \/ Match(o)}
StopsOf == IF Matching = {} THEN {o.stop : o \in Outs} ELSE {o.stop : o \in Matching}
me == Model(Q, E.eta)
Step6 ==
  IF ~AllFin(E.eta) THEN {<<"step is not finite", k>>}
  ELSE C("C06", "step is not tangent", k, NLe(E.off, NMul(NDec("1e-7"), NMax(ArrNorm(E.eta), NMul(NDec("1e-6"), Delta)))))
    \cup C("C06", "no random start", k, par.rand => E.started)
    \cup C("C06", "step outside the trust region", k, NLe(PNorm(Q, E.eta), NMul(Delta, NDec("1.000001"))))
    \cup C("C06", "model above that of the Cauchy step", k,
           par.maxinner = 0 \/ NLe(me, NAdd(Model(Q, Cauchy(Q, Delta)), NMul(NDec("1e-8"), NAdd(NAbs(me), NMul(NDec("1e-10"), NMul(Delta, Q.gn)))))))
    \cup C("C06", "not the step of the truncated conjugate-gradient iteration", k, Matching # {})
    \cup C("C05", "step does not belong to the radius", k, Matching # {})

(* --- acceptance -------------------------------------------------------------------- *)
reg == RhoReg(par, E.f)
ge == Dot(Q.g, E.eta)
eHe == Dot(E.eta, MV(Q.H, E.eta))
rhonum == NAdd(NSub(E.f, E.fp), reg)
rhoden == NAdd(NSub(NNeg(ge), NMul(NHalf, eHe)), reg)
rho == NDiv(rhonum, rhoden)
eden == IF T.exact THEN NMul(NMul(N2, Eps), NAdd(NAbs(ge), NAbs(eHe))) ELSE NMul(NDec("1e-12"), NAdd(NAdd(NAbs(ge), NAbs(eHe)), NMul(E.off, Q.gn)))
enum == NMul(NMul(NInt(4), Eps), NAdd(NAbs(E.f), NAbs(E.fp)))
re == IF ~NIsFin(rho) THEN N0
      \* dyadic data: the quotient is exact
      ELSE IF T.exact /\ T.dyadic THEN N0
      ELSE NDiv(NAdd(enum, NMul(NAbs(rho), eden)), NAbs(rhoden))
unknown == NLe(NAbs(rhoden), eden)
decr == NLe(N0, rhoden)
Accept5 ==
  C("C05", "accepted against the ratio", k, E.rej \/ unknown \/ MayAccept(rho, re, decr, par))
  \cup C("C05", "rejected against the ratio", k, E.acc \/ unknown \/ MayReject(rho, re, decr, par))
  \cup C("C05", "next iterate is neither the proposal nor the old point", k, E.acc \/ E.rej)
Slackf == NMul(NMax(N1, NAbs(E.f)), NMul(Eps, NMul(NInt(4), NMax(N1, par.reg))))
Worse3 == IF NIsNaN(E.f) \/ E.rej THEN {} ELSE
  C("C03", "cost increased", k, NLe(E.fp, NAdd(E.f, Slackf)))
NextDelta ==
  IF PROP = "C06" THEN {Shrunk(Delta), Delta, Grown(Delta, par)}
  ELSE IF PROP # "C05" THEN {Delta}
  ELSE IF unknown THEN {Shrunk(Delta), Delta, Grown(Delta, par)}
  ELSE UNION {Radii(rho, re, decr, Delta, par, s) : s \in StopsOf}

(* --- stopping test after the k-th trial -------------------------------------------- *)
Quant(j) == LET e == T.E[j] IN
  [tlo |-> NSub(e.tc, T.ta), thi |-> NSub(IF j = N THEN T.tend ELSE T.E[j + 1].tr, T.t0), iter |-> j, g |-> e.gnext,
   step |-> NoStep, evals |-> NoEvals]
Stop1 ==
  IF k < N THEN C("C01", "ran past a met limit", k, MustMeet(T.lim, Quant(k), Slack) = {})
  ELSE C("C01", "stopped for a limit that was not met: " \o R.why, k, R.why \in MayMeet(T.lim, Quant(N), Slack))
       \cup C("C01", "run time", k, Timely(Quant(N), R.time, T.t0, T.tend))
       \cup C("C01", "iterations", k, R.iters = N)
Final ==
  C("C02", "cost is not that of the returned point", 0, SameNum(R.cost, R.f))
  \cup C("C02", "gradient norm is not that of the returned point", 0, SameNum(R.gn, R.gt) \/ NLe(NAbs(NSub(R.gn, R.gt)), NMul(NDec("1e-9"), R.gt)))
  \cup (IF T.valid0 THEN C("C02", "returned point is not on the manifold", 0,
           G!PointShape(T.m, R.x) /\ NLe(G!MemberRes(T.m, R.x), NMul(NDec("1e-8"), G!Cond(T.m, R.x)))) ELSE {})
  \cup C("C05", "returned point is not the last iterate", 0, R.last)
  \cup C("C03", "returned point is worse than the initial point", 0, NIsNaN(R.f0) \/ NLe(R.f, NAdd(R.f0, NMul(NInt(N), NMul(NMax(N1, NAbs(R.f0)), NMul(Eps, NMul(NInt(4), NMax(N1, par.reg))))))))

Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {} /\ Delta = (IF Traces[tid].exc = "" THEN Delta0(Traces[tid]) ELSE N0)
Raised == k = 1 /\ T.exc # "" /\ NJEmit([tid |-> tid, bad |-> {<<"exception", T.exc>>}]) /\ k' = N + 2 /\ UNCHANGED <<tid, Delta, bad>>
Iterate == /\ T.exc = "" /\ k <= N /\ bad = {}
           /\ bad' = (IF PROP \in {"C05", "C06"} THEN Step6 ELSE {}) \cup Accept5 \cup Worse3 \cup Stop1
           /\ IF bad' = {} THEN Delta' \in NextDelta ELSE Delta' = Delta
           /\ k' = k + 1 /\ tid' = tid
End == /\ T.exc = "" /\ (k = N + 1 \/ (bad # {} /\ k <= N))
       /\ NJEmit([tid |-> tid, bad |-> bad \cup (IF bad = {} THEN Final ELSE {})])
       /\ k' = N + 2 /\ UNCHANGED <<tid, Delta, bad>>
Next == Raised \/ Iterate \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
