------------------------------ MODULE TrustMC ------------------------------
(***************************************************************************)
(* Design model of trust regions.                                           *)
(* Mode "radius": the environment chooses at each iteration what the        *)
(*   subproblem is like (interior minimum, minimum beyond or exactly at the *)
(*   radius, negative curvature) and the ratio of actual to predicted       *)
(*   decrease, ties with every threshold included; numbers are dyadic.      *)
(*   Histories: all of length Depth, and constant ones of length Long.      *)
(* Mode "sub": one iteration over a family of gradients, Hessians,          *)
(*   preconditioners, radii and inner limits.                               *)
(* Every complete history is printed as a script for the real optimizer.    *)
(***************************************************************************)
EXTENDS TrustRegion, NumJson, TLC
CONSTANTS Mode, Depth, Long

VARIABLES par, Delta, f, hist, sub, out, const, st
vars == <<par, Delta, f, hist, sub, out, const, st>>
q(a, b) == NDiv(NInt(a), NInt(b))

Kinds == {"interior", "edge", "exact", "negative"}
(* the ratios; "nan" and the infinities are costs of the proposal *)
Rhos == {q(-1, 1), N0, q(1, 8), q(3, 16), q(1, 4), q(1, 2), q(3, 4), q(7, 8), q(2, 1), NNaN, NInf, NNeg(NInf)}
G0 == <<N1, N0>>
Hess(kind, D) == CASE kind = "interior" -> <<<<NDiv(N2, D), N0>>, <<N0, N1>>>>
                   [] kind = "edge" -> <<<<NDiv(NHalf, D), N0>>, <<N0, N1>>>>
                   [] kind = "exact" -> <<<<NDiv(N1, D), N0>>, <<N0, N1>>>>
                   [] kind = "negative" -> <<<<NInt(0 - 1), N0>>, <<N0, N1>>>>
Pars == {[kappa |-> q(1, 8), theta |-> N1, wob |-> N0, rhop |-> rp, rand |-> FALSE, reg |-> rd[1], mininner |-> 1, maxinner |-> 2, D0 |-> rd[2], Dbar |-> rd[3], base |-> rd[4]] :
           \* 2^50 epsilons are a quarter
           rp \in {q(1, 8), N0}, rd \in {<<N0, N1, N1, N0>>, <<N0, N1, NInt(8), NInt(1048576)>>, <<N0, NHalf, NDec("0.75"), N0>>, <<NDec("1125899906842624"), N1, NInt(4), N0>>,
                                         <<NInt(1000), N1, NInt(4), NInt(0 - 1048576)>>, <<NInt(1000), N1, NInt(4), NDec("1e9")>>}}

(* --- subproblems ----------------------------------------------------------------- *)
M3(a, b, c, d, e, g) == <<<<NInt(a), NInt(b), NInt(c)>>, <<NInt(b), NInt(d), NInt(e)>>, <<NInt(c), NInt(e), NInt(g)>>>>
Hs == {M3(2, 1, 0, 3, 1, 4), M3(0, 0, 0, 0, 0, 0), M3(1, 0, 0, 2, 0, -1), M3(1, 0, 0, 0, 0, 4), M3(-2, 1, 0, -3, 0, -1), M3(100, 0, 0, 10, 0, 1),
       M3(1, 1, 1, 1, 1, 1), M3(0, 1, 0, 0, 0, 2), M3(2, 0, 0, 2, 0, 2)}
Gs == {<<N1, N2, NInt(-1)>>, <<N0, N0, N1>>, <<N1, N1, N0>>, <<NDec("1e-3"), NDec("2e-3"), NDec("5e-3")>>}
Ps == {<<>>, M3(2, 0, 0, 1, 0, 4), M3(2, 1, 0, 2, 0, 3)}
SubPars == {[kappa |-> kt[1], theta |-> kt[2], wob |-> N0, rhop |-> q(1, 8), rand |-> rand, reg |-> NInt(1000), mininner |-> mm[1], maxinner |-> mm[2], D0 |-> d, Dbar |-> NMul(NInt(4), d), base |-> N0] :
              kt \in {<<q(1, 10), N1>>, <<NHalf, NHalf>>, <<N0, N1>>}, rand \in BOOLEAN,
              mm \in {<<0, 6>>, <<1, 3>>, <<3, 6>>, <<1, 1>>, <<1, 2>>}, d \in {NDec("0.3"), NDec("2.5"), NInt(1000)}}

Radius0 == /\ par \in Pars /\ const \in BOOLEAN /\ sub = <<>>
Sub0 == /\ par \in SubPars /\ const = FALSE
        /\ sub \in [g : Gs, H : Hs, P : IF par.rand THEN {<<>>} ELSE Ps]
Init == /\ IF Mode = "radius" THEN Radius0 ELSE Sub0
        /\ Delta = par.D0 /\ f = par.base /\ hist = <<>> /\ out = <<>> /\ st = "try"
Q(kind) == IF Mode = "radius" THEN [g |-> G0, H |-> Hess(kind, Delta), P |-> <<>>] ELSE sub
Eta0(Qr) == IF par.rand THEN ArrScale(NDec("1e-6"), <<N1, NHalf, NInt(-1)>>) ELSE ArrZero(Qr.g)
Full == IF const THEN Long ELSE Depth
SameRho(a, b) == (NIsNaN(a) /\ NIsNaN(b)) \/ NEq(a, b)
(* one iteration of the method *)
Iterate ==
  /\ st = "try" /\ Len(hist) < Full
  /\ \E kind \in (IF Mode = "radius" THEN Kinds ELSE {"sub"}), rho \in (IF Mode = "radius" THEN Rhos ELSE {N1}) :
       LET Qr == Q(kind) IN
       /\ (const /\ Len(hist) > 0) => (kind = hist[1].kind /\ SameRho(rho, hist[1].rho))
       /\ \E o \in Trials(Qr, par, Delta, Eta0(Qr), IF Mode = "radius" THEN N0 ELSE NDec("1e-13")) :
            LET red == NNeg(Model(Qr, o.eta)) R == RhoReg(par, f) IN
            /\ Delta' \in Radii(rho, N0, NLe(N0, red), Delta, par, o.stop)
            /\ f' = IF MayAccept(rho, N0, NLe(N0, red), par) THEN NSub(NAdd(f, R), NMul(rho, NAdd(red, R))) ELSE f
            /\ out' = [Q |-> Qr, eta |-> o.eta, stop |-> o.stop, D |-> Delta, m |-> NNeg(red), rho |-> rho, f0 |-> f]
       /\ hist' = Append(hist, [kind |-> kind, rho |-> rho, H |-> Qr.H])
       /\ st' = IF NIsFin(rho) \/ NIsNaN(rho) \/ NLt(rho, N0) THEN "try" ELSE "over"
  /\ UNCHANGED <<par, sub, const>>
Done == /\ st # "end" /\ (Len(hist) = Full \/ st = "over")
        /\ NJEmit([par |-> par, sub |-> sub, h |-> hist])
        /\ st' = "end" /\ UNCHANGED <<par, Delta, f, hist, sub, out, const>>
Next == Iterate \/ Done
Spec == Init /\ [][Next]_vars

(* one history per radius and last choice is enough for most purposes *)
View == <<par, const, sub, Delta, st, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>

(* --- what the method promises (C03, C05, C06) -------------------------------------- *)
Has == out # <<>>
InRadius == Has => NLe(PNorm(out.Q, out.eta), NMul(out.D, NDec("1.000000000000001")))
AtBoundary == Has /\ out.stop \in {"negative", "boundary"} /\ ~par.rand => NLe(NAbs(NSub(PNorm(out.Q, out.eta), out.D)), NMul(out.D, NDec("1e-15")))
BeatsCauchy == Has => NLe(out.m, NAdd(Model(out.Q, Cauchy(out.Q, out.D)), NMul(NDec("2e-9"), NAbs(out.m))))
NoIncrease == Has => NLe(out.m, N0)
Monotone == Has => NLe(f, NAdd(out.f0, RhoReg(par, out.f0)))
Bounded == NLe(Delta, NMax(par.D0, par.Dbar)) /\ NLt(N0, Delta)
=============================================================================
