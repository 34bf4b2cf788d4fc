---------------------------- MODULE DescentTrace ----------------------------
(***************************************************************************)
(* Recorded runs of steepest descent and conjugate gradients.               *)
(* T = [opt, rule, orth, m, exact, shipped, logon, valid0, lim, t0, ta,      *)
(*      tend, S, it, tr, res, log, exc]                                      *)
(*   S[k]  the k-th call of the line searcher [d, f0, df0, step, tb, te]     *)
(*   it[k] the k-th iterate [x, f, g, p] with its cost, gradient and         *)
(*         preconditioned gradient; Len(it) = Len(S) + 1                     *)
(*   tr[k] gradient, direction and preconditioned gradient of iterate k      *)
(*         transported to iterate k + 1                                      *)
(***************************************************************************)
EXTENDS Descent, Stopping, Verdict

Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
M == T.m
S == T.S
It == T.it
R == T.res
CGrad == T.opt = "cg"
N == IF CGrad THEN Len(S) + 1 ELSE Len(S)            \* number of stopping tests
Slack == IF T.exact THEN N0 ELSE NDec("1e-9")
eps == NDec("1e-10")
GN(j) == Norm(M, It[j].x, It[j].g)

(* --- C01: what the k-th test compares --- *)
Quant(j) ==
  [tlo |-> NSub(IF CGrad THEN (IF j = 1 THEN T.ta ELSE S[j - 1].te) ELSE S[j].te, T.ta),
   thi |-> NSub(IF j = N THEN T.tend ELSE IF CGrad THEN S[j].tb ELSE S[j + 1].tb, T.t0),
   iter |-> j, g |-> GN(j),
   step |-> IF CGrad THEN (IF j = 1 THEN NNaN ELSE S[j - 1].step) ELSE S[j].step,
   evals |-> NoEvals]
Stopping1 ==
  IF k < N THEN C("C01", "ran past a met limit", k, MustMeet(T.lim, Quant(k), Slack) = {})
  ELSE C("C01", "stopped for a limit that was not met: " \o R.why, k, R.why \in MayMeet(T.lim, Quant(N), Slack))
       \cup C("C01", "run time", k, Timely(Quant(N), R.time, T.t0, T.tend))
       \cup C("C01", "iterations", k, R.iters = N) \cup C("C01", "cost evaluations", k, R.evals = N)

(* --- C03 --- *)
Descent1 ==
  IF k > Len(S) \/ NIsNaN(It[1].f) THEN {}
  ELSE C("C03", "cost handed to the line search", k, SameNum(S[k].f0, It[k].f))
       \cup (IF T.shipped THEN C("C03", "cost increased", k, NLe(It[k + 1].f, It[k].f)) ELSE {})

(* --- C07 --- *)
e9 == NDec("1e-11")
Dir1 ==
  IF k > Len(S) THEN {}
  ELSE LET x == It[k].x g == It[k].g p == It[k].p d == S[k].d
           steep == ArrNeg(p)
           CND == Cond(M, x)
           small(v, sc) == AllFin(v) /\ NLe(Norm(M, x, v), NMul(NMul(eps, CND), sc))
           np == Norm(M, x, p) ng == Norm(M, x, g)
           isSteep == small(ArrSub(d, steep), np)
           slope == Inner(M, x, g, d) IN
  (IF ~AllFin(d) THEN {<<"direction is not finite", k>>}
   ELSE C("C07", "directional derivative is not that of the direction", k, NLe(NAbs(NSub(S[k].df0, slope)), NMul(NMul(eps, CND), NMul(ng, Norm(M, x, d)))))
     \cup C("C07", "direction of ascent", k, NLe(S[k].df0, N0))
     \cup (IF ~CGrad THEN C("C07", "not the negative gradient", k, small(ArrAdd(d, g), ng))
       ELSE IF k = 1 THEN C("C07", "first direction", k, isSteep)
       ELSE LET o == k - 1 tr == T.tr[o]
                a == Products(M, It[o].x, x, It[o].g, It[o].p, S[o].d, g, p, tr.g, tr.d, tr.p)
                e == NMul(e9, NMax(CND, Cond(M, It[o].x)))
                pw == Powell(a)
                (* Powell's test and the descent test may go either way when they are ties *)
                perr == NMul(e, NDiv(NMul(a.sdiff, a.snp), NAbs(a.nn)))
                mayRestart == NEq(a.nn, N0) \/ NLe(T.orth, NAdd(pw, IF T.exact THEN N0 ELSE perr))
                mayGo == ~NEq(a.nn, N0) /\ NLt(NSub(pw, IF T.exact THEN N0 ELSE perr), T.orth)
                ok(b, be) == LET cand == ArrAdd(ArrNeg(p), ArrScale(b, tr.d))
                                 ce == NAdd(NMul(be, a.nT), NMul(e, NAdd(np, NMul(NAbs(b), a.nT))))
                                 ip == Inner(M, x, g, cand) ie == NMul(ng, ce)
                                 keep == NLt(NSub(ip, ie), N0) reset == NLe(NNeg(ie), ip) IN
                             \/ (keep /\ NLe(Norm(M, x, ArrSub(d, cand)), NMul(NInt(10), ce)))
                             \/ (reset /\ isSteep) IN
            C("C07", "not the direction of the rule", k,
              \/ (mayRestart /\ isSteep)
              \/ (mayGo /\ ~Sound(T.rule, a, e))
              \/ (mayGo /\ Sound(T.rule, a, e) /\ \E b \in Betas(T.rule, a) : ok(b, BetaErr(T.rule, a, e))))))

(* --- C02 --- *)
LogEntry(j) == LET q == T.log[j] IN
  C("C02", "log: iteration number", j, q.i = j)
  \cup C("C02", "log: cost is not that of the point", j, SameNum(q.cost, q.f))
  \cup C("C02", "log: gradient norm is not that of the point", j, NLe(NAbs(NSub(q.gn, Norm(M, q.x, q.g))), NMul(NMul(eps, Cond(M, q.x)), Norm(M, q.x, q.g))))
Final ==
  C("C02", "cost is not that of the returned point", 0, SameNum(R.cost, R.f))
  \cup C("C02", "step size is not that of the last search", 0, Len(S) > 0 => SameNum(R.step, S[Len(S)].step))
  \cup (IF CGrad THEN C("C02", "gradient norm is not that of the returned point", 0,
           LET n == Norm(M, R.x, R.g) IN SameNum(R.gn, n) \/ NLe(NAbs(NSub(R.gn, n)), NMul(NMul(eps, Cond(M, R.x)), n))) ELSE {})
  \cup (IF T.valid0 THEN C("C02", "returned point is not on the manifold", 0, PointShape(M, R.x) /\ NLe(MemberRes(M, R.x), NMul(NDec("1e-8"), Cond(M, R.x)))) ELSE {})
  \cup (IF T.logon THEN C("C02", "log: number of entries", 0, Len(T.log) = R.iters)
                        \cup C("C02", "log: first point", 0, Len(T.log) > 0 /\ T.log[1].first)
                        \cup UNION {LogEntry(j) : j \in DOMAIN T.log} ELSE {})
  \cup (IF T.shipped /\ ~NIsNaN(It[1].f) THEN C("C03", "returned point is worse than an iterate", 0, \A j \in DOMAIN It : NLe(R.f, It[j].f)) ELSE {})

Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Raised == k = 1 /\ T.exc # "" /\ NJEmit([tid |-> tid, bad |-> {<<"exception", T.exc>>}]) /\ k' = N + 2 /\ UNCHANGED <<tid, bad>>
Iterate == /\ T.exc = "" /\ k <= N
           /\ bad' = bad \cup Stopping1 \cup Descent1 \cup Dir1
           /\ k' = k + 1 /\ tid' = tid
End == /\ T.exc = "" /\ k = N + 1
       /\ bad' = bad \cup Final
       /\ NJEmit([tid |-> tid, bad |-> bad'])
       /\ k' = k + 1 /\ tid' = tid
Next == Raised \/ Iterate \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
