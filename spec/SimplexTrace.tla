---------------------------- MODULE SimplexTrace ----------------------------
(***************************************************************************)
(* Recorded runs of Nelder-Mead.                                            *)
(* T = [m, n, refused, valid, lim, coef, x0, f0, E, res, t0, tend, exc]        *)
(*   n    number of supplied points, dim the dimension                       *)
(*   E[k] a cost evaluation after the initial ones:                          *)
(*        kind "retr" (point = retraction of vec at base) or                 *)
(*        "mean" (point = midpoint of a and b); x point, f cost, t clock     *)
(***************************************************************************)
EXTENDS Simplex, Geometry, Stopping, Verdict

Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, k, S, ph, w, r, rem, iter, bad
vars == <<tid, k, S, ph, w, r, rem, iter, bad>>
T == Traces[tid]
Dm == T.dim
N == Len(T.E)
R == T.res
F == T.f0 \o [i \in 1..N |-> T.E[i].f]
X(i) == IF i <= Dm + 1 THEN T.x0[i] ELSE T.E[i - Dm - 1].x
E == T.E[k]
id == Dm + 1 + k
eps == NDec("1e-8")

(* --- the trial point lies on the line through the centroid and the worst vertex --- *)
Mult(p) == CASE p = "reflect" -> NNeg(T.coef.reflection) [] p = "expand" -> NNeg(T.coef.expansion)
             [] p = "outside" -> NNeg(T.coef.contraction) [] p = "inside" -> T.coef.contraction
Line(p, wv) ==
  IF E.kind # "retr" THEN {<<"trial point is not a retraction: " \o p, k>>}
  ELSE LET L == Log(T.m, E.base, X(wv)) IN
       C("C08", "trial point is not on the line through the centroid and the worst vertex: " \o p, k,
         ~LogOK(T.m, E.base, X(wv)) \/ (AllFin(E.vec) /\ NLe(Norm(T.m, E.base, ArrSub(E.vec, ArrScale(Mult(p), L))), NMul(NMul(eps, Cond(T.m, E.base)), NAdd(NDec("1e-3"), Norm(T.m, E.base, L))))))
RECURSIVE SumLogs(_, _)
SumLogs(B, Q) == IF Q = {} THEN ArrScale(N0, E.vec) ELSE LET q == CHOOSE z \in Q : TRUE IN ArrAdd(Log(T.m, B, X(q)), SumLogs(B, Q \ {q}))
RECURSIVE SumDist(_, _)
SumDist(B, Q) == IF Q = {} THEN N0 ELSE LET q == CHOOSE z \in Q : TRUE IN NAdd(Norm(T.m, B, Log(T.m, B, X(q))), SumDist(B, Q \ {q}))
(* the mean is computed by an inexact optimization run *)
Centre(Q) == IF E.kind # "retr" \/ \E q \in Q : ~LogOK(T.m, E.base, X(q)) THEN {}
  ELSE D("C08", "base point is not the centroid", k, Norm(T.m, E.base, SumLogs(E.base, Q)), NMul(T.ctol, NAdd(NDec("1e-6"), SumDist(E.base, Q))))

(* --- stopping test at the top of an iteration --------------------------------------- *)
Evals == Dm + 1 + (k - 1)
Quant == [tlo |-> NSub(IF k = 1 THEN T.t0 ELSE T.E[k - 1].t, T.t0), thi |-> NSub(IF k > N THEN T.tend ELSE T.E[k].tb, T.t0), iter |-> iter + 1, g |-> NoGrad, step |-> NoStep, evals |-> Evals]

Init == tid \in 1..Len(Traces) /\ k = 1 /\ S = 1..(Traces[tid].dim + 1) /\ ph = "loop" /\ w = 0 /\ r = 0 /\ rem = {} /\ iter = 0 /\ bad = {}
(* a simplex of the wrong size is refused, one of the right size is not *)
Refusal == /\ ph = "loop" /\ k = 1 /\ (T.exc # "" \/ T.refused \/ T.n # Dm + 1)
           /\ NJEmit([tid |-> tid, bad |->
                IF T.exc # "" THEN {<<"exception", T.exc>>}
                ELSE C("C08", "simplex of " \o NJStr(T.n) \o " points in dimension " \o NJStr(Dm) \o (IF T.refused THEN " refused" ELSE " accepted"), 0, T.refused <=> (T.n # Dm + 1))])
           /\ ph' = "end" /\ UNCHANGED <<tid, k, S, w, r, rem, iter, bad>>
Live == bad = {} /\ T.exc = "" /\ ~T.refused /\ T.n = Dm + 1
Take(v) == S' = (S \ {w'}) \cup {v} /\ ph' = "loop" /\ iter' = iter + 1 /\ rem' = {}
Goto(p) == ph' = p /\ S' = S /\ iter' = iter /\ rem' \in (IF p = "shrink" THEN {S \ {b} : b \in Best(S, F)} ELSE {{}})
Reflect == /\ Live /\ ph = "loop" /\ k <= N
           /\ w' \in Worst(S, F)
           /\ bad' = C("C01", "ran past a met limit", k, MustMeet(T.lim, Quant, N0) = {}) \cup (IF On("C08") THEN Line("reflect", w') \cup Centre(S \ {w'}) ELSE {})
           /\ r' = id
           /\ \E d \in AfterReflection(S, F, w', F[id]) : IF d = "take" THEN Take(id) ELSE Goto(d)
           /\ k' = k + 1 /\ tid' = tid
Expand == /\ Live /\ ph = "expand" /\ k <= N
          /\ w' = w /\ r' = r
          /\ bad' = IF On("C08") THEN Line("expand", w) ELSE {}
          /\ Take(IF KeepExpansion(F[id], F[r]) THEN id ELSE r)
          /\ k' = k + 1 /\ tid' = tid
Contract == /\ Live /\ ph \in {"outside", "inside"} /\ k <= N
            /\ w' = w /\ r' = r
            /\ bad' = IF On("C08") THEN Line(ph, w) ELSE {}
            /\ IF (IF ph = "outside" THEN KeepOutside(F[id], F[r]) ELSE KeepInside(F[id], F[w])) THEN Take(id) ELSE Goto("shrink")
            /\ k' = k + 1 /\ tid' = tid
Has(seq, v) == \E i \in DOMAIN seq : seq[i] = v
(* every other vertex moves to its midpoint with the best one *)
Shrink == /\ Live /\ ph = "shrink" /\ rem # {} /\ k <= N
          /\ w' = w /\ r' = r
          /\ LET b == CHOOSE v \in S : v > 0 /\ v \notin rem
                 Mean(v) == E.kind = "mean" /\ ((Has(E.a, b) /\ Has(E.b, v)) \/ (Has(E.b, b) /\ Has(E.a, v))) IN
             \/ \E v \in rem :
                  /\ Mean(v)
                  /\ bad' = {}
                  /\ rem' = rem \ {v}
                  \* a midpoint replaces its vertex
                  /\ S' = (S \ {v}) \cup {0 - id}
             \/ /\ ~\E v \in rem : Mean(v)
                /\ bad' = {<<"not a midpoint with the best vertex", k>>} /\ rem' = rem /\ S' = S
          /\ ph' = "shrink" /\ iter' = iter
          /\ k' = k + 1 /\ tid' = tid
Shrunk == /\ Live /\ ph = "shrink" /\ rem = {}
          /\ S' = {IF v < 0 THEN 0 - v ELSE v : v \in S} /\ ph' = "loop" /\ iter' = iter + 1
          /\ UNCHANGED <<tid, k, w, r, rem, bad>>
MinF(Q) == MinCost(Q, F)
(* the run ends at the top of an iteration, with the best vertex *)
End == /\ T.exc = "" /\ ~T.refused /\ T.n = Dm + 1 /\ ph \notin {"end"}
       /\ \/ bad # {}
          \/ k = N + 1 /\ ~(ph = "shrink" /\ rem = {})
       /\ NJEmit([tid |-> tid, bad |-> IF bad # {} THEN bad
            ELSE IF ph # "loop" THEN {<<"run ended within an iteration: " \o ph, k>>}
            ELSE C("C01", "stopped for a limit that was not met: " \o R.why, k, R.why \in MayMeet(T.lim, Quant, N0))
              \cup C("C01", "run time", k, Timely(Quant, R.time, T.t0, T.tend))
              \cup C("C01", "iterations", k, R.iters = iter + 1)
              \cup C("C01", "cost evaluations", k, R.evals = Evals)
              \cup C("C02", "cost is not that of the returned point", 0, SameNum(R.cost, R.f))
              \cup C("C02", "returned point is not on the manifold", 0, T.valid => NLe(MemberRes(T.m, R.x), NMul(NDec("1e-8"), Cond(T.m, R.x))))
              \cup C("C08", "the best vertex is not returned", 0, \E v \in Best(S, F) : v \in {R.ids[i] : i \in DOMAIN R.ids})
              \cup C("C03", "returned point is worse than the best vertex seen", 0, \A v \in DOMAIN F : Leq(R.f, F[v]))])
       /\ ph' = "end" /\ UNCHANGED <<tid, k, S, w, r, rem, iter, bad>>
Next == Refusal \/ Reflect \/ Expand \/ Contract \/ Shrink \/ Shrunk \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
