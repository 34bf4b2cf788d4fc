----------------------------- MODULE SwarmTrace -----------------------------
(***************************************************************************)
(* Recorded runs of particle swarm.                                         *)
(* T = [m, dim, n, given, used, size, lim, nostalgia, social, x0, f0, E,     *)
(*      res, t0, tend, exc]                                                 *)
(*   n     number of initial positions that were evaluated                  *)
(*   given  number of supplied positions (-1: none), used: exactly these     *)
(*          were evaluated first; size: requested population (-1: none)     *)
(*   E[k]  a position moved to and evaluated: retraction of vec at base;     *)
(*         cand: the positions base can be, with the velocity of the        *)
(*         particle there transported to it                                 *)
(* An iteration or evaluation limit below zero was left to its default.      *)
(***************************************************************************)
EXTENDS Swarm, Geometry, Stopping, Verdict

Traces == NJLoad(NJEnv("VP_TRACES"))
(* pos, best: positions of particles; g: best of the swarm; gs: the same    *)
(* when the iteration began; rem: particles yet to move; mul: multiples seen *)
VARIABLES tid, k, pos, best, g, gs, rem, iter, mul, bad, ph
vars == <<tid, k, pos, best, g, gs, rem, iter, mul, bad, ph>>
T == Traces[tid]
N == Len(T.E)
R == T.res
F == T.f0 \o [i \in 1..N |-> T.E[i].f]
X(i) == IF i <= T.n THEN T.x0[i] ELSE T.E[i - T.n].x
E == T.E[k]
id == T.n + k
MaxI(a, b) == IF a > b THEN a ELSE b
Lim == [T.lim EXCEPT !.iters = IF @ < 0 THEN MaxI(500, 4 * T.dim) ELSE @, !.evals = IF @ < 0 THEN MaxI(5000, 2 * T.dim) ELSE @]
Popul == IF T.given >= 0 THEN T.given ELSE IF T.size >= 0 THEN T.size ELSE IF 10 * T.dim < 40 THEN 10 * T.dim ELSE 40

Small(L, sc) == NLe(L, NMul(NDec("1e-9"), sc))
tol == NDec("1e-6")
(* err: the rounding error of a multiple that is computed from short or almost parallel logarithms *)
InRange(a, lo, hi, err) == LET sl == NAdd(err, NMul(tol, NMax(N1, NMax(NAbs(lo), NAbs(hi))))) IN NLe(NSub(lo, sl), a) /\ NLe(a, NAdd(hi, sl))
(* the move of particle i: inertia plus multiples of the two logarithms      *)
(* [ok, a, b]: a and b are -1 where they are not determined                  *)
None == NNeg(N1)
MoveOf(i, c) ==
  LET B == E.base
      L1 == IF best[i] = pos[i] THEN ArrZero(E.vec) ELSE Log(T.m, B, X(best[i]))
      L2 == IF gs = pos[i] THEN ArrZero(E.vec) ELSE Log(T.m, B, X(gs))
      w == Inertia(iter, Lim.iters)
      r == ArrSub(E.vec, ArrScale(w, c.tv))
      ip(u, v) == Inner(T.m, B, u, v)
      n1 == NSqrt(Pos0(ip(L1, L1))) n2 == NSqrt(Pos0(ip(L2, L2)))
      sc == NMul(Cond(T.m, B), NAdd(NAdd(n1, n2), NAdd(NSqrt(Pos0(ip(E.vec, E.vec))), NMul(w, NSqrt(Pos0(ip(c.tv, c.tv)))))))
      near(v) == NLe(NSqrt(Pos0(ip(v, v))), NMul(tol, sc))     \* rounding is not symmetric
      off(v) == NLe(NSqrt(Pos0(ip(v, v))), NAdd(NMul(tol, sc), NMul(NDec("1e-4"), NMul(T.social, n2))))     \* almost parallel
      z1 == Small(n1, sc) z2 == Small(n2, sc)
      a0 == NDiv(ip(L1, r), NSq(n1)) b0 == NDiv(ip(L2, r), NSq(n2))
      g12 == ip(L1, L2)
      det == NSub(NMul(NSq(n1), NSq(n2)), NSq(g12))
      par == NLe(det, NMul(NDec("1e-8"), NMul(NSq(n1), NSq(n2))))
      s == NDiv(g12, NSq(n1))
      a == NDiv(NSub(NMul(NSq(n2), ip(L1, r)), NMul(g12, ip(L2, r))), det)
      b == NDiv(NSub(NMul(NSq(n1), ip(L2, r)), NMul(g12, ip(L1, r))), det)
      sine == NSqrt(NDiv(Pos0(det), NMul(NSq(n1), NSq(n2))))
      err(n, sn) == NDiv(NMul(NDec("1e-13"), sc), NMul(n, sn))
      no == T.nostalgia so == T.social IN
  IF ~c.tvok \/ ~(best[i] = pos[i] \/ LogOK(T.m, B, X(best[i]))) \/ ~(gs = pos[i] \/ LogOK(T.m, B, X(gs))) THEN [ok |-> TRUE, a |-> None, b |-> None]
  ELSE IF ~AllFin(E.vec) THEN [ok |-> FALSE, a |-> None, b |-> None]
  ELSE IF z1 /\ z2 THEN [ok |-> near(r), a |-> None, b |-> None]
  ELSE IF z1 THEN [ok |-> near(ArrSub(r, ArrScale(b0, L2))) /\ InRange(b0, N0, so, err(n2, N1)), a |-> None, b |-> NDiv(b0, so)]
  ELSE IF z2 THEN [ok |-> near(ArrSub(r, ArrScale(a0, L1))) /\ InRange(a0, N0, no, err(n1, N1)), a |-> NDiv(a0, no), b |-> None]
  ELSE IF par THEN [ok |-> off(ArrSub(r, ArrScale(a0, L1))) /\ InRange(a0, NMin(N0, NMul(s, so)), NAdd(no, NMax(N0, NMul(s, so))), err(n1, N1)), a |-> None, b |-> None]
  ELSE [ok |-> near(ArrSub(r, ArrAdd(ArrScale(a, L1), ArrScale(b, L2)))) /\ InRange(a, N0, no, err(n1, sine)) /\ InRange(b, N0, so, err(n2, sine)), a |-> NDiv(a, no), b |-> NDiv(b, so)]

Quant == [tlo |-> NSub(IF k = 1 THEN T.t0 ELSE T.E[k - 1].t, T.t0), thi |-> NSub(IF k > N THEN T.tend ELSE E.tb, T.t0), iter |-> iter, g |-> NoGrad, step |-> NoStep, evals |-> T.n + k - 1]

Init == /\ tid \in 1..Len(Traces) /\ k = 1 /\ bad = {} /\ mul = <<>> /\ rem = {} /\ iter = 1
        /\ pos = [i \in 1..Traces[tid].n |-> i] /\ best = pos /\ gs = 0 /\ ph = "top"
        /\ LET B == BestOf(1..Traces[tid].n, Traces[tid].f0) IN IF B = {} THEN g = 0 ELSE g \in B
(* the initial population *)
Refusal == /\ ph = "top" /\ k = 1 /\ (T.exc # "" \/ T.n # Popul \/ ~T.used)
           /\ NJEmit([tid |-> tid, bad |-> IF T.exc # "" THEN {<<"exception", T.exc>>}
                ELSE C("C09", "initial population of " \o NJStr(T.n) \o " evaluated positions is not as requested", 0, FALSE)])
           /\ ph' = "end" /\ UNCHANGED <<tid, k, pos, best, g, gs, rem, iter, mul, bad>>
Live == bad = {} /\ T.exc = "" /\ T.n = Popul /\ T.used
(* an iteration begins with the stopping test *)
Begin == /\ Live /\ ph = "top" /\ k <= N
         /\ bad' = C("C01", "ran past a met limit", k, MustMeet(Lim, Quant, N0) = {})
         /\ gs' = g /\ rem' = 1..T.n /\ ph' = "move"
         /\ UNCHANGED <<tid, k, pos, best, g, iter, mul>>
Move == /\ Live /\ ph = "move" /\ k <= N
        /\ \/ /\ ~\E c \in DOMAIN E.cand : \E i \in rem : pos[i] = E.cand[c].id
              /\ bad' = {<<"a position was reached from one that no particle of this iteration was at", k>>}
              /\ UNCHANGED <<pos, best, g, rem, mul>>
           \/ \E c \in DOMAIN E.cand : \E i \in rem :
                /\ pos[i] = E.cand[c].id
                /\ LET M == IF On("C09") THEN MoveOf(i, E.cand[c]) ELSE [ok |-> TRUE, a |-> None, b |-> None] IN
                   /\ bad' = C("C09", "the move is not inertia plus multiples of the logarithms", k, M.ok)
                   /\ mul' = IF M.a = None /\ M.b = None THEN mul ELSE Append(mul, <<M.a, M.b>>)
                /\ pos' = [pos EXCEPT ![i] = id]
                /\ rem' = rem \ {i}
                /\ \E up \in Better(F[id], F[best[i]]) :
                     /\ best' = IF up THEN [best EXCEPT ![i] = id] ELSE best
                     /\ \E top \in (IF g = 0 THEN {up} ELSE Better(F[id], F[g])) : (top => up) /\ g' = (IF top THEN id ELSE g)
        /\ k' = k + 1
        /\ IF rem' = {} THEN ph' = "top" /\ iter' = iter + 1 ELSE ph' = ph /\ iter' = iter
        /\ UNCHANGED <<tid, gs>>
(* random multiples: neither constant nor a function of one another *)
Known(j) == SelectSeq([i \in DOMAIN mul |-> mul[i][j]], LAMBDA v : v # None)
Same2(a, b) == NLe(NAbs(NSub(a, b)), NDec("1e-4"))
Varies(s) == Len(s) < 3 \/ ~\A i \in DOMAIN s : Same2(s[i], s[1])
Both == SelectSeq(mul, LAMBDA m : m[1] # None /\ m[2] # None)
End == /\ T.exc = "" /\ T.n = Popul /\ T.used /\ ph # "end"
       /\ bad # {} \/ k = N + 1
       /\ NJEmit([tid |-> tid, bad |-> IF bad # {} THEN bad
            ELSE IF ph # "top" THEN {<<"run ended within an iteration", k>>}
            ELSE C("C01", "stopped for a limit that was not met: " \o R.why, k, R.why \in MayMeet(Lim, Quant, N0))
              \cup C("C01", "run time", k, Timely(Quant, R.time, T.t0, T.tend))
              \cup C("C01", "iterations", k, R.iters = iter)
              \cup C("C01", "cost evaluations", k, R.evals = T.n + k - 1)
              \cup C("C02", "cost is not that of the returned point", 0, SameNum(R.cost, R.f))
              \cup C("C02", "returned point is not on the manifold", 0, NLe(MemberRes(T.m, R.x), NMul(NDec("1e-8"), Cond(T.m, R.x))))
              \cup C("C09", "cost is not that of the returned point", 0, SameNum(R.cost, R.f))
              \cup C("C09", "the best position evaluated is not returned", 0, {R.ids[i] : i \in DOMAIN R.ids} \cap BestOf(DOMAIN F, F) # {})
              \cup C("C03", "returned point is worse than an evaluated one", 0, \A v \in DOMAIN F : NIsNaN(F[v]) \/ NLe(R.f, F[v]))
              \cup C("C09", "a multiple is zero", 0, \A i \in DOMAIN mul : \A j \in 1..2 : mul[i][j] = None \/ NLt(NDec("1e-9"), NAbs(mul[i][j])))
              \cup C("C09", "multiples are not random", 0, Varies(Known(1)) /\ Varies(Known(2)) /\ (Len(Both) < 3 \/ ~\A i \in DOMAIN Both : Same2(Both[i][1], Both[i][2])))])
       /\ ph' = "end" /\ UNCHANGED <<tid, k, pos, best, g, gs, rem, iter, mul, bad>>
Next == Refusal \/ Begin \/ Move \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
