---------------------------- MODULE LineSearchMC ----------------------------
(***************************************************************************)
(* Design model: every sequence of up to Searches searches by one searcher  *)
(* against an environment that is free to choose cost values (from the      *)
(* classes below, relative to the thresholds of the search) and the data of *)
(* each search.  Every complete history is printed as a script which the    *)
(* harness drives through the real searchers.                               *)
(***************************************************************************)
EXTENDS LineSearch, NumJson, TLC, FiniteSets, Integers
CONSTANTS Searches, MaxIts

VARIABLES par, old, phase, sr, alpha, n, c, hist, s, done
vars == <<par, old, phase, sr, alpha, n, c, hist, s, done>>

q(a, b) == NDiv(NInt(a), NInt(b))
Pars == {[kind |-> k, cf |-> x[1], opt |-> x[2], sd |-> x[3], maxit |-> m, init |-> x[4]] :
          k \in {"bt", "ad"}, m \in MaxIts,
          x \in {<<NHalf, N2, q(1, 2), N1>>, <<q(1, 4), N1, q(1, 8), q(3, 1)>>}}
Tiny == NDiv(N1, NInt(1048576))
Norms == {NHalf, NInt(2), N0}
Slopes == {NInt(0 - 1), NInt(0 - 4)}
(* start cost of the next search: where the last one ended, or elsewhere (searcher reused) *)
Starts == IF Len(hist) = 0 THEN {N0} ELSE
            LET h == hist[Len(hist)] IN
              {IF h.out = "x" THEN h.f0 ELSE h.costs[Len(h.costs)], NSub(h.f0, N1), NAdd(h.f0, N1), h.f0}
Costs == IF NEq(alpha, N0) THEN {sr.f0} ELSE
         LET B == ArmijoBound(par, sr, alpha) IN
           {NSub(B, N1), B, NDiv(NAdd(B, sr.f0), N2), sr.f0, NAdd(B, Tiny), NAdd(sr.f0, Tiny), NNaN, NInf}

Init == /\ par \in Pars /\ old = None /\ phase = "idle" /\ sr = None /\ alpha = N0
        /\ n = 0 /\ c = N0 /\ hist = <<>> /\ s = 0 /\ done = FALSE
Start == /\ phase = "idle" /\ s < Searches
         /\ \E f0 \in Starts, df0 \in Slopes, nd \in Norms :
              /\ sr' = [f0 |-> f0, df0 |-> df0, nd |-> nd]
              /\ s' = s + 1 /\ n' = 0 /\ c' = N0
              /\ hist' = Append(hist, [f0 |-> f0, df0 |-> df0, nd |-> nd, costs |-> <<>>, out |-> "x", taken |-> N0])
              /\ IF NEq(nd, N0) THEN phase' = "idle" /\ alpha' = N0
                 ELSE phase' = "eval" /\ alpha' = Alpha0(par, old, sr')
              /\ UNCHANGED <<par, old, done>>
L == Len(hist)
Eval == /\ phase = "eval"
        /\ \E v \in Costs : c' = v /\ hist' = [hist EXCEPT ![L].costs = Append(@, v)]
        /\ n' = n + 1 /\ phase' = "test"
        /\ UNCHANGED <<par, old, sr, alpha, s, done>>
Contract == /\ phase = "test" /\ n <= par.maxit /\ ~Armijo(par, sr, alpha, c)
            /\ alpha' = NMul(par.cf, alpha) /\ phase' = "eval"
            /\ UNCHANGED <<par, old, sr, n, c, hist, s, done>>
Return == /\ phase = "test" /\ ~(n <= par.maxit /\ ~Armijo(par, sr, alpha, c))
          /\ LET t == Taken(sr, alpha, c) IN
               /\ old' = Carry(par, sr, t, n)
               /\ hist' = [hist EXCEPT ![L].out = IF Descends(sr, c) THEN "trial" ELSE "x", ![L].taken = t]
          /\ phase' = "idle"
          /\ UNCHANGED <<par, sr, alpha, n, c, s, done>>
Finish == /\ phase = "idle" /\ s = Searches /\ ~done
          /\ done' = TRUE
          /\ NJEmit([par |-> par, h |-> hist])
          /\ UNCHANGED <<par, old, phase, sr, alpha, n, c, hist, s>>
Next == Start \/ Eval \/ Contract \/ Return \/ Finish
Spec == Init /\ [][Next]_vars

(* the history is only there to be printed *)
View == <<par, old, phase, sr, alpha, n, c, s, done, IF Len(hist) > 0 THEN hist[Len(hist)].out ELSE "">>
(* design invariants *)
NonNegative == NLe(N0, alpha)
NeverWorse == phase = "idle" /\ L > 0 =>
                LET h == hist[L] IN
                  h.out = "trial" => NLe(h.costs[Len(h.costs)], h.f0)
Bounded == n <= par.maxit + 1
ReturnsEvaluated == phase = "idle" /\ L > 0 /\ hist[L].out = "trial" => Len(hist[L].costs) > 0
=============================================================================
