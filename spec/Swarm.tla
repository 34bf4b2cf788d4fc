------------------------------- MODULE Swarm -------------------------------
(***************************************************************************)
(* Particle swarm: which positions are remembered, and where a particle     *)
(* moves.  F maps the names of evaluated positions to costs.                *)
(***************************************************************************)
EXTENDS Num, Integers, FiniteSets

(* a position evaluated at cost new may replace one of cost old; when tied  *)
(* either of the two is a best position                                     *)
Better(new, old) == IF NIsNaN(new) THEN {FALSE} ELSE IF NLt(new, old) THEN {TRUE} ELSE IF NEq(new, old) THEN {TRUE, FALSE} ELSE {FALSE}
BestOf(S, F) == {v \in S : ~NIsNaN(F[v]) /\ \A w \in S : NIsNaN(F[w]) \/ NLe(F[v], F[w])}
(* linear from 9/10 before the first iteration to 4/10 at the last *)
Inertia(iter, maxit) == NAdd(NDec("0.4"), NMul(NHalf, NSub(N1, NDiv(NInt(iter), NInt(maxit)))))
=============================================================================
