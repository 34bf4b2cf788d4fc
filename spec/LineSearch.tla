----------------------------- MODULE LineSearch -----------------------------
(***************************************************************************)
(* The two line searches of pymanopt.optimizers.line_search as a state      *)
(* machine: a searcher carries one number from search to search; a search   *)
(* evaluates the cost at retractions of alpha * d for a sequence of alphas. *)
(*                                                                         *)
(* par  = [kind, cf, opt, sd, maxit, init]  (kind "bt" or "ad")             *)
(* sr   = the current search [f0, df0, nd]: cost, directional derivative    *)
(*        and norm of the direction handed to the search                    *)
(***************************************************************************)
EXTENDS Num
LOCAL INSTANCE Integers

None == "none"
Has(old) == old # None

(* the first trial step *)
Alpha0(par, old, sr) ==
  IF par.kind = "bt"
  THEN IF Has(old) /\ NLe(sr.f0, old)
       THEN NMul(par.opt, NDiv(NMul(N2, NSub(sr.f0, old)), sr.df0))
       ELSE NDiv(par.init, sr.nd)
  ELSE IF Has(old) THEN old ELSE NDiv(par.init, sr.nd)

ArmijoBound(par, sr, alpha) == NAdd(sr.f0, NMul(par.sd, NMul(alpha, sr.df0)))
Armijo(par, sr, alpha, c) == NLe(c, ArmijoBound(par, sr, alpha))

(* contract after the n-th evaluation?  a comparison that is a tie up to    *)
(* rounding may go either way                                               *)
TieTol == NDec("1e-13")
Tied(a, b) == NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NMul(TieTol, NMax(NAbs(a), NAbs(b))))
MustContract(par, sr, alpha, c, n) == n <= par.maxit /\ ~Armijo(par, sr, alpha, c) /\ ~Tied(c, ArmijoBound(par, sr, alpha))
MayContract(par, sr, alpha, c, n) == n <= par.maxit /\ (~Armijo(par, sr, alpha, c) \/ (Tied(c, ArmijoBound(par, sr, alpha)) /\ ~NEq(c, ArmijoBound(par, sr, alpha))))

Descends(sr, c) == NLe(c, sr.f0)
(* the multiple of d that is finally taken *)
Taken(sr, alpha, c) == IF Descends(sr, c) THEN alpha ELSE N0
Carry(par, sr, taken, n) ==
  IF par.kind = "bt" THEN sr.f0 ELSE IF n = 2 THEN taken ELSE NMul(N2, taken)
=============================================================================
