------------------------------ MODULE Simplex ------------------------------
(***************************************************************************)
(* The decisions of the Nelder-Mead method, as functions of costs.  F maps  *)
(* vertex names to costs; S is the current simplex, a set of names.  A cost *)
(* that is not a number counts as the worst possible.                       *)
(***************************************************************************)
EXTENDS Num, Integers, FiniteSets

Leq(a, b) == NIsNaN(b) \/ (~NIsNaN(a) /\ NLe(a, b))
Less(a, b) == ~Leq(b, a)
Worst(S, F) == {v \in S : \A w \in S : Leq(F[w], F[v])}
Best(S, F) == {v \in S : \A w \in S : Leq(F[v], F[w])}
MaxCost(S, F) == F[CHOOSE v \in Worst(S, F) : TRUE]
MinCost(S, F) == F[CHOOSE v \in Best(S, F) : TRUE]

(* what follows a reflection of vertex w with cost r *)
AfterReflection(S, F, w, r) ==
  LET best == MinCost(S, F) second == MaxCost(S \ {w}, F) worst == F[w] IN
  IF NIsNaN(r) THEN {"inside", "shrink"}     \* an undefined trial: worse than everything
  ELSE IF Less(r, best) THEN {"expand"}
  ELSE IF Less(r, second) THEN {"take"}
  ELSE IF Less(r, worst) THEN {"outside"}
  ELSE {"inside"}
(* an expansion with cost e keeps the better point, the reflection if tied *)
KeepExpansion(e, r) == Less(e, r)
KeepOutside(c, r) == ~NIsNaN(c) /\ Leq(c, r)
KeepInside(c, worst) == ~NIsNaN(c) /\ Leq(c, worst)
=============================================================================
