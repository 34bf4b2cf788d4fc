----------------------------- MODULE Diagnostics -----------------------------
(***************************************************************************)
(* The derivative diagnostics.  A tool looks at a derivative along a curve *)
(* from a point in a direction, and prints and draws a report.  What the   *)
(* report must show depends on which of the things that can be wrong with  *)
(* the derivative are:                                                      *)
(*   g  the gradient has the wrong component along the direction           *)
(*   w  the Hessian has the wrong second derivative along the direction    *)
(*   n  the derivative has a component normal to the tangent space         *)
(*   l  the Hessian is not linear         s  it is not symmetric           *)
(*   d  the retraction agrees with the exponential to zeroth order only    *)
(*   i  the retraction is the exponential itself                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Tools == {"gradient", "hessian", "retraction"}
Kinds(t) == CASE t = "gradient" -> {"g", "n"} [] t = "hessian" -> {"g", "w", "n", "l", "s"} [] t = "retraction" -> {"d", "i"}
Legal(t, F) == F \subseteq Kinds(t) /\ (t = "retraction" => Cardinality(F) <= 1)
(* what the caller provides: nothing, the point, point and direction, the direction alone *)
Given == {"", "x", "xd", "d"}
RefusedInput(t, gv) == t # "retraction" /\ gv = "d"

(* order of the error the tool draws: the first power of the step the model gets wrong *)
Order(t, F) == CASE t = "gradient" -> IF "g" \in F THEN 1 ELSE 2
                 [] t = "hessian" -> IF "g" \in F THEN 1 ELSE IF "w" \in F THEN 2 ELSE 3
                 [] t = "retraction" -> IF "d" \in F THEN 1 ELSE 2       \* at least
GoodOrder(t) == CASE t = "gradient" -> 2 [] t = "hessian" -> 3 [] t = "retraction" -> 2
=============================================================================
