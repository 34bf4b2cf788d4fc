------------------------------ MODULE Stopping ------------------------------
(***************************************************************************)
(* The per-iteration stopping test shared by all optimizers.                *)
(*                                                                         *)
(* lim = [time, iters, grad, step, evals]; a limit that an optimizer does   *)
(* not use is passed as a quantity that can never meet it.                  *)
(* q = [tlo, thi, iter, g, step, evals]: what the limits are compared with; *)
(* the run time is known to lie in [tlo, thi].                              *)
(***************************************************************************)
EXTENDS Num

StopNames == {"time", "iters", "grad", "step", "evals"}
(* slack: relative size of a comparison that rounding may decide either way *)
Below(a, b, slack) == NLt(a, NSub(b, NMul(slack, NAbs(b))))
MayBelow(a, b, slack) == NLt(a, NAdd(b, NMul(slack, NAbs(b))))
MustMeet(lim, q, slack) ==
  {n \in StopNames :
     CASE n = "time" -> NLe(lim.time, q.tlo)
       [] n = "iters" -> NLe(lim.iters, q.iter)
       [] n = "grad" -> Below(q.g, lim.grad, slack)
       [] n = "step" -> Below(q.step, lim.step, slack)
       [] n = "evals" -> NLe(lim.evals, q.evals)}
MayMeet(lim, q, slack) ==
  {n \in StopNames :
     CASE n = "time" -> NLe(lim.time, q.thi)
       [] n = "iters" -> NLe(lim.iters, q.iter)
       [] n = "grad" -> MayBelow(q.g, lim.grad, slack)
       [] n = "step" -> MayBelow(q.step, lim.step, slack)
       [] n = "evals" -> NLe(lim.evals, q.evals)}
(* the run time a result reports: at least what had passed at the last test, at most what has passed at its end *)
Timely(q, time, t0, tend) == NLe(NSub(q.tlo, NDec("1e-6")), time) /\ NLe(time, NAdd(NSub(tend, t0), NDec("1e-6")))
(* quantities that never meet a limit *)
NoGrad == NInf
NoStep == NInf
NoEvals == NInt(0 - 1)
=============================================================================
