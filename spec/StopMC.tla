------------------------------- MODULE StopMC -------------------------------
(***************************************************************************)
(* Design model of the outer loops: an environment is free to choose the    *)
(* gradient norms, step sizes and clock readings a run can produce, in      *)
(* classes around the limits (below, exactly at, above).  Every way a run   *)
(* can end is printed as a script.                                          *)
(*   sd: check after the search of each iteration, with the gradient norm   *)
(*       and step of that iteration                                         *)
(*   cg: check before the search, with the gradient norm at the current     *)
(*       point and the step that led to it                                  *)
(*   tr: check after each trial step, with the norm at the kept point       *)
(*   nm, pso: check before each iteration, with the evaluations so far      *)
(***************************************************************************)
EXTENDS Stopping, NumJson, TLC, Integers, FiniteSets, Sequences
CONSTANTS Opts, Depth, Idles    \* Idles: {0}, or numbers of iterations in which nothing happens before something may

VARIABLES opt, lim, idle, t, k, g, s, ev, hist, st
vars == <<opt, lim, idle, t, k, g, s, ev, hist, st>>

q(a, b) == NDiv(NInt(a), NInt(b))
(* a choice is free in every iteration, or only after idle iterations *)
Grads(kk) == IF idle = 0 THEN {q(1, 4), NHalf, N1} ELSE IF kk = idle THEN {q(1, 4), N1} ELSE {N1}         \* limit 1/2
Steps(kk) == IF idle = 0 THEN {q(1, 8), q(1, 4), N1} ELSE IF kk = idle THEN {q(1, 8), N1} ELSE {N1}       \* limit 1/4
Dts(kk) == IF idle = 0 THEN {0, 2} ELSE IF kk = idle THEN {0, 4} ELSE {0}
Evals(kk) == IF opt = "pso" THEN {3} ELSE IF idle = 0 THEN {1, 2, 4} ELSE IF kk = idle THEN {1, 2} ELSE {1}
Line(o) == o \in {"sd", "cg"}
Free(o) == o \in {"nm", "pso"}
Times == {4, 1000}
Init ==
  /\ opt \in Opts
  /\ idle \in Idles
  /\ lim \in [time : IF idle = 0 THEN Times ELSE {4}, iters : IF idle = 0 THEN {1, 2, Depth} ELSE {idle + 2},
              grad : IF Free(opt) THEN {N0} ELSE {NHalf}, step : IF Line(opt) THEN {q(1, 4)} ELSE {N0},
              evals : IF ~Free(opt) THEN {1000} ELSE IF idle = 0 THEN {3, 5, 8, 1000}
                      ELSE {3 + idle * (IF opt = "nm" THEN 1 ELSE 3), 1000}]
  /\ t = 0 /\ k = 0 /\ g = NInf /\ s = NInf /\ hist = <<>>
  /\ ev = IF Free(opt) THEN 3 ELSE 0
  /\ st = "loop"
Q == [tlo |-> t, thi |-> t, iter |-> k, g |-> IF Free(opt) THEN NoGrad ELSE g,
      step |-> IF Line(opt) THEN s ELSE NoStep, evals |-> IF Free(opt) THEN ev ELSE NoEvals]
Met == MustMeet(lim, Q, N0)
(* one iteration: choices of the environment up to the next check *)
Begin == /\ st = "loop"
         /\ k' = k + 1
         /\ IF Free(opt) THEN st' = "check" /\ UNCHANGED <<t, g, s, ev, hist>>
            ELSE \E gn \in Grads(k), dt \in Dts(k) :
                   /\ g' = gn /\ t' = t + (IF k = 0 /\ opt = "cg" THEN 0 ELSE dt)
                   /\ hist' = Append(hist, [g |-> gn, dt |-> dt, s |-> s, ds |-> 0, ne |-> 0])
                   /\ UNCHANGED ev
                   /\ IF opt = "sd" THEN st' = "clock" /\ \E sz \in Steps(k) : s' = sz
                      ELSE s' = s /\ st' = "check"
         /\ UNCHANGED <<opt, lim, idle>>
(* steepest descent: the search takes time before the check *)
Tick == /\ st = "clock"
        /\ \E ds \in Dts(k - 1) : t' = t + ds /\ hist' = [hist EXCEPT ![Len(hist)].ds = ds, ![Len(hist)].s = s]
        /\ st' = "check" /\ UNCHANGED <<opt, lim, idle, k, g, s, ev>>
Stop == /\ st = "check" /\ Met # {}
        /\ st' = "end"
        /\ NJEmit([opt |-> opt, lim |-> lim, h |-> hist, n |-> k, met |-> Met])
        /\ UNCHANGED <<opt, lim, idle, t, k, g, s, ev, hist>>
Go == /\ st = "check" /\ Met = {}
      /\ st' = "loop" /\ UNCHANGED <<opt, lim, idle, k, g>>
      /\ IF opt = "cg" THEN \E sz \in Steps(k), ds \in Dts(k) :
              s' = sz /\ t' = t + ds /\ hist' = [hist EXCEPT ![Len(hist)].s = sz, ![Len(hist)].ds = ds] /\ ev' = ev
         ELSE IF Free(opt) THEN \E ne \in Evals(k), dt \in Dts(k) :
              ev' = ev + ne /\ t' = t + dt /\ s' = s /\ hist' = Append(hist, [g |-> N0, dt |-> dt, s |-> N0, ds |-> 0, ne |-> ne])
         ELSE UNCHANGED <<s, t, ev, hist>>
Next == Begin \/ Tick \/ Stop \/ Go
Spec == Init /\ [][Next]_vars
Last(n) == [i \in 1..(IF Len(hist) < n THEN Len(hist) ELSE n) |-> hist[Len(hist) + 1 - i]]
View == <<opt, lim, idle, t, k, g, s, ev, st, Last(1)>>
(* a run never goes past its iteration limit, and never continues after its time limit *)
Bounded == k <= lim.iters
InTime == st = "loop" /\ k > 0 /\ opt \in {"sd", "tr"} => t < lim.time
=============================================================================
