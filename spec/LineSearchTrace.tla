-------------------------- MODULE LineSearchTrace --------------------------
(***************************************************************************)
(* Recorded searches of the real searchers, replayed through LineSearch.    *)
(* A trace is [par, h, exact]; h a sequence of calls search(...) of one searcher:  *)
(*  [f0, df0, nd, trials = <<[a, c]>>, step, ret, exc, same]                *)
(* same: the point and the direction were left alone (C26); exact: all       *)
(* arithmetic of the search was exact, so no comparison is a tie             *)
(* a: multiple of d at which the cost was evaluated, c: the value returned, *)
(* ret: 0 when the starting point was returned, i when the point of the     *)
(* i-th trial was, -1 otherwise.                                            *)
(***************************************************************************)
EXTENDS LineSearch, NumJson, TLC, Integers, FiniteSets

Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, j, i, old, alpha, bad, st
vars == <<tid, j, i, old, alpha, bad, st>>
T == Traces[tid]
H == T.h
E == H[j]
par == T.par
Tol == NDec("1e-9")
Same(a, b) == NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NMul(Tol, NMax(NAbs(a), NAbs(b))))
Fail(c) == {<<c, j>>}
SR == [f0 |-> E.f0, df0 |-> E.df0, nd |-> E.nd]

Init == tid \in 1..Len(Traces) /\ j = 1 /\ i = 0 /\ old = None /\ alpha = N0 /\ bad = {} /\ st = "start"

(* a search along the zero direction returns the starting point *)
ZeroDir == /\ st = "start" /\ j <= Len(H) /\ E.exc = "" /\ NEq(E.nd, N0)
           /\ bad' = bad \cup (IF E.ret # 0 \/ ~NEq(E.step, N0) THEN Fail("zero-direction") ELSE {})
           /\ j' = j + 1 /\ UNCHANGED <<tid, i, old, alpha, st>>
Start == /\ st = "start" /\ j <= Len(H) /\ E.exc = "" /\ ~NEq(E.nd, N0)
         /\ alpha' = Alpha0(par, old, SR) /\ i' = 1 /\ st' = "trial"
         /\ UNCHANGED <<tid, j, old, bad>>
(* the i-th evaluation happened, at the alpha the specification prescribes *)
Here == i <= Len(E.trials)
Bad1 == IF ~Here THEN Fail("missing-trial")
        ELSE (IF ~Same(E.trials[i].a, alpha) THEN Fail(IF i = 1 THEN "first-step" ELSE "contraction") ELSE {})
             \cup (IF ~NLe(N0, E.trials[i].a) THEN Fail("negative-step") ELSE {})
c == E.trials[i].c
Contract == /\ st = "trial" /\ Bad1 = {} /\ (IF T.exact THEN i <= par.maxit /\ ~Armijo(par, SR, alpha, c) ELSE MayContract(par, SR, alpha, c, i))
            /\ alpha' = NMul(par.cf, alpha) /\ i' = i + 1
            /\ UNCHANGED <<tid, j, old, bad, st>>
Return == /\ st = "trial" /\ Bad1 = {} /\ ~(IF T.exact THEN i <= par.maxit /\ ~Armijo(par, SR, alpha, c) ELSE MustContract(par, SR, alpha, c, i))
          /\ LET t == Taken(SR, alpha, c) IN
             /\ bad' = bad \cup (IF Len(E.trials) > i THEN Fail("extra-trial") ELSE {})
                           \cup (IF Descends(SR, c) THEN (IF E.ret # i /\ ~NEq(alpha, N0) THEN Fail("returned-point") ELSE {})
                                 ELSE (IF E.ret # 0 THEN Fail("worse-point-returned") ELSE {}))
                           \cup (IF ~Same(E.step, NMul(t, E.nd)) THEN Fail("step-size") ELSE {})
             /\ old' = Carry(par, SR, t, i)
          /\ st' = "start" /\ j' = j + 1 /\ UNCHANGED <<tid, i, alpha>>
(* nothing explains the recorded call: report and end this trace *)
Reject == /\ st = "trial" /\ Bad1 # {}
          /\ bad' = bad \cup Bad1 /\ j' = Len(H) + 1 /\ st' = "start"
          /\ UNCHANGED <<tid, i, old, alpha>>
Raised == /\ st = "start" /\ j <= Len(H) /\ E.exc # ""
          /\ bad' = bad \cup {<<"exception", j, E.exc>>} /\ j' = Len(H) + 1
          /\ UNCHANGED <<tid, i, old, alpha, st>>
End == /\ st = "start" /\ j = Len(H) + 1
       /\ NJEmit([tid |-> tid, bad |-> IF NJEnv("VP_PROP") = "C26" THEN {<<"line search: modified its arguments", q>> : q \in {q \in DOMAIN H : ~H[q].same}} ELSE bad])
       /\ st' = "end" /\ UNCHANGED <<tid, j, i, old, alpha, bad>>
Next == ZeroDir \/ Start \/ Contract \/ Return \/ Reject \/ Raised \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
