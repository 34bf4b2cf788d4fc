----------------------------- MODULE DirectionMC -----------------------------
(***************************************************************************)
(* Design model of the conjugate-gradient recurrence in the plane: the      *)
(* environment chooses the gradients met at successive iterates and whether *)
(* the line search moves; every sequence is printed as a script.            *)
(***************************************************************************)
EXTENDS Descent, NumJson, TLC
CONSTANTS Depth, Gradients, OrthValues

VARIABLES rule, orth, pre, g, p, d, k, hist, st, why
vars == <<rule, orth, pre, g, p, d, k, hist, st, why>>
M == [kind |-> "euc", shape |-> <<2>>, k |-> 1, cplx |-> FALSE, retr |-> "", par |-> FALSE, span |-> <<>>, comp |-> FALSE, f |-> <<>>]
V(a) == <<NInt(a[1]), NInt(a[2])>>
Prec(c, v) == IF c = "id" THEN v ELSE <<v[1], NMul(NInt(4), v[2])>>
OrthV == IF orth = 0 THEN NInf ELSE NDiv(NInt(orth), NInt(4))
Z2 == <<N0, N0>>

GVecs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 2>>, <<2, -1>>, <<-2, -1>>}
Init == /\ rule \in Rules /\ orth \in OrthValues /\ pre \in {"id", "diag"}
        /\ \E v \in Gradients \ {<<0, 0>>} : g = V(v)
        /\ p = Prec(pre, g) /\ d = ArrNeg(Prec(pre, g)) /\ k = 1 /\ hist = <<[g |-> g, step |-> N0]>> /\ st = "search" /\ why = "first"
(* the next iterate: gradient ng *)
Step == /\ st = "search" /\ k < Depth
        /\ \E v \in Gradients :
             LET ng == V(v) np == Prec(pre, ng)
                 dd == IF NLt(Inner(M, Z2, g, d), N0) THEN d ELSE ArrNeg(p)      \* the direction searched
                 a == Products(M, Z2, Z2, g, p, dd, ng, np, g, dd, p)
                 e == NDec("1e-30") IN
             /\ hist' = Append(hist, [g |-> ng, step |-> N1])
             /\ g' = ng /\ p' = np /\ k' = k + 1
             /\ IF NEq(a.nn, N0) \/ NLe(OrthV, Powell(a)) THEN d' = ArrNeg(np) /\ why' = "restart"
                ELSE IF ~Sound(rule, a, e) THEN d' = ArrNeg(np) /\ why' = "undefined"
                ELSE LET b == CHOOSE z \in Betas(rule, a) : TRUE
                         c == ArrAdd(ArrNeg(np), ArrScale(b, dd)) IN
                     d' = c /\ why' = IF NLt(Inner(M, Z2, ng, c), N0) THEN (IF NEq(b, N0) THEN "zero" ELSE "beta") ELSE "ascent"
        /\ UNCHANGED <<rule, orth, pre, st>>
Finish == /\ st = "search" /\ k = Depth
          /\ st' = "end"
          /\ NJEmit([rule |-> rule, orth |-> OrthV, pre |-> pre, h |-> hist, why |-> why])
          /\ UNCHANGED <<rule, orth, pre, g, p, d, k, hist, why>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* the direction searched is never one of ascent *)
Searched == IF NLt(Inner(M, Z2, g, d), N0) THEN d ELSE ArrNeg(p)
Descends == NLe(Inner(M, Z2, g, Searched), N0)
=============================================================================
