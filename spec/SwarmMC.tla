------------------------------ MODULE SwarmMC ------------------------------
(***************************************************************************)
(* Design model of the swarm's memory: Pop particles, Depth iterations, the *)
(* environment chooses the cost of every new position in all classes        *)
(* relative to the particle's own best and the swarm's best.                *)
(***************************************************************************)
EXTENDS Swarm, Sequences, NumJson, TLC
CONSTANTS Pop, Depth
VARIABLES F, best, own, g, seq, p, n, cls, st
vars == <<F, best, own, g, seq, p, n, cls, st>>

Start == IF Pop = 1 THEN {<<N0>>} ELSE IF Pop = 2 THEN {<<N0, N1>>, <<N1, N0>>, <<N0, N0>>} ELSE {<<N1, N0, N2>>, <<N0, N0, N1>>}
Init == /\ F \in Start /\ best = [i \in 1..Pop |-> i] /\ own = [i \in 1..Pop |-> {i}]
        /\ g \in BestOf(1..Pop, F) /\ (\A v \in BestOf(1..Pop, F) : g <= v)
        /\ seq = <<>> /\ p = 1 /\ n = 0 /\ cls = <<>> /\ st = "run"
Id == Len(F) + 1
Mid(a, b) == NMul(NHalf, NAdd(a, b))
Classes == LET b == F[best[p]] x == F[g] IN
  [below |-> NSub(x, N1), tied |-> x, between |-> Mid(x, b), own |-> b, above |-> NAdd(b, N1), nan |-> NNaN]
Move == /\ st = "run" /\ n < Depth
        /\ \E c \in {"below", "tied", "between", "own", "above", "nan"} :
             /\ (c = "between" => NLt(F[g], F[best[p]]))
             /\ (c = "own" => NLt(F[g], F[best[p]]))
             /\ F' = Append(F, Classes[c]) /\ seq' = Append(seq, Classes[c]) /\ cls' = Append(cls, c)
             /\ own' = [own EXCEPT ![p] = @ \cup {Id}]
             /\ \E up \in Better(Classes[c], F[best[p]]) :
                  /\ best' = IF up THEN [best EXCEPT ![p] = Id] ELSE best
                  \* a new best of the swarm is the particle's own best, too
                  /\ \E top \in Better(Classes[c], F[g]) : (top => up) /\ g' = (IF top THEN Id ELSE g)
        /\ IF p = Pop THEN p' = 1 /\ n' = n + 1 ELSE p' = p + 1 /\ n' = n
        /\ st' = st
Done == /\ st = "run" /\ n = Depth
        /\ NJEmit([f0 |-> SubSeq(F, 1, Pop), seq |-> seq, n |-> n, cls |-> cls])
        /\ st' = "end" /\ UNCHANGED <<F, best, own, g, seq, p, n, cls>>
Next == Move \/ Done
Spec == Init /\ [][Next]_vars
(* one script per history of classes *)
View == <<F, cls, p, n, st, best, g>>
OwnBest == \A i \in 1..Pop : best[i] \in BestOf(own[i], F)
TopBest == g \in BestOf(DOMAIN F, F)
Costs == \A i \in 1..Pop : NLe(F[g], F[best[i]])
=============================================================================
