----------------------------- MODULE SimplexMC -----------------------------
(***************************************************************************)
(* Design model of Nelder-Mead in dimension Dim: the environment chooses    *)
(* every cost, in all classes relative to the costs the next decision       *)
(* compares it with (below, tied, between, above, undefined).               *)
(* Every history of Depth iterations is printed as a script of costs.       *)
(***************************************************************************)
EXTENDS Simplex, Sequences, NumJson, TLC
CONSTANTS Dim, Depth, Init0

VARIABLES F, S, ph, w, r, rem, seq, n, best0, br
vars == <<F, S, ph, w, r, rem, seq, n, best0, br>>

Mid(a, b) == IF NIsNaN(b) THEN NAdd(a, N1) ELSE NMul(NHalf, NAdd(a, b))
Below(a) == IF NIsNaN(a) THEN N0 ELSE NSub(a, N1)
Above(a) == IF NIsNaN(a) THEN N0 ELSE NAdd(a, N1)
ReflCosts == LET b == MinCost(S, F) s == MaxCost(S \ {w}, F) x == F[w] IN
  {Below(b), b, Mid(b, s), s, Mid(s, x), x, Above(x), NNaN}
Starts == {<<N0, N1, N2>>, <<N0, N0, N1>>, <<N0, N1, N1>>, <<N1, N1, N1>>, <<N2, N0, N1>>} \cup (IF Init0 = "nan" THEN {<<N0, N1, NNaN>>} ELSE {})
Init == /\ \E c \in Starts : F = c /\ seq = <<>>
        /\ S = 1..(Dim + 1) /\ ph = "loop" /\ w = 0 /\ r = 0 /\ rem = {} /\ n = 0 /\ best0 = NInf /\ br = <<>>
New(c) == Len(F) + 1
Ext(c) == F' = Append(F, c) /\ seq' = Append(seq, c)
Take(v) == S' = (S \ {w}) \cup {v} /\ ph' = "loop" /\ n' = n + 1 /\ rem' = {}
Goto(p) == ph' = p /\ S' = S /\ n' = n /\ rem' = (IF p = "shrink" THEN S \ {CHOOSE b \in Best(S, F) : TRUE} ELSE {})
Pick == /\ ph = "loop" /\ n < Depth
        /\ w' \in Worst(S, F) /\ (\A v \in Worst(S, F) : v <= w') /\ ph' = "reflect" /\ best0' = MinCost(S, F)
        /\ UNCHANGED <<F, S, r, rem, seq, n, br>>
Reflect == /\ ph = "reflect"
           /\ \E c \in ReflCosts : /\ Ext(c) /\ r' = New(c)
                /\ \E d \in AfterReflection(S, F, w, c) :
                     /\ (NIsNaN(c) => d = "shrink")
                     /\ br' = Append(br, d)
                     /\ IF d = "take" THEN Take(New(c)) ELSE Goto(d)
           /\ UNCHANGED <<w, best0>>
Expand == /\ ph = "expand"
          /\ \E c \in {Below(F[r]), F[r], Above(F[r]), NNaN} : Ext(c) /\ Take(IF KeepExpansion(c, F[r]) THEN New(c) ELSE r)
          /\ UNCHANGED <<w, r, best0, br>>
Contract == /\ ph \in {"outside", "inside"}
            /\ LET ref == IF ph = "outside" THEN F[r] ELSE F[w] IN
               \E c \in {Below(MinCost(S, F)), ref, Above(ref), NNaN} :
                 /\ Ext(c)
                 /\ IF (IF ph = "outside" THEN KeepOutside(c, ref) ELSE KeepInside(c, ref)) THEN Take(New(c)) /\ br' = br
                    ELSE Goto("shrink") /\ br' = Append(br, "shrink")
            /\ UNCHANGED <<w, r, best0>>
ShrinkAll == /\ ph = "shrink"
             /\ \E a, b \in {Below(MinCost(S, F)), Mid(MinCost(S, F), MaxCost(S, F)), Above(MaxCost(S, F))} :
                  /\ F' = F \o <<a, b>> /\ seq' = seq \o <<a, b>>
                  /\ S' = (S \ rem) \cup {Len(F) + 1, Len(F) + 2}
             /\ ph' = "loop" /\ n' = n + 1 /\ rem' = {}
             /\ UNCHANGED <<w, r, best0, br>>
Done == /\ ph = "loop" /\ n = Depth
        /\ NJEmit([f0 |-> SubSeq(F, 1, Dim + 1), seq |-> seq, n |-> n, br |-> br])
        /\ ph' = "end" /\ UNCHANGED <<F, S, w, r, rem, seq, n, best0, br>>
Next == Pick \/ Reflect \/ Expand \/ Contract \/ ShrinkAll \/ Done
Spec == Init /\ [][Next]_vars

(* the simplex keeps its size, its best cost never increases *)
Size == Cardinality(S) = Dim + 1
Monotone == ph = "loop" => Leq(MinCost(S, F), best0)
(* the best vertex ever seen is still there *)
KeepsBest == ph = "loop" => \A v \in DOMAIN F : \/ Leq(MinCost(S, F), F[v])
=============================================================================
