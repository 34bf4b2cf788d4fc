---------------------------- MODULE AdversaryMC ----------------------------
(***************************************************************************)
(* Design model of a descent method with a shipped line search against a    *)
(* cost function that answers every new evaluation as it likes: far below   *)
(* the current cost, barely below, equal, above, undefined or infinite.     *)
(* Every sequence of Length answers is printed as a script.                 *)
(***************************************************************************)
EXTENDS Num, NumJson, TLC, Integers, Sequences
CONSTANTS Length, MaxIts

VARIABLES opt, kind, maxit, f, n, c, seq, fs, st
vars == <<opt, kind, maxit, f, n, c, seq, fs, st>>
Answers == {NSub(f, NInt(1000)), NSub(f, NDec("1e-9")), f, NAdd(f, N1), NNaN, NInf}
Armijo(v) == NLe(v, NSub(f, NInt(500)))
Init == /\ opt \in {"sd", "cg"} /\ kind \in {"bt", "ad"} /\ maxit \in MaxIts
        /\ f = N0 /\ n = 0 /\ c = N0 /\ seq = <<>> /\ fs = <<N0>> /\ st = "eval"
Eval == /\ st = "eval" /\ Len(seq) < Length
        /\ \E v \in Answers : c' = v /\ seq' = Append(seq, v)
        /\ n' = n + 1 /\ st' = "test" /\ UNCHANGED <<opt, kind, maxit, f, fs>>
Test == /\ st = "test"
        /\ IF n <= maxit /\ ~Armijo(c) THEN UNCHANGED <<f, fs, n>>
           ELSE /\ f' = IF NLe(c, f) THEN c ELSE f
                /\ fs' = Append(fs, f') /\ n' = 0
        /\ st' = "eval" /\ UNCHANGED <<opt, kind, maxit, c, seq>>
Done == /\ st = "eval" /\ Len(seq) = Length
        /\ NJEmit([opt |-> opt, kind |-> kind, maxit |-> maxit, seq |-> seq])
        /\ st' = "end" /\ UNCHANGED <<opt, kind, maxit, f, n, c, seq, fs>>
Next == Eval \/ Test \/ Done
Spec == Init /\ [][Next]_vars
Monotone == \A i \in 2..Len(fs) : NLe(fs[i], fs[i - 1])
Defined == NIsFin(f)
=============================================================================
