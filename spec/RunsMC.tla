------------------------------- MODULE RunsMC -------------------------------
(* Every sequence of Length runs of two optimizer objects made with the same *)
(* settings, with for each run the chain a fresh object has to go through   *)
(* to reproduce it.                                                          *)
EXTENDS Runs, Integers, FiniteSets, NumJson, TLC
CONSTANTS Kinds, Length
VARIABLES kind, chain, hist, st
vars == <<kind, chain, hist, st>>
Searching(o) == o \in {"sd", "cg"}
Starts(o) == IF Searching(o) THEN {<<"given", 1>>} ELSE {<<"given", 1>>, <<"none", 1>>, <<"none", 2>>}
Init == kind \in Kinds /\ chain = [o \in {1, 2} |-> <<>>] /\ hist = <<>> /\ st = "run"
Run == /\ st = "run" /\ Len(hist) < Length
       /\ \E o \in (IF hist = <<>> THEN {1} ELSE {1, 2}), p \in {"A", "B"}, r \in (IF Searching(kind) THEN {FALSE, TRUE} ELSE {FALSE}), s \in Starts(kind) :
            LET q == [prob |-> p, start |-> s[1], seed |-> s[2]] IN
            /\ hist' = Append(hist, [obj |-> o, req |-> q, reuse |-> r, chain |-> Chain(chain[o], r)])
            /\ chain' = [chain EXCEPT ![o] = After(@, r, q)]
       /\ UNCHANGED <<kind, st>>
Done == /\ st = "run" /\ Len(hist) = Length /\ st' = "end" /\ NJEmit([kind |-> kind, h |-> hist]) /\ UNCHANGED <<kind, chain, hist>>
Next == Run \/ Done
Spec == Init /\ [][Next]_vars
(* without a request to reuse, a run has no history *)
Independent == \A i \in DOMAIN hist : ~hist[i].reuse => hist[i].chain = <<>>
Bounded == \A i \in DOMAIN hist : Len(hist[i].chain) < i
=============================================================================
