----------------------------- MODULE ProblemMC -----------------------------
(* Every configuration; for the valid ones every sequence of Length uses of  *)
(* its operators at two points; for all of them the attempt to build it with *)
(* one undecorated function, and to override what is fixed.                  *)
EXTENDS Problem, NumJson, TLC
CONSTANTS Length, Backends
VARIABLES c, kept, hist, st
vars == <<c, kept, hist, st>>
Init == /\ c \in [g : Sources, h : Sources, pre : BOOLEAN, be : Backends]
        /\ kept = <<>> /\ hist = <<>> /\ st = "new"
Build == /\ st = "new"
         /\ \E plain \in {"", "cost", "eg", "rg", "eh", "rh"} :
              /\ plain = "" \/ plain \in Functions(c)
              /\ st' = (IF Invalid(c, plain) THEN "refused" ELSE "built")
              /\ NJEmit([c |-> c, plain |-> plain, h |-> <<>>])
         /\ UNCHANGED <<c, kept, hist>>
Use == /\ st = "built" /\ Len(hist) < Length
       /\ \E op \in Ops, p \in (IF hist = <<>> THEN {1} ELSE {1, 2}) :
            /\ hist' = Append(hist, <<op, p, Make(c, op, kept)>>)
            /\ kept' = Keep(kept, c, op)
       /\ UNCHANGED <<c, st>>
Done == /\ st = "built" /\ Len(hist) = Length /\ st' = "end"
        /\ NJEmit([c |-> c, plain |-> "", h |-> [i \in DOMAIN hist |-> <<hist[i][1], hist[i][2]>>]])
        /\ UNCHANGED <<c, kept, hist>>
Next == Build \/ Use \/ Done
Spec == Init /\ [][Next]_vars
(* laziness and caching are not observable *)
NoHistory == \A i \in DOMAIN hist : hist[i][3] = Term(c, hist[i][1])
CacheSound == \A o \in DOMAIN kept : kept[o] = Term(c, o) /\ kept[o] # Refused
(* a supplied operator is the one used *)
Preferred == st = "built" => (c.g = "r" => Term(c, "rg") = <<"user rg">>) /\ (c.h = "r" => Term(c, "rh") = <<"user rh">>)
                          /\ (c.g = "e" => Term(c, "eg") = <<"user eg">>) /\ (c.h = "e" => Term(c, "eh") = <<"user eh">>)
OnlyValid == st \in {"built", "end"} => c.g # "both" /\ c.h # "both"
=============================================================================
