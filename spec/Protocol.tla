------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* Histories of calls to a manifold.  A history builds a point x by random  *)
(* generation and a chain of moves, a partner point y in some relation to   *)
(* x, and a tangent vector u at x of some provenance; every operation is    *)
(* then called on these operands.  TLC enumerates the histories that differ *)
(* in how their operands came about.                                        *)
(***************************************************************************)
EXTENDS NumJson, Naturals, Sequences
CONSTANT MaxMoves
VARIABLES h, px, moves, py, pu
vars == <<h, px, moves, py, pu>>
None == "none"
Points == {"rand", "std"}
Partners == {"same", "copy", "indep", "near", "tiny", "mixed", "far", "prev"}
Vectors == {"rand", "zero", "basis", "tiny", "big", "log", "proj", "transp", "comb", "grad"}
Init == h = <<>> /\ px = <<>> /\ moves = 0 /\ py = None /\ pu = None
NewPoint(p) == px = <<>> /\ px' = <<p>> /\ h' = Append(h, <<"point", p>>) /\ UNCHANGED <<moves, py, pu>>
Partner(p) == /\ px # <<>> /\ py = None /\ (p = "prev" => moves > 0)
              /\ py' = p /\ h' = Append(h, <<"partner", p>>) /\ UNCHANGED <<px, moves, pu>>
(* a logarithm and a transported vector need a partner; a combination of vectors a vector *)
Vector(p) == /\ px # <<>> /\ pu = None /\ (p \in {"log", "transp"} => py # None)
             /\ pu' = p /\ h' = Append(h, <<"vector", p>>) /\ UNCHANGED <<px, moves, py>>
MoveAlong(op) == /\ pu # None /\ moves < MaxMoves
                 /\ px' = <<op, pu>> /\ moves' = moves + 1 /\ py' = None /\ pu' = None
                 /\ h' = Append(h, <<op>>)
MoveBetween == /\ py # None /\ moves < MaxMoves
               /\ px' = <<"mean", py>> /\ moves' = moves + 1 /\ py' = None /\ pu' = None
               /\ h' = Append(h, <<"mean">>)
Next == \/ \E p \in Points : NewPoint(p)
        \/ \E p \in Partners : Partner(p)
        \/ \E p \in Vectors : Vector(p)
        \/ MoveAlong("exp") \/ MoveAlong("retr") \/ MoveBetween
Spec == Init /\ [][Next]_vars
View == <<px, moves, py, pu>>
Complete == py # None /\ pu # None
(* every complete history is handed to the replayer *)
Emit == Complete => NJEmit([h |-> h, px |-> px, py |-> py, pu |-> pu, moves |-> moves])
=============================================================================
