--------------------------- MODULE DiagnosticsMC ---------------------------
(* A run of a tool on every combination of faults and of provided arguments: *)
(* the report it arrives at is clean exactly if nothing is wrong, and every   *)
(* kind of fault shows in the part of the report made for it.                *)
EXTENDS Diagnostics, NumJson, TLC
VARIABLES tool, F, gv, pc, point, dir, report
vars == <<tool, F, gv, pc, point, dir, report>>
Blank == [order |-> 0, residual |-> "", linear |-> "", symmetric |-> ""]
Init == /\ tool \in Tools /\ F \in {G \in SUBSET {"g", "w", "n", "l", "s", "d", "i"} : Legal(tool, G)} /\ gv \in Given
        /\ pc = "start" /\ point = "" /\ dir = "" /\ report = Blank
Refuse == pc = "start" /\ RefusedInput(tool, gv) /\ pc' = "refused" /\ UNCHANGED <<tool, F, gv, point, dir, report>>
PickPoint == /\ pc = "start" /\ ~RefusedInput(tool, gv) /\ pc' = "direction"
             /\ point' = (IF gv \in {"x", "xd"} THEN "caller's" ELSE "random")
             /\ UNCHANGED <<tool, F, gv, dir, report>>
PickDir == /\ pc = "direction" /\ pc' = "curve"
           /\ dir' = (IF gv = "xd" THEN "caller's" ELSE "random at the point")
           /\ UNCHANGED <<tool, F, gv, point, report>>
Curve == /\ pc = "curve" /\ report' = [report EXCEPT !.order = Order(tool, F)]
         /\ pc' = (IF tool = "retraction" THEN "end" ELSE "tangency") /\ UNCHANGED <<tool, F, gv, point, dir>>
Tangency == /\ pc = "tangency" /\ report' = [report EXCEPT !.residual = IF "n" \in F THEN "not 0" ELSE "0"]
            /\ pc' = (IF tool = "hessian" THEN "linear" ELSE "end") /\ UNCHANGED <<tool, F, gv, point, dir>>
Linear == /\ pc = "linear" /\ report' = [report EXCEPT !.linear = IF "l" \in F THEN "not 0" ELSE "0"]
          /\ pc' = "symmetric" /\ UNCHANGED <<tool, F, gv, point, dir>>
Symmetric == /\ pc = "symmetric" /\ report' = [report EXCEPT !.symmetric = IF "s" \in F THEN "not 0" ELSE "0"]
             /\ pc' = "end" /\ UNCHANGED <<tool, F, gv, point, dir>>
Next == Refuse \/ PickPoint \/ PickDir \/ Curve \/ Tangency \/ Linear \/ Symmetric
Spec == Init /\ [][Next]_vars
Clean(r) == r.order >= GoodOrder(tool) /\ r.residual # "not 0" /\ r.linear # "not 0" /\ r.symmetric # "not 0"
Exposes == pc = "end" => (Clean(report) <=> F \subseteq {"i"})
OneLower == pc = "end" /\ F \in {{"g"}, {"w"}, {"d"}} /\ ~("g" \in F /\ tool = "hessian") => report.order = GoodOrder(tool) - 1
OwnPoint == pc \in {"curve", "tangency", "linear", "symmetric", "end"} /\ gv \in {"x", "xd"} => point = "caller's"
Emit == pc = "start" => NJEmit([tool |-> tool, faults |-> F, given |-> gv])
=============================================================================
