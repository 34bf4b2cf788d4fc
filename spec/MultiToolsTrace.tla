--------------------------- MODULE MultiToolsTrace ---------------------------
(* Recorded calls: T = [q, A (sequence of matrices), r (their results), refs,  *)
(* stacked, exc, same, again, typed]                                           *)
EXTENDS MultiTools, Verdict
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]
Name == T.q.fn \o (IF T.q.opt = "" THEN "" ELSE " " \o T.q.opt)
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Whole == /\ i = 0
         /\ bad' = IF T.exc # "" THEN {<<Name \o ": exception: " \o T.exc, 0>>}
                   ELSE IF ~T.stacked \/ Len(T.r) # Len(T.A) THEN {<<Name \o ": result is no stack like the input", 0>>}
                   ELSE (IF T.same THEN {} ELSE {<<Name \o ": the input was modified", 0>>})
                        \cup (IF T.typed THEN {} ELSE {<<Name \o ": complex result of real input", 0>>})
         /\ i' = (IF T.exc # "" \/ ~T.stacked THEN Len(T.A) + 1 ELSE 1) /\ tid' = tid
Each == /\ i >= 1 /\ i <= Len(T.A)
        /\ bad' = bad \cup (IF i <= Len(T.r) /\ Ok(T.q.fn, T.q.opt, T.A[i], T.r[i], T.refs[i]) THEN {} ELSE {<<Name \o ": wrong result", i>>})
        /\ i' = i + 1 /\ tid' = tid
End == i = Len(T.A) + 1 /\ NJEmit([tid |-> tid, bad |-> bad]) /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Next == Whole \/ Each \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
