-------------------------- MODULE TangentArithTrace --------------------------
(* Recorded programs: all registers after every instruction, compared with TangentArith. *)
EXTENDS TangentArith, NumJson, TLC
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, i, R, bad
T == Traces[tid]
E == T.steps[i]
(* single precision scalars round *)
Tol(c) == IF Len(c) = 4 /\ c[4] = "float32" THEN NDec("1e-6") ELSE NDec("1e-14")
Init == tid \in 1..Len(Traces) /\ i = 1 /\ R = Traces[tid].start /\ bad = {}
Same(a, b, tol) == SameShape(a, b) /\ AllFin(a) /\ NLe(MaxAbs(ArrSub(a, b)), NMul(tol, NMax(NDec("1e-300"), NMax(MaxAbs(b), MaxAbs(T.start)))))
Step == /\ i <= Len(T.steps)
        /\ R' = Apply(R, E.c)
        /\ bad' = bad \cup
             (IF E.exc # "" THEN {<<"exception in " \o E.c[1], i, E.exc>>}
              ELSE IF Len(E.regs) # Len(R') THEN {<<"registers", i>>}
              ELSE LET k == IF InPlace(E.c) THEN E.c[2] ELSE Len(R') IN
                (IF Same(E.regs[k], R'[k], NMul(NInt(4), Tol(E.c))) THEN {} ELSE {<<E.c[1] \o ": wrong value", i>>})
                \cup (IF E.kind THEN {} ELSE {<<E.c[1] \o ": result is not a tangent vector of the same kind", i>>})
                \cup (IF \A j \in DOMAIN R' : j = k \/ Same(E.regs[j], R'[j], NDec("1e-5")) THEN {} ELSE {<<E.c[1] \o ": changed another vector", i>>}))
        /\ i' = (IF E.exc # "" THEN Len(T.steps) + 1 ELSE i + 1) /\ tid' = tid
End == /\ i = Len(T.steps) + 1 /\ NJEmit([tid |-> tid, bad |-> bad]) /\ i' = i + 1 /\ UNCHANGED <<tid, R, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_<<tid, i, R, bad>>
=============================================================================
