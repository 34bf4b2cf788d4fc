-------------------------- MODULE DiagnosticsTrace --------------------------
(* Recorded reports of the diagnostic tools.  T.h, T.e: the error curve drawn; *)
(* T.fh, T.fe: the ends of the line fitted to it; T.fy: the costs (distances)  *)
(* along the curve evaluated again; T.f0, df0, d2: cost and derivatives at the *)
(* point along the direction according to the operators under test, tdf0 and   *)
(* td2 the true ones.                                                          *)
EXTENDS Diagnostics, Verdict, LinAlg
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, pc, bad
vars == <<tid, pc, bad>>
T == Traces[tid]
Faults == {T.F[k] : k \in DOMAIN T.F}
Clause(n, ok) == IF ok THEN {} ELSE {<<n, 0>>}
N == Len(T.h)
L10(a) == NDiv(NLog(a), NLog(NInt(10)))

(* the error of the model, from the recorded ingredients *)
Model(h) == IF T.tool = "gradient" THEN NAdd(T.f0, NMul(h, T.df0))
            ELSE NAdd(NAdd(T.f0, NMul(h, T.df0)), NMul(NHalf, NMul(NSq(h), T.d2)))
Err(k) == IF T.tool = "retraction" THEN T.fy[k] ELSE NAbs(NSub(Model(T.h[k]), T.fy[k]))
Scale == IF T.tool = "retraction" THEN N1
         ELSE NAdd(N1, NAdd(MaxAbs(T.fy), NAdd(NAbs(T.f0), NAdd(NAbs(T.df0), NAbs(T.d2)))))
CurveOk == /\ Len(T.e) = N /\ N >= 20 /\ NLe(T.h[1], NDec("1e-7")) /\ NEq(T.h[N], N1) /\ Len(T.fy) = N
           /\ \A k \in 1..N : NIsFin(T.e[k]) /\ NLe(NAbs(NSub(T.e[k], Err(k))), NMul(NDec("1e-12"), Scale))

Slope == NDiv(NSub(L10(T.fe[2]), L10(T.fe[1])), NSub(L10(T.fh[2]), L10(T.fh[1])))
FitDrawn == \A k \in 1..2 : NIsFin(T.fe[k]) /\ NLt(N0, T.fe[k]) /\ NLt(N0, T.fh[k])
(* local order of the error curve at index k, over about a quarter of a decade or more *)
Stride == IF N > 100 THEN 6 ELSE 2
Local(k) == NDiv(NSub(L10(Err(k + Stride)), L10(Err(k))), NSub(L10(T.h[k + Stride]), L10(T.h[k])))
Floor == NMul(NDec("1e-11"), Scale)
Order0(k) == LET a == Local(k) IN CHOOSE n \in 0..9 : n = 0 \/ NLe(NAbs(NSub(a, NInt(n))), NDec("0.05"))
Above(k) == NLt(Floor, Err(k)) /\ NLt(Floor, Err(k + Stride))
(* the curve has one order over four decades' worth of points that rounding does not reach *)
Regular(n) == /\ \E k \in 1..(N - 2 * Stride) : Above(k) /\ Above(k + Stride)
                   /\ NLe(NAbs(NSub(Local(k), NInt(n))), NDec("0.03")) /\ NLe(NAbs(NSub(Local(k + Stride), NInt(n))), NDec("0.03"))
              /\ \A k \in 1..(N - Stride) : Above(k) /\ NLe(T.h[k], NDec("3e-2")) => NLe(NAbs(NSub(Local(k), NInt(n))), NDec("0.1"))
Want == Order(T.tool, Faults)
(* the fault along this direction is not small *)
Effective == CASE T.tool = "retraction" -> TRUE
               [] Want = 1 -> NLt(NMul(NDec("1e-2"), Scale), NAbs(NSub(T.df0, T.tdf0)))
               [] Want = 2 /\ T.tool = "hessian" -> NLt(NMul(NDec("1e-2"), Scale), NAbs(NSub(T.d2, T.td2)))
               [] OTHER -> TRUE
Near3(a, b) == NLe(NAbs(NSub(a, b)), NDec("0.15"))
SaidSlope == IF T.tool = "retraction" THEN (IF Len(T.said.slope) = 1 THEN T.said.slope[1] ELSE NNaN) ELSE Slope
SlopeOk == IF "i" \in Faults \/ T.exact THEN TRUE
           ELSE IF T.tool = "retraction" THEN \A n \in {1, 2, 3} : Regular(n) => Near3(SaidSlope, NInt(n)) /\ Near3(Slope, SaidSlope)
           ELSE Regular(Want) => FitDrawn /\ Near3(Slope, NInt(Want))
FitOk == IF "i" \in Faults \/ T.exact \/ ~(\E n \in {1, 2, 3} : Regular(n)) THEN TRUE
         ELSE \A k \in 1..N : (NLe(T.fh[1], T.h[k]) /\ NLe(T.h[k], T.fh[2])) =>
                LET y == NAdd(L10(T.fe[1]), NMul(Slope, NSub(L10(T.h[k]), L10(T.fh[1])))) IN NLe(NAbs(NSub(y, L10(T.e[k]))), NDec("0.3"))
ExactNow == \A k \in 1..N : NLe(Err(k), NDec("1e-13"))
Inexact == \E k \in 1..N : NLt(NDec("1e-11"), Err(k))

Six(a, b, s) == NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NAdd(NMul(NDec("1e-5"), NAbs(b)), NMul(NDec("1e-11"), s)))
Tiny(a, s) == NIsFin(a) /\ NLe(NAbs(a), NMul(NDec("1e-9"), s))
ResidualOk == /\ Len(T.said.residual) = 1 /\ Six(T.said.residual[1], T.res[1], T.rn)
              /\ ("n" \notin Faults => Tiny(T.said.residual[1], T.rn))
LinearOk == /\ Len(T.said.linear) = 1
            /\ NIsFin(T.said.linear[1])
            /\ IF "l" \in Faults THEN NLt(NDec("1e-4"), T.said.linear[1]) ELSE Tiny(T.said.linear[1], NMul(NInt(10), T.hn))
SymOk == /\ Len(T.said.symmetric) = 3
         /\ Len(T.M) = 2 /\ \A i \in {1, 2} : Len(T.M[i]) = 2
         /\ LET s == T.said.symmetric IN
              /\ NLe(NAbs(NSub(s[3], NSub(s[1], s[2]))), NMul(NDec("2e-5"), NAdd(NAbs(s[1]), NAbs(s[2])))) \/ NLe(NAbs(s[3]), NMul(NDec("2e-5"), NAdd(NAbs(s[1]), NAbs(s[2]))))
              /\ Faults \cap {"s", "l", "n"} = {} => Tiny(s[3], T.hn)
              /\ \/ Six(s[1], T.M[1][2], T.hn) /\ Six(s[2], T.M[2][1], T.hn) /\ Six(s[3], NSub(T.M[1][2], T.M[2][1]), NMul(NInt(100), T.hn))
                 \/ Six(s[1], T.M[2][1], T.hn) /\ Six(s[2], T.M[1][2], T.hn) /\ Six(s[3], NSub(T.M[2][1], T.M[1][2]), NMul(NInt(100), T.hn))
DirOk == /\ NIsFin(T.dn) /\ NLt(N0, T.dn)
         /\ T.given # "xd" => NLe(T.dres, NMul(NDec("1e-9"), NAdd(N1, T.dn)))
Supported == T.tool # "retraction" \/ (T.has.exp /\ T.has.dist)
IsErr(name) == \E k \in 1..Len(T.exc) : k = Len(name) /\ SubSeq(T.exc, 1, k) = name
Verdict == IF RefusedInput(T.tool, T.given) THEN Clause("a direction without a point was not refused with a ValueError", IsErr("ValueError"))
           ELSE IF ~Supported THEN Clause("a missing operation was not reported with a RuntimeError", IsErr("RuntimeError"))
           ELSE IF T.exc # "" THEN {<<"exception: " \o T.exc, 0>>}
           ELSE Clause("point or direction of the caller not used", T.own /\ T.fresh)
                \cup Clause("arguments modified", T.kept)
                \cup Clause("direction", DirOk)
                \cup Clause("error curve", CurveOk)
                \cup (IF CurveOk THEN Clause("slope", SlopeOk) \cup Clause("fitted line", FitOk) ELSE {})
                \cup Clause("reference slope", IF T.tool = "retraction" THEN {NLe(NAbs(NSub(T.refs[k], NInt(2))), NDec("0.001")) : k \in DOMAIN T.refs} = {TRUE, FALSE}
                                               ELSE Len(T.refs) = 1 /\ NLe(NAbs(NSub(T.refs[1], NInt(GoodOrder(T.tool)))), NDec("0.001")))
                \cup (IF T.tool = "retraction" THEN Clause("norm of the errors", Len(T.said.norm) = 1 /\ Six(T.said.norm[1], ArrNorm(T.all), N1))
                      ELSE Clause("exact model", (ExactNow => T.exact) /\ (Inexact => ~T.exact)) \cup Clause("tangency residual", ResidualOk))
                \cup (IF T.tool = "hessian" THEN Clause("linearity residual", LinearOk) \cup Clause("symmetry defect", SymOk) ELSE {})
Init == tid \in 1..Len(Traces) /\ pc = "judge" /\ bad = {}
Judge == pc = "judge" /\ bad' = Verdict /\ pc' = "done" /\ tid' = tid
           /\ (CAL /\ T.exc = "" /\ T.given # "d" => NJEmit([cal |-> T.tool, kind |-> (IF \E n \in {1,2,3} : Regular(n) THEN "regular" ELSE "irregular"), op |-> "", r |-> NInt(Want)]))
End == pc = "done" /\ NJEmit([tid |-> tid, bad |-> bad]) /\ pc' = "end" /\ UNCHANGED <<tid, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
