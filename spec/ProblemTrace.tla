---------------------------- MODULE ProblemTrace ----------------------------
(***************************************************************************)
(* Recorded uses of problems made of known functions.                       *)
(* T = [name, m, c, plain, built, exc, par, pts, acc, over, count]                *)
(*  par    the coefficients of the functions, one per argument               *)
(*  pts[j] = [x, u, W, Z, gc, hc]: point, tangent vector, two tangent vectors *)
(*         that define the user's Riemannian operators there, and the        *)
(*         manifold's conversions gc = <<[arg, val]>>, hc = <<[ga, ha, val]>> *)
(*  acc[i] = [op, pt, exc, val, late, plus, norm, same]: the value, again     *)
(*         after all uses, val + val/2 (vectors), the argument unchanged      *)
(*  over   attempts to replace what is fixed: refused?                       *)
(***************************************************************************)
EXTENDS Problem, Geometry, Verdict
Traces == NJLoad(NJEnv("VP_TRACES"))
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]
M == T.m
Tol == NDec("1e-9")

(* flat arguments of the user's functions *)
Split(F, a) == IF F.kind = "fr" THEN <<a[1], a[2], a[3]>> ELSE <<a>>
Args(a) == IF IsProd(M) THEN LET RECURSIVE cat(_)
                                 cat(k) == IF k > Len(M.f) THEN <<>> ELSE Split(M.f[k], a[k]) \o cat(k + 1) IN cat(1)
           ELSE Split(M, a)
(* and back, with the layout of the points *)
Width(F) == IF F.kind = "fr" THEN 3 ELSE 1
Group(l) == IF IsProd(M) THEN LET RECURSIVE from(_, _)
                                  from(k, at) == IF k > Len(M.f) THEN <<>>
                                     ELSE <<IF Width(M.f[k]) = 1 THEN l[at] ELSE SubSeq(l, at, at + 2)>> \o from(k + 1, at + Width(M.f[k])) IN from(1, 1)
            ELSE IF M.kind = "fr" THEN l ELSE l[1]
ReSum(a) == NRe(ArrSum(a))
Each(l, f(_)) == Force([k \in DOMAIN l |-> f(k)])
Lin(l) == ArrSum([k \in DOMAIN l |-> NMul(T.par.c[k], ReSum(l[k]))])
Plus(a, s) == LET f(y) == NAdd(y, s) IN Map1(f, a)

Cost(x) == LET l == Args(x) IN NAdd(ArrSum([k \in DOMAIN l |-> NMul(NMul(NHalf, T.par.a[k]), RDot(l[k], l[k]))]), NMul(NHalf, NSq(Lin(l))))
DerivedEG(x) == LET l == Args(x) s == Lin(l) f(k) == Plus(ArrScale(T.par.a[k], l[k]), NMul(T.par.c[k], s)) IN Group(Each(l, f))
DerivedEH(x, v) == LET l == Args(v) s == Lin(l) f(k) == Plus(ArrScale(T.par.a[k], l[k]), NMul(T.par.c[k], s)) IN Group(Each(l, f))
UserEG(x) == LET l == Args(x) s == Lin(l) f(k) == Plus(ArrScale(T.par.b[k], l[k]), NMul(NMul(N2, T.par.c[k]), s)) IN Group(Each(l, f))
UserEH(x, v) == LET l == Args(v) s == NMul(Lin(l), Lin(Args(x))) f(k) == Plus(ArrScale(T.par.d[k], l[k]), NMul(NMul(NInt(3), T.par.c[k]), s)) IN Group(Each(l, f))
UserRG(P) == P.W
UserRH(P, u) == ArrAdd(ArrScale(N2, u), ArrScale(RDot(P.Z, u), P.W))
UserPC(P, u) == ArrAdd(ArrScale(NInt(3), u), ArrScale(RDot(P.Z, u), P.Z))
(* an independent conversion of tangent vectors to the representation Euclidean Hessians expect *)
EmbOf(F, x, u) == Amb(F, x, u)
Embedded(x, u) == EmbOf(M, x, u)
HasFR == M.kind = "fr" \/ (IsProd(M) /\ \E k \in DOMAIN M.f : M.f[k].kind = "fr")
Same(a, b) == SameShape(a, b) /\ AllFin(a) /\ NLe(MaxAbs(ArrSub(a, b)), NMul(Tol, NAdd(N1, MaxAbs(b))))
EGof(n, P) == IF n = "user eg" THEN UserEG(P.x) ELSE DerivedEG(P.x)
EHof(n, P) == IF n = "user eh" THEN UserEH(P.x, Embedded(P.x, P.u)) ELSE DerivedEH(P.x, Embedded(P.x, P.u))
Converted1(P, g) == {k \in DOMAIN P.gc : Same(P.gc[k].arg, g)}
Converted2(P, g, h) == {k \in DOMAIN P.hc : Same(P.hc[k].ga, g) /\ Same(P.hc[k].ha, h)}
(* the value a term denotes at P *)
Value(t, P) ==
  CASE t[1] = "cost" -> Cost(P.x)
    [] t[1] \in {"user eg", "derived eg"} -> EGof(t[1], P)
    [] t[1] \in {"user eh", "derived eh"} -> EHof(t[1], P)
    [] t[1] = "user rg" -> UserRG(P)
    [] t[1] = "user rh" -> UserRH(P, P.u)
    [] t[1] = "user pc" -> UserPC(P, P.u)
    [] t[1] = "identity" -> P.u
    [] t[1] = "converted gradient" -> P.gc[CHOOSE k \in Converted1(P, EGof(t[2], P)) : TRUE].val
    [] t[1] = "converted hessian" -> P.hc[CHOOSE k \in Converted2(P, EGof(t[2], P), EHof(t[3], P)) : TRUE].val
(* the harness called the manifold's conversions with the right arguments *)
Ready(t, P) == CASE t[1] = "converted gradient" -> Converted1(P, EGof(t[2], P)) # {}
                 [] t[1] = "converted hessian" -> Converted2(P, EGof(t[2], P), EHof(t[3], P)) # {}
                 [] OTHER -> TRUE
(* Euclidean Hessians are not defined for points made of several arrays that are not independent *)
Posed(op) == ~(HasFR /\ (op = "eh" \/ (op = "rh" /\ T.c.h # "r")))

Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Build == /\ i = 0
         /\ bad' = LET inv == Invalid(T.c, T.plain) IN
              C("C11", "a problem with contradictory or undecorated functions was accepted", 0, inv => ~T.built)
              \cup C("C11", "a valid problem was refused: " \o T.exc, 0, ~inv => T.built)
              \cup C("C11", "a fixed attribute could be replaced", 0, \A k \in DOMAIN T.over : T.over[k])
              \cup C("C11", "a function with the wrong number of results was accepted", 0, T.count)
         /\ i' = 1 /\ tid' = tid
Use == /\ i >= 1 /\ i <= Len(T.acc)
       /\ LET a == T.acc[i] P == T.pts[a.pt] t == Term(T.c, a.op) IN
          bad' = bad \cup
            (IF ~Posed(a.op) THEN {}
             ELSE IF t = Refused THEN C("C11", a.op \o ": no error where the operator is not available", i, a.exc # "")
             ELSE IF a.exc # "" THEN {<<a.op \o ": exception: " \o a.exc, i>>}
             ELSE IF ~Ready(t, P) THEN {<<a.op \o ": harness: no conversion", i>>}
             ELSE LET v == Value(t, P) IN
               C("C11", a.op \o ": wrong value", i, Same(a.val, v))
               \cup C("C11", a.op \o ": the value changed later", i, Same(a.late, v))
               \cup C("C11", a.op \o ": the result is no tangent vector object", i, a.op \in {"rg", "rh"} => Same(a.plus, ArrScale(NDec("1.5"), v)))
               \cup C("C26", a.op \o ": modified its arguments", i, a.same))
       /\ i' = i + 1 /\ tid' = tid
End == /\ i = Len(T.acc) + 1 /\ NJEmit([tid |-> tid, bad |-> bad]) /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Next == Build \/ Use \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
