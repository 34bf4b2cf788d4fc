------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Dense linear algebra over Num.  An array is a number or a tuple of      *)
(* arrays; a matrix is a tuple of rows.  Evaluated by java/LinAlg.java;    *)
(* the definitions below are the meaning (SelfCheck.tla compares the two). *)
(***************************************************************************)
EXTENDS Num
LOCAL INSTANCE Integers

IsArr(a) == TRUE
RECURSIVE Map1(_, _), Map2(_, _, _)
LOCAL LeafQ(a) == NIsNum(a)
Map1(f(_), a) == IF LeafQ(a) THEN f(a) ELSE [i \in DOMAIN a |-> Map1(f, a[i])]
Map2(f(_, _), a, b) == IF LeafQ(a) THEN f(a, b) ELSE [i \in DOMAIN a |-> Map2(f, a[i], b[i])]
ArrAdd(a, b) == Map2(NAdd, a, b)
ArrSub(a, b) == Map2(NSub, a, b)
ArrMul(a, b) == Map2(NMul, a, b)
ArrDiv(a, b) == Map2(NDiv, a, b)
ArrScale(c, a) == LET f(x) == NMul(c, x) IN Map1(f, a)
ArrNeg(a) == Map1(NNeg, a)
ArrConj(a) == Map1(NConj, a)
ArrZero(a) == LET f(x) == N0 IN Map1(f, a)
ArrRe(a) == Map1(NRe, a)
ArrIm(a) == Map1(NIm, a)
ArrAbs(a) == Map1(NAbs, a)
ArrSqrt(a) == Map1(NSqrt, a)
ArrExp(a) == Map1(NExp, a)
ArrLog(a) == Map1(NLog, a)
RECURSIVE Flat(_)
Flat(a) == IF LeafQ(a) THEN <<a>>
           ELSE LET RECURSIVE cat(_)
                    cat(i) == IF i > Len(a) THEN <<>> ELSE Flat(a[i]) \o cat(i + 1)
                IN cat(1)
SameShape(a, b) == DOMAIN a = DOMAIN b
Force(a) == a
RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN N0 ELSE NAdd(SumTo(v, i - 1), v[i])
ArrSum(a) == LET v == Flat(a) IN SumTo(v, Len(v))
HDot(a, b) == ArrSum(ArrMul(ArrConj(a), b))
RDot(a, b) == NRe(HDot(a, b))
ArrNorm(a) == NSqrt(RDot(a, a))
MaxAbs(a) == LET v == Flat(ArrAbs(a)) IN CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : NLe(v[i], x)
AllFin(a) == LET v == Flat(a) IN \A i \in DOMAIN v : NIsFin(v[i])
AllReal(a) == LET v == Flat(a) IN \A i \in DOMAIN v : NIsReal(v[i])

MatMul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> ArrSum([k \in DOMAIN B |-> NMul(A[i][k], B[k][j])])]]
Transp(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]]
Herm(A) == Transp(ArrConj(A))
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN N1 ELSE N0]]
Tr(A) == ArrSum([i \in DOMAIN A |-> A[i][i]])
Diag(v) == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE N0]]
DiagOf(A) == [i \in DOMAIN A |-> A[i][i]]
(* the remaining operators are specified by the equations that SelfCheck verifies *)
Solve(A, B) == CHOOSE X : MatMul(A, X) = B
Inv(A) == Solve(A, Eye(Len(A)))
Det(A) == CHOOSE d : TRUE         \* Leibniz formula (SelfCheck)
ExpM(A) == CHOOSE X : TRUE        \* sum of A^k / k!
EigH(A) == CHOOSE p : MatMul(A, p[2]) = MatMul(p[2], Diag(p[1])) /\ MatMul(Herm(p[2]), p[2]) = Eye(Len(A))
SqrtH(A) == CHOOSE X : MatMul(X, X) = A /\ X = Herm(X)
LogH(A) == CHOOSE X : ExpM(X) = A /\ X = Herm(X)
ExpH(A) == ExpM(A)
InvSqrtH(A) == Inv(SqrtH(A))
QR(A) == CHOOSE p : MatMul(p[1], p[2]) = A /\ MatMul(Herm(p[1]), p[1]) = Eye(Len(p[2]))
RankOf(vs, tol) == CHOOSE r \in 0..Len(vs) : TRUE  \* dimension of the real span of vs

(* derived *)
MM3(A, B, C) == MatMul(MatMul(A, B), C)
Sym(A) == ArrScale(NHalf, ArrAdd(A, Transp(A)))
SymH(A) == ArrScale(NHalf, ArrAdd(A, Herm(A)))
SkewH(A) == ArrScale(NHalf, ArrSub(A, Herm(A)))
Polar(A) == MatMul(A, InvSqrtH(MatMul(Herm(A), A)))
LinComb(a, X, b, Y) == ArrAdd(ArrScale(a, X), ArrScale(b, Y))
IsZeroArr(A, tol) == NLe(MaxAbs(A), tol)
ArrClose(A, B, tol, scale) ==
  /\ SameShape(A, B) /\ AllFin(A) /\ AllFin(B)
  /\ NLe(MaxAbs(ArrSub(A, B)), NMul(tol, scale))
ArrNear(A, B, tol) == SameShape(A, B) /\ AllFin(A) /\ AllFin(B)
                      /\ NLe(MaxAbs(ArrSub(A, B)), NMul(tol, NMax(N1, NMax(MaxAbs(A), MaxAbs(B)))))
=============================================================================
