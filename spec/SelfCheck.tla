----------------------------- MODULE SelfCheck -----------------------------
(* Checks the evaluated operators of Num and LinAlg against their defining  *)
(* equations on a set of matrices (run by setup_cmd).                       *)
EXTENDS LinAlg, NumJson, Integers, TLC, FiniteSets
tol == NDec("1e-34")
q(a, b) == NDiv(NInt(a), NInt(b))
i1 == NCplx(N0, N1)
Ms == << <<<<q(1,3), q(2,1)>>, <<q(-1,7), q(5,2)>>>>,
         <<<<q(4,1), q(1,2), q(1,5)>>, <<q(1,2), q(3,1), q(-1,3)>>, <<q(1,5), q(-1,3), q(2,1)>>>>,
         <<<<q(2,1), NMul(i1, q(1,3))>>, <<NMul(i1, q(-1,3)), q(3,2)>>>>,
         <<<<NAdd(q(2,1), i1), NMul(i1, q(1,3))>>, <<NMul(i1, q(-1,9)), q(3,2)>>>>,
         <<<<q(0,1), q(2,1)>>, <<q(-2,1), q(0,1)>>>> >>
Hs == {2, 3}
RM(A, B) == Force([i \in DOMAIN A |-> Force([j \in DOMAIN B[1] |-> SumTo(Force([k \in DOMAIN B |-> NMul(A[i][k], B[k][j])]), Len(B))])])
Leib2(A) == NSub(NMul(A[1][1], A[2][2]), NMul(A[1][2], A[2][1]))
RECURSIVE Pow(_, _), Fact(_), ExpSum(_, _)
Pow(A, k) == IF k = 0 THEN Eye(Len(A)) ELSE MatMul(A, Pow(A, k - 1))
Fact(k) == IF k = 0 THEN N1 ELSE NMul(NInt(k), Fact(k - 1))
ExpSum(A, k) == IF k < 0 THEN ArrZero(A) ELSE ArrAdd(ArrScale(NDiv(N1, Fact(k)), Pow(A, k)), ExpSum(A, k - 1))
OK(m) == LET A == Ms[m] n == Len(A) IN
  /\ Assert(ArrNear(MatMul(A, A), RM(A, A), tol), <<"mm", m>>)
  /\ Assert(ArrNear(MatMul(A, Inv(A)), Eye(n), tol), <<"inv", m>>)
  /\ (n = 2 => Assert(Near(Det(A), Leib2(A), tol), <<"det", m>>))
  /\ Assert(ArrNear(ExpM(A), ExpSum(A, 60), tol), <<"expm", m>>)
  /\ Assert(ArrNear(MatMul(QR(A)[1], QR(A)[2]), A, tol), <<"qr", m>>)
  /\ Assert(ArrNear(MatMul(Herm(QR(A)[1]), QR(A)[1]), Eye(n), tol), <<"qr2", m>>)
  /\ LET H == SymH(A) E == EigH(H) IN
       /\ Assert(ArrNear(MatMul(H, E[2]), MatMul(E[2], Diag(E[1])), tol), <<"eig", m>>)
       /\ Assert(ArrNear(MatMul(Herm(E[2]), E[2]), Eye(n), tol), <<"eigu", m>>)
       /\ Assert(ArrNear(ExpH(H), ExpM(H), tol), <<"exph", m>>)
       /\ Assert(ArrNear(LogH(ExpH(H)), H, tol), <<"logh", m>>)
       /\ LET P == ExpH(H) IN Assert(ArrNear(MatMul(SqrtH(P), SqrtH(P)), P, tol), <<"sqrth", m>>)
Scal == \A a \in {q(1, 10), q(7, 3), q(25, 2), q(-1, 3), q(-9, 1)} :
  /\ Assert(Near(NAdd(NSq(NSin(a)), NSq(NCos(a))), N1, tol), <<"sc", a>>)
  /\ Assert(Near(NLog(NExp(a)), a, tol), <<"le", a>>)
  /\ Assert(Near(NExp(NMul(i1, a)), NCplx(NCos(a), NSin(a)), tol), <<"euler", a>>)
  /\ LET s == NSin(a) c == NCos(a) t == NAtan2(s, c) IN
       Assert(Near(NSin(t), s, tol) /\ Near(NCos(t), c, tol), <<"atan2", a>>)
  /\ Assert(Near(NSqrt(NSq(a)), NAbs(a), tol), <<"sqrt", a>>)
Sp == /\ Assert(~NLe(NNaN, N0) /\ ~NLe(N0, NNaN) /\ NIsNaN(NSub(NInf, NInf)) /\ NLt(N0, NInf), "nan")
      /\ Assert(Near(NSin(NDiv(NPi, NInt(6))), NHalf, tol), "pi")
      /\ Assert(Near(NExp(N1), NDec("2.718281828459045235360287471352662497757"), tol), "e")
      /\ Assert(Near(NLog(N2), NDec("0.6931471805599453094172321214581765680755"), tol), "ln2")
      /\ Assert(Near(NJParse("0.1"), NDec("0.1000000000000000055511151231257827021181583404541015625"), NDec("1e-42")), "json")
      /\ Assert(NJParse("{\"a\":[1,2.5]}").a[1] = 1, "json2")
VARIABLE x
Init == x = 0
Next == x < Len(Ms) /\ x' = x + 1 /\ OK(x')
ASSUME Scal /\ Sp
=============================================================================
