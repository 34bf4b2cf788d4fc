---------------------------- MODULE AutodiffMC ----------------------------
(* Every well-typed program of at most Length instructions over every        *)
(* argument structure in Layouts; the rules of derivation are checked         *)
(* against the definition of the derivative at fixed points.                  *)
EXTENDS Autodiff, FiniteSets, NumJson, TLC
CONSTANTS Length, Names, Check
Layout(n) == CASE n = "m" -> <<<<"m", FALSE>>>> [] n = "cm" -> <<<<"m", TRUE>>>>
               [] n = "mm" -> <<<<"m", FALSE>>, <<"m", FALSE>>>> [] n = "cmcm" -> <<<<"m", TRUE>>, <<"m", TRUE>>>>
               [] n = "vcm" -> <<<<"v", FALSE>>, <<"m", TRUE>>>> [] n = "k" -> <<<<"k", FALSE>>>> [] n = "cv" -> <<<<"v", TRUE>>>>
               [] n = "vmv" -> <<<<"v", FALSE>>, <<"m", FALSE>>, <<"v", FALSE>>>> [] n = "v" -> <<<<"v", FALSE>>>>
VARIABLES name, prog, st
vars == <<name, prog, st>>
L == Layout(name)
Instr == {<<"arg", i>> : i \in DOMAIN L} \cup {<<o>> : o \in Unary \cup Binary \cup Reduce \cup SUnary \cup SBinary \cup {"scale"}}
Init == name \in Names /\ prog = <<>> /\ st = <<>>
(* programs that cannot end in time are not continued: every value on the stack needs one instruction to be used up, arrays two *)
Left(s) == IF s = <<>> THEN 0 ELSE Len(s) - 1 + (IF \E i \in DOMAIN s : ~IsS(s[i]) THEN 1 ELSE 0)
Wasteful(c) == prog # <<>> /\ LET p == prog[Len(prog)][1] IN
  \/ c[1] = p /\ p \in {"T", "conj", "con"}
  \/ c[1] = "con" /\ p # "arg"
  \/ c[1] = "abs" /\ p = "abs"
Step == /\ Len(prog) < Length
        /\ \E c \in Instr :
             /\ Typed(c, st, L) /\ ~Wasteful(c)
             /\ LET s == TypeAfter(c, st, L) IN Left(s) <= Length - Len(prog) - 1 /\ st' = s
             /\ prog' = Append(prog, c)
        /\ name' = name
Next == Step
Spec == Init /\ [][Next]_vars
Whole == st = <<S0>>
Emit == Whole => NJEmit([name |-> name, L |-> L, prog |-> prog])
(* --- the rules agree with difference quotients --------------------------- *)
Entry1(i, cplx) == IF cplx THEN NCplx(NDiv(NInt(3 + ((i * 7) % 5)), NInt(7)), NDiv(NInt(2 - ((i * 5) % 7)), NInt(9))) ELSE NDiv(NInt(4 - ((i * 11) % 9)), NInt(7))
FillV(o, c) == Force([i \in 1..3 |-> Entry1(o + i, c)])
FillM(o, c) == Force([i \in 1..2 |-> [j \in 1..2 |-> Entry1(o + 2 * i + j, c)]])
FillK(o, c) == Force([h \in 1..2 |-> FillM(o + 5 * h, c)])
Fill(t, o) == CASE t[1] = "v" -> FillV(o, t[2]) [] t[1] = "m" -> FillM(o, t[2]) [] t[1] = "k" -> FillK(o, t[2])
Args(o) == Force([i \in DOMAIN L |-> Fill(L[i], o + 3 * i)])
Move(X, U, h) == ArrAdd(X, ArrScale(h, U))
At(X, U, V) == Jet(prog, X, U, V)
H == NDec("1e-8")
Rules == (Check /\ Whole) =>
  LET X == Args(1) U == Args(8) V == Args(15) j == At(X, U, V) IN
  \/ j = <<>> \/ NLt(NDec("1e5"), j[5])
  \/ LET a == At(Move(X, U, H), V, V) b == At(Move(X, U, NNeg(H)), V, V)
         d1 == NDiv(NSub(a[1], b[1]), NMul(N2, H)) d2 == NDiv(NSub(a[2], b[2]), NMul(N2, H))
         tol == NMul(NDec("1e-10"), NMul(j[5], j[5])) IN
     NLe(NAbs(NSub(d1, j[2])), tol) /\ NLe(NAbs(NSub(d2, j[4])), tol)
=============================================================================
