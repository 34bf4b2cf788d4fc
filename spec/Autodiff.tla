------------------------------ MODULE Autodiff ------------------------------
(***************************************************************************)
(* Cost functions as programs for a stack machine, and their true first and  *)
(* second directional derivatives.                                           *)
(*                                                                         *)
(* A type is <<shape, complex>> with shape "s" (a real scalar), "v" (vector),*)
(* "m" (matrix) or "k" (stack of matrices).  Instructions:                   *)
(*   arg i, con (a constant like the array on top), add, mul, matmul, T,     *)
(*   conj, re, im, rot (times i), abs, exp, sin, sq (elementwise), sum (real part of the    *)
(*   sum), sumsq (squared norm), entry (real part of the first entry),       *)
(*   sexp, slog (log(1 + s^2)), sadd, smul, scale (array times scalar)       *)
(***************************************************************************)
EXTENDS LinAlg, Integers

(* --- types ------------------------------------------------------------- *)
S0 == <<"s", FALSE>>
IsS(t) == t[1] = "s"
Top(st) == st[Len(st)]
Below(st) == st[Len(st) - 1]
But(st, n) == SubSeq(st, 1, Len(st) - n)
Unary == {"T", "conj", "rot", "re", "im", "abs", "exp", "sin", "sq", "con"}
Binary == {"add", "mul", "matmul"}
Reduce == {"sum", "sumsq", "entry"}
SUnary == {"sexp", "slog"}
SBinary == {"sadd", "smul"}
(* may instruction c be applied to a stack of types st of a program with the arguments L? *)
Typed(c, st, L) ==
  CASE c[1] = "arg" -> c[2] \in DOMAIN L
    [] c[1] \in {"T"} -> st # <<>> /\ Top(st)[1] \in {"m", "k"}
    [] c[1] \in {"conj", "re", "im", "rot"} -> st # <<>> /\ Top(st)[2]
    [] c[1] = "sin" -> st # <<>> /\ ~IsS(Top(st)) /\ ~Top(st)[2]
    [] c[1] \in Unary \cup Reduce -> st # <<>> /\ ~IsS(Top(st))
    [] c[1] = "matmul" -> Len(st) >= 2 /\ Top(st) = Below(st) /\ Top(st)[1] \in {"m", "k"}
    [] c[1] \in Binary -> Len(st) >= 2 /\ Top(st) = Below(st) /\ ~IsS(Top(st))
    [] c[1] \in SUnary -> st # <<>> /\ IsS(Top(st))
    [] c[1] \in SBinary -> Len(st) >= 2 /\ IsS(Top(st)) /\ IsS(Below(st))
    [] c[1] = "scale" -> Len(st) >= 2 /\ IsS(Below(st)) /\ ~IsS(Top(st)) /\ ~Top(st)[2]
TypeAfter(c, st, L) ==
  CASE c[1] = "arg" -> Append(st, L[c[2]])
    [] c[1] = "con" -> Append(st, Top(st))
    [] c[1] \in {"re", "im", "abs"} -> Append(But(st, 1), <<Top(st)[1], FALSE>>)
    [] c[1] \in Unary \cup SUnary -> st
    [] c[1] \in Reduce -> Append(But(st, 1), S0)
    [] c[1] \in Binary \cup SBinary -> But(st, 1)
    [] c[1] = "scale" -> Append(But(st, 2), Top(st))
(* the arguments a program depends on *)
Used(prog) == {prog[i][2] : i \in {j \in DOMAIN prog : prog[j][1] = "arg"}}

(* --- values with derivatives: <<value, along u, along v, along u and v>> --- *)
Lin1(f(_), a) == <<f(a[1]), f(a[2]), f(a[3]), f(a[4])>>
Bil(f(_, _), a, b) ==
  <<f(a[1], b[1]), ArrAdd(f(a[2], b[1]), f(a[1], b[2])), ArrAdd(f(a[3], b[1]), f(a[1], b[3])),
    ArrAdd(ArrAdd(f(a[4], b[1]), f(a[1], b[4])), ArrAdd(f(a[2], b[3]), f(a[3], b[2])))>>
(* elementwise y = f(a) with f1 = f'(a), f2 = f''(a) given as arrays *)
Elem(a, y, f1, f2) == <<y, ArrMul(f1, a[2]), ArrMul(f1, a[3]), ArrAdd(ArrMul(f2, ArrMul(a[2], a[3])), ArrMul(f1, a[4]))>>
Half(x) == ArrScale(NHalf, x)
RECURSIVE MT(_), MMul(_, _)
Mat2(a) == NIsNum(a[1][1])          \* a matrix, not a stack
MT(a) == IF Mat2(a) THEN Transp(a) ELSE Force([i \in DOMAIN a |-> MT(a[i])])
MMul(a, b) == IF Mat2(a) THEN MatMul(a, b) ELSE Force([i \in DOMAIN a |-> MMul(a[i], b[i])])
RECURSIVE Head1(_)
Head1(a) == IF NIsNum(a) THEN a ELSE Head1(a[1])
SumR(a) == NRe(ArrSum(a))
Entry(a) == NRe(Head1(a))
ReProd(a, b) == ArrRe(ArrMul(ArrConj(a), b))
AbsOf(a) == LET n == ArrAbs(a[1]) p == ReProd(a[1], a[2]) q == ReProd(a[1], a[3]) IN
  <<n, ArrDiv(p, n), ArrDiv(q, n),
    ArrSub(ArrDiv(ArrAdd(ReProd(a[2], a[3]), ReProd(a[1], a[4])), n), ArrDiv(ArrMul(p, q), ArrMul(n, ArrMul(n, n))))>>
Rot(a) == ArrScale(NCplx(N0, N1), a)
NSinA(a) == Map1(NSin, a)
NCosA(a) == Map1(NCos, a)
Zeros(a) == ArrZero(a)
ScaleB(s, x) == ArrScale(s, x)
SLog(a) == LET d == NAdd(N1, NSq(a[1])) IN   \* log(1 + s^2)
  Elem(a, NLog(d), NDiv(NMul(N2, a[1]), d), NDiv(NMul(N2, NSub(N1, NSq(a[1]))), NSq(d)))
(* the constant array like a: entry i of a part with number w gets -w/2 + i/4 *)
RECURSIVE Con(_, _)
Con(a, w) == IF NIsNum(a) THEN w ELSE Force([i \in DOMAIN a |-> Con(a[i], NSub(NDiv(NInt(i), NInt(4)), NDiv(w, N2)))])
(* one instruction; X[i] argument, U[i], V[i] directions *)
Exec(c, st, X, U, V) ==
  LET t == Top(st) IN
  CASE c[1] = "arg" -> Append(st, <<X[c[2]], U[c[2]], V[c[2]], Zeros(X[c[2]])>>)
    [] c[1] = "con" -> LET k == Con(t[1], N1) z == Zeros(k) IN Append(st, <<k, z, z, z>>)
    [] c[1] = "T" -> Append(But(st, 1), Lin1(MT, t))
    [] c[1] = "conj" -> Append(But(st, 1), Lin1(ArrConj, t))
    [] c[1] = "rot" -> Append(But(st, 1), Lin1(Rot, t))
    [] c[1] = "re" -> Append(But(st, 1), Lin1(ArrRe, t))
    [] c[1] = "im" -> Append(But(st, 1), Lin1(ArrIm, t))
    [] c[1] = "abs" -> Append(But(st, 1), AbsOf(t))
    [] c[1] = "exp" -> LET y == ArrExp(t[1]) IN Append(But(st, 1), Elem(t, y, y, y))
    [] c[1] = "sexp" -> LET y == NExp(t[1]) IN Append(But(st, 1), Elem(t, y, y, y))
    [] c[1] = "sin" -> LET y == NSinA(t[1]) IN Append(But(st, 1), Elem(t, y, NCosA(t[1]), ArrNeg(y)))
    [] c[1] = "sq" -> Append(But(st, 1), Bil(ArrMul, t, t))
    [] c[1] = "sum" -> Append(But(st, 1), Lin1(SumR, t))
    [] c[1] = "entry" -> Append(But(st, 1), Lin1(Entry, t))
    [] c[1] = "sumsq" -> Append(But(st, 1), Bil(RDot, t, t))
    [] c[1] = "slog" -> Append(But(st, 1), SLog(t))
    [] c[1] \in {"add", "sadd"} -> LET b == Below(st) IN Append(But(st, 2), <<ArrAdd(b[1], t[1]), ArrAdd(b[2], t[2]), ArrAdd(b[3], t[3]), ArrAdd(b[4], t[4])>>)
    [] c[1] \in {"mul", "smul"} -> Append(But(st, 2), Bil(ArrMul, Below(st), t))
    [] c[1] = "matmul" -> Append(But(st, 2), Bil(MMul, Below(st), t))
    [] c[1] = "scale" -> Append(But(st, 2), Bil(ScaleB, Below(st), t))
RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(prog, i, st, X, U, V, peak) ==
  IF i > Len(prog) THEN <<st, peak>>
  ELSE LET s == Exec(prog[i], st, X, U, V) t == Top(s)
           m == NMax(NMax(MaxAbs(t[1]), MaxAbs(t[2])), NMax(MaxAbs(t[3]), MaxAbs(t[4]))) IN
       IF AllFin(t[1]) /\ AllFin(t[2]) /\ AllFin(t[3]) /\ AllFin(t[4]) /\ NLe(m, NDec("1e9"))
       THEN Steps(prog, i + 1, s, X, U, V, NMax(peak, m)) ELSE <<<<>>, NInf>>
(* <<f, Df[u], Df[v], D^2 f[u, v], the largest magnitude met>>, or <<>> if it leaves the range of interest *)
Jet(prog, X, U, V) == LET r == Steps(prog, 1, <<>>, X, U, V, N1) IN IF r[1] = <<>> THEN <<>> ELSE Append(r[1][1], r[2])
=============================================================================
