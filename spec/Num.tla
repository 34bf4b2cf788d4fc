-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real and complex numbers.  TLC evaluates these operators through        *)
(* java/Num.java: a number is held to 44 significant decimal digits, reals *)
(* read from a trace (IEEE doubles) are exact, and NaN and the infinities  *)
(* are values of their own: every comparison with NaN is FALSE, so a clause *)
(* over numbers has a truth value for everything the code can produce.      *)
(* The definitions given here state the intended meaning.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Reals

NInt(i) == i
NDec(s) == CHOOSE x \in Real : TRUE   \* the real number whose decimal numeral is s
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a / b
NNeg(a) == 0 - a
NAbs(a) == IF a < 0 THEN 0 - a ELSE a          \* the modulus when a is complex
NConj(a) == a
NRe(a) == a
NIm(a) == 0
NCplx(a, b) == <<a, b>>
NSqrt(a) == CHOOSE x \in Real : x >= 0 /\ x * x = a
NExp(a) == CHOOSE x \in Real : TRUE
NLog(a) == CHOOSE x \in Real : NExp(x) = a
NSin(a) == CHOOSE x \in Real : TRUE
NCos(a) == CHOOSE x \in Real : TRUE
NAtan2(y, x) == CHOOSE t \in Real : TRUE
NLt(a, b) == a < b
NLe(a, b) == a <= b
NIsFin(a) == TRUE
NIsNaN(a) == FALSE
NIsReal(a) == TRUE
NIsNum(a) == TRUE
NPi == CHOOSE x \in Real : TRUE
NNaN == CHOOSE x : x \notin Real
NInf == CHOOSE x : x \notin Real

a ++ b == NAdd(a, b)
a -- b == NSub(a, b)
a ** b == NMul(a, b)
a // b == NDiv(a, b)
a \prec b == NLt(a, b)
a \preceq b == NLe(a, b)

N0 == NInt(0)
N1 == NInt(1)
N2 == NInt(2)
NHalf == NDiv(NInt(1), NInt(2))
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a
NSq(a) == NMul(a, a)
NEq(a, b) == NLe(a, b) /\ NLe(b, a)

(* acos and acosh of the clipped argument *)
NAcos(a) == LET c == NMax(NInt(0 - 1), NMin(N1, a)) IN NAtan2(NSqrt(NMul(NSub(N1, c), NAdd(N1, c))), c)
NAcosh(a) == LET c == NMax(N1, a) IN NLog(NAdd(c, NSqrt(NMul(NSub(c, N1), NAdd(c, N1)))))
NSinh(a) == NDiv(NSub(NExp(a), NExp(NNeg(a))), N2)
NCosh(a) == NDiv(NAdd(NExp(a), NExp(NNeg(a))), N2)
NTanh(a) == NDiv(NSinh(a), NCosh(a))

(* |a - b| <= tol * max(1, |a|, |b|)  *)
Near(a, b, tol) ==
  /\ NIsFin(a) /\ NIsFin(b)
  /\ NLe(NAbs(NSub(a, b)), NMul(tol, NMax(N1, NMax(NAbs(a), NAbs(b)))))
(* |a - b| <= tol * scale *)
Close(a, b, tol, scale) == NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NMul(tol, scale))
=============================================================================
