---------------------------- MODULE MultiToolsMC ----------------------------
(* All requests up to a size, and every 2 x 2 matrix over {-1, 0, 1} (also as *)
(* part of a stack of two) for every function it is in the domain of.        *)
EXTENDS MultiTools, FiniteSets, NumJson, TLC
CONSTANTS MaxN, Stacks
VARIABLES q, A
Entries == {-1, 0, 1}
Small == [1..2 -> [1..2 -> Entries]]
(* 2 x 2 integer matrices: real logarithm iff invertible and no eigenvalue is a negative real (or a negative multiple of the identity) *)
Dt(B) == B[1][1] * B[2][2] - B[1][2] * B[2][1]
Trc(B) == B[1][1] + B[2][2]
Disc(B) == Trc(B) * Trc(B) - 4 * Dt(B)
HasLog(B) == Dt(B) # 0 /\ (Disc(B) < 0 \/ (Dt(B) > 0 /\ Trc(B) > 0))
Requests == {r \in [fn : Fns, n : 1..MaxN, m : 1..MaxN, k : Stacks, cplx : BOOLEAN, opt : {"", "symmetric", "positive_definite"},
                    cls : {"zero", "eye", "generic", "rank1", "selfadj", "zerocol", "huge", "tiny", "int", "pd", "spread", "expof", "rot", "mixed", "small", "jordan", "skew", "wide"}] : Legal(r)}
Given(f) == [fn |-> f, n |-> 2, m |-> 2, k |-> 0, cplx |-> FALSE, opt |-> "", cls |-> "given"]
Init == \/ q \in Requests /\ A = <<>>
        \/ /\ q \in {Given(f) : f \in {"qr", "expm", "logm", "herm", "skewh"}} /\ A \in Small
           /\ q.fn = "logm" => HasLog(A)
Spec == Init /\ [][FALSE]_<<q, A>>
Emit == NJEmit([q |-> q, A |-> A])
(* the equations are consistent: reference solutions satisfy them *)
M == [i \in 1..2 |-> [j \in 1..2 |-> NInt(A[i][j])]]
Consistent == A # <<>> =>
  CASE q.fn = "expm" -> Ok("expm", "", M, ExpM(M), <<>>) /\ ~Ok("expm", "", M, ArrAdd(ExpM(M), ArrScale(NDec("1e-9"), Eye(2))), "null")
    [] q.fn = "herm" -> Ok("herm", "", M, HalfSum(M, Transp(M)), <<>>)
    [] q.fn = "skewh" -> Ok("skewh", "", M, HalfDif(M, Transp(M)), <<>>)
    [] q.fn = "logm" -> NLt(N0, NMax(NDec("0.5"), NAbs(Det(M))))
    [] OTHER -> TRUE
=============================================================================
