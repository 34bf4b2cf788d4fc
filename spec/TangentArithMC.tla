--------------------------- MODULE TangentArithMC ---------------------------
(* All programs of at most Depth instructions on two vectors; complete programs are handed to the replayer. *)
EXTENDS TangentArith, NumJson, TLC
CONSTANT Depth
VARIABLES R, prog
Ints(s) == IF s = "-0.5" THEN {"float", "float64", "float32", "array0"} ELSE Types
Instr == LET n == Len(R) IN
  {<<o, i, j>> : o \in {"add", "sub", "iadd", "isub"}, i \in 1..n, j \in 1..n} \cup {<<"neg", i>> : i \in 1..n}
  \cup UNION {{<<o, i, s, t>> : o \in {"mulr", "mull", "imul"}, i \in 1..n, t \in Ints(s)} : s \in Scalars}
  \cup UNION {{<<o, i, s, t>> : o \in {"div", "idiv"}, i \in 1..n, t \in Ints(s)} : s \in Scalars \ {"0"}}
Init == R = <<<<N1, N0>>, <<N0, N1>>>> /\ prog = <<>>
Next == Len(prog) < Depth /\ \E c \in Instr : R' = Apply(R, c) /\ prog' = Append(prog, c)
Spec == Init /\ [][Next]_<<R, prog>>
Last == prog[Len(prog)]
Eq(a, b) == NLe(MaxAbs(ArrSub(a, b)), NDec("1e-35"))
(* laws of a vector space, on what the last instruction made *)
Laws == prog # <<>> /\ ~InPlace(Last) => LET r == R[Len(R)] i == Last[2] IN
  CASE Last[1] = "add" -> Eq(ArrSub(r, R[Last[3]]), R[i])
    [] Last[1] = "sub" -> Eq(ArrAdd(r, R[Last[3]]), R[i])
    [] Last[1] = "neg" -> Eq(ArrAdd(r, R[i]), ArrZero(r))
    [] OTHER -> TRUE
Emit == prog # <<>> => NJEmit([prog |-> prog])
View == prog
=============================================================================
