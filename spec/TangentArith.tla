---------------------------- MODULE TangentArith ----------------------------
(***************************************************************************)
(* Arithmetic of composite tangent vectors (of products, of fixed-rank      *)
(* matrices).  A register holds a vector, in the model the pair of its      *)
(* coordinates with respect to two given vectors; an instruction makes a    *)
(* new register out of others, or updates one in place.  An update in place *)
(* must not be visible in any other register.                               *)
(***************************************************************************)
EXTENDS LinAlg
Scalars == {"2", "-0.5", "0", "3"}
(* kinds of scalar a caller may use *)
Types == {"int", "float", "float64", "float32", "int64", "array0"}
Coord(s) == NDec(s)
(* the value an instruction computes from the registers R *)
Value(R, c) ==
  CASE c[1] = "add" -> ArrAdd(R[c[2]], R[c[3]])
    [] c[1] = "sub" -> ArrSub(R[c[2]], R[c[3]])
    [] c[1] = "neg" -> ArrNeg(R[c[2]])
    [] c[1] \in {"mulr", "mull"} -> ArrScale(Coord(c[3]), R[c[2]])
    [] c[1] = "div" -> ArrScale(NDiv(N1, Coord(c[3])), R[c[2]])
    [] c[1] = "iadd" -> ArrAdd(R[c[2]], R[c[3]])
    [] c[1] = "isub" -> ArrSub(R[c[2]], R[c[3]])
    [] c[1] = "imul" -> ArrScale(Coord(c[3]), R[c[2]])
    [] c[1] = "idiv" -> ArrScale(NDiv(N1, Coord(c[3])), R[c[2]])
InPlace(c) == c[1] \in {"iadd", "isub", "imul", "idiv"}
(* an instruction that works in place replaces its register, any other appends one *)
Apply(R, c) == IF InPlace(c) THEN [R EXCEPT ![c[2]] = Force(Value(R, c))] ELSE Append(R, Force(Value(R, c)))
=============================================================================
