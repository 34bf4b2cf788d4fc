------------------------------ MODULE Problem ------------------------------
(***************************************************************************)
(* The operators of an optimization problem.                                *)
(*                                                                         *)
(* A configuration c = [g, h, pre, be]: which gradient and Hessian operators *)
(* the user supplies ("none", "e"uclidean, "r"iemannian, "both"), whether    *)
(* there is a preconditioner, and the backend that decorates the functions.  *)
(* Term(c, op) is the value an operator has to have: a function of the       *)
(* supplied ones alone, whatever was asked for before.                       *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets
Ops == {"cost", "eg", "rg", "eh", "rh", "pc"}
Sources == {"none", "e", "r", "both"}
Auto(c) == c.be # "numpy"
Refused == <<"refused">>
Term(c, op) ==
  LET eg == IF c.g = "e" THEN <<"user eg">> ELSE IF Auto(c) THEN <<"derived eg">> ELSE Refused
      eh == IF c.h = "e" THEN <<"user eh">> ELSE IF Auto(c) THEN <<"derived eh">> ELSE Refused IN
  CASE op = "cost" -> <<"cost">>
    [] op = "eg" -> eg
    [] op = "eh" -> eh
    [] op = "rg" -> IF c.g = "r" THEN <<"user rg">> ELSE IF eg = Refused THEN Refused ELSE <<"converted gradient", eg[1]>>
    [] op = "rh" -> IF c.h = "r" THEN <<"user rh">> ELSE IF eg = Refused \/ eh = Refused THEN Refused ELSE <<"converted hessian", eg[1], eh[1]>>
    [] op = "pc" -> IF c.pre THEN <<"user pc">> ELSE <<"identity">>
(* a problem that must not be built: both versions of an operator, or an undecorated function *)
Functions(c) == {"cost"} \cup (IF c.g \in {"e", "both"} THEN {"eg"} ELSE {}) \cup (IF c.g \in {"r", "both"} THEN {"rg"} ELSE {})
                         \cup (IF c.h \in {"e", "both"} THEN {"eh"} ELSE {}) \cup (IF c.h \in {"r", "both"} THEN {"rh"} ELSE {})
Invalid(c, plain) == c.g = "both" \/ c.h = "both" \/ plain \in Functions(c)

(* --- the lazy implementation: an operator is made at its first use from those it needs, and kept --- *)
Needs(c, op) == CASE op = "rg" /\ c.g # "r" -> {"eg"}
                  [] op = "rh" /\ c.h # "r" -> {"eg", "eh"}
                  [] OTHER -> {}
(* what building op from the operators already at hand gives *)
Make(c, op, kept) ==
  LET of(o) == IF o \in DOMAIN kept THEN kept[o] ELSE Term(c, o) IN
  IF \E o \in Needs(c, op) : of(o) = Refused THEN Refused
  ELSE CASE op = "rg" /\ c.g # "r" -> <<"converted gradient", of("eg")[1]>>
         [] op = "rh" /\ c.h # "r" -> <<"converted hessian", of("eg")[1], of("eh")[1]>>
         [] OTHER -> Term(c, op)
Keep(kept, c, op) ==
  LET new == {o \in {op} \cup Needs(c, op) : o \notin DOMAIN kept /\ Make(c, o, kept) # Refused} IN
  [o \in DOMAIN kept \cup new |-> IF o \in DOMAIN kept THEN kept[o] ELSE Make(c, o, kept)]
=============================================================================
