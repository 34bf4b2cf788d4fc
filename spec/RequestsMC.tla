----------------------------- MODULE RequestsMC -----------------------------
(* Every request with integer arguments between -2 and Hi, every operation of *)
(* every kind of manifold, every pair of kinds in a product, and the rest.    *)
EXTENDS Requests, NumJson, TLC
CONSTANT Hi
VARIABLE r
Ints == (0 - 2)..Hi
Tuples(n) == [1..n -> Ints]
Init == \/ \E c \in Classes : \E a \in Tuples(Arity(c)) : r = [kind |-> "build", c |-> c, a |-> a, o |-> ""]
        \/ \E c \in Shaped : \E n \in 0..3 : \E a \in (IF n = 0 THEN {<<>>} ELSE Tuples(n)) : r = [kind |-> "build", c |-> c, a |-> a, o |-> ""]
        \/ \E c \in {"Stiefel", "SpecialOrthogonalGroup", "UnitaryGroup"} : \E o \in {"qr", "polar", "QR", "svd", "cayley", " "} :
             r = [kind |-> "build", c |-> c, a |-> IF Arity(c) = 3 THEN <<3, 2, 1>> ELSE <<3, 2>>, o |-> o]
        \/ \E k \in Kinds : \E op \in Operations : r = [kind |-> "op", c |-> k, a |-> <<>>, o |-> op]
        \/ \E m \in DOMAIN Misc : r = [kind |-> "misc", c |-> m, a |-> <<>>, o |-> ""]
Spec == Init /\ [][FALSE]_r
Emit == NJEmit([r |-> r])
(* the table leaves no class without refused and accepted arguments, and refuses and accepts nothing at once *)
Decided == r.kind = "build" => Fate(r.c, r.a, r.o) \in {"refused", "accepted", "open"} /\ (Inside(r.c, r.a) => Checked(r.c, r.a))
Both == r.kind = "build" /\ r.o = "" /\ r.a # <<>> /\ AllPos(r.a) /\ Fate(r.c, r.a, "") = "refused" =>
          r.c \in {"Stiefel", "Grassmann", "ComplexGrassmann", "FixedRankEmbedded", "PSDFixedRank", "PSDFixedRankComplex", "Elliptope"}
(* enlarging the copies, or the ambient size, of an accepted manifold keeps it acceptable *)
Monotone == r.kind = "build" /\ r.c \in Classes /\ Fate(r.c, r.a, r.o) = "accepted" /\ r.c \notin {"PSDFixedRank", "PSDFixedRankComplex", "Elliptope"} =>
              Fate(r.c, [r.a EXCEPT ![1] = @ + 1], r.o) = "accepted"
(* every optimizer's needs are met by every kind: what line-search methods and trust regions use is implemented wherever a gradient is *)
FirstOrder == r.kind = "op" /\ r.o \in {"retraction", "inner_product", "norm", "euclidean_to_riemannian_gradient", "random_point", "random_tangent_vector", "zero_vector", "typical_dist", "to_tangent_space"}
                => OpFate(r.c, r.o) = "implemented"
LogDist == r.kind = "op" => (OpFate(r.c, "log") = OpFate(r.c, "dist"))
=============================================================================
