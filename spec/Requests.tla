------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What may be asked of the library.  A constructor call is "refused",     *)
(* "accepted" or "open" (outside the documented domain but with nothing    *)
(* said about it); an operation of a manifold is implemented or not.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ---- manifold constructors: class, integer arguments a, option o *)
Arity(c) == CASE c \in {"Stiefel", "Grassmann", "ComplexGrassmann", "FixedRankEmbedded", "Positive"} -> 3     \* n p k / m n k
              [] c \in {"SpecialOrthogonalGroup", "UnitaryGroup", "Symmetric", "SkewSymmetric", "PoincareBall", "SymmetricPositiveDefinite",
                        "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite", "PSDFixedRank", "PSDFixedRankComplex", "Elliptope", "Oblique"} -> 2
              [] c = "ComplexCircle" -> 1
Classes == {"Stiefel", "Grassmann", "ComplexGrassmann", "FixedRankEmbedded", "Positive", "SpecialOrthogonalGroup", "UnitaryGroup", "Symmetric", "SkewSymmetric",
            "PoincareBall", "SymmetricPositiveDefinite", "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite", "PSDFixedRank", "PSDFixedRankComplex",
            "Elliptope", "Oblique", "ComplexCircle"}
Shaped == {"Euclidean", "ComplexEuclidean", "Sphere"}          \* any number of arguments
Retractions(c) == IF c \in {"Stiefel", "SpecialOrthogonalGroup", "UnitaryGroup"} THEN {"qr", "polar"} ELSE {}
AllPos(a) == \A i \in DOMAIN a : a[i] >= 1
Half(i) == i \div 2
(* twice the dimension the class reports; negative ones are refused whatever else is said *)
Dim2(c, a) ==
  CASE c = "SymmetricPositiveDefinite" -> a[2] * a[1] * (a[1] + 1)
    [] c = "PSDFixedRank" -> 2 * a[2] * a[1] - a[2] * (a[2] - 1)
    [] c = "PSDFixedRankComplex" -> 2 * (2 * a[2] * a[1] - a[2] * a[2])
    [] c = "HermitianPositiveDefinite" -> 2 * a[2] * a[1] * (a[1] + 1)
    [] c = "SpecialHermitianPositiveDefinite" -> 0
    [] c = "Elliptope" -> 2 * a[1] * (a[2] - 1) - a[2] * (a[2] - 1)
    [] c = "Oblique" -> 2 * (a[1] - 1) * a[2]
    [] c = "ComplexCircle" -> 2 * a[1]
    [] c = "Positive" -> 2 * a[1] * a[2] * a[3]
    [] OTHER -> 0
RECURSIVE Prod(_)
Prod(a) == IF a = <<>> THEN 1 ELSE Head(a) * Prod(Tail(a))
Checked(c, a) ==        \* the constraints the class states
  CASE c \in {"Stiefel", "Grassmann", "ComplexGrassmann"} -> a[1] >= a[2] /\ a[2] >= 1 /\ a[3] >= 1
    [] c = "FixedRankEmbedded" -> a[3] >= 1 /\ a[3] <= a[1] /\ a[3] <= a[2]
    [] c = "PoincareBall" -> a[1] >= 1 /\ a[2] >= 1
    [] c \in {"Symmetric", "SkewSymmetric", "SpecialOrthogonalGroup", "UnitaryGroup"} -> a[2] >= 1
    [] c \in {"Euclidean", "ComplexEuclidean"} -> a # <<>> /\ Prod(a) >= 0
    [] c = "Sphere" -> a # <<>> /\ Prod(a) >= 1
    [] OTHER -> Dim2(c, a) >= 0
(* certainly inside the documented domain, with something to do *)
Inside(c, a) ==
  /\ AllPos(a) /\ Checked(c, a)
  /\ CASE c \in {"PSDFixedRank", "PSDFixedRankComplex"} -> a[2] <= a[1]
       [] c = "Elliptope" -> a[2] <= a[1]
       [] OTHER -> TRUE
Fate(c, a, o) == IF ~Checked(c, a) \/ (o # "" /\ o \notin Retractions(c)) THEN "refused"
                 ELSE IF Inside(c, a) THEN "accepted" ELSE "open"

(* ---- operations: by kind of manifold (Geometry.tla); "open" where the documentation leaves it open *)
Kinds == {"euc", "sym", "skew", "sph", "sphsub", "obl", "st", "gr", "cc", "so", "u", "pd", "spd", "psd", "ell", "fr", "pos", "pb"}
Operations == {"exp", "retraction", "log", "dist", "pair_mean", "transport", "inner_product", "norm", "projection", "to_tangent_space", "embedding", "zero_vector",
               "random_point", "random_tangent_vector", "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian", "weingarten", "typical_dist"}
Submanifold(k) == k \in {"euc", "sym", "skew", "sph", "sphsub", "obl", "st", "cc", "so", "u", "pd", "spd", "fr"}
Missing(k, op) ==
  CASE op = "exp" -> k \in {"ell", "fr"}
    [] op \in {"log", "dist"} -> k \in {"st", "ell", "fr"}
    [] op = "pair_mean" -> k \in {"st", "gr", "pd", "spd", "psd", "ell", "fr", "pos"}
    [] op = "transport" -> k = "pb"
    [] op = "euclidean_to_riemannian_hessian" -> k = "spd"
    [] op = "weingarten" -> Submanifold(k) /\ k \notin {"st", "sph", "sphsub"}
    [] OTHER -> FALSE
OpenOp(k, op) == (op = "weingarten" /\ ~Submanifold(k)) \/ (op = "euclidean_to_riemannian_hessian" /\ k = "fr")
OpFate(k, op) == IF Missing(k, op) THEN "not implemented" ELSE IF OpenOp(k, op) THEN "open" ELSE "implemented"
(* an operation of a product is missing iff it is missing in some factor *)
ProdFate(ks, op) == IF op = "weingarten" THEN "open"
                    ELSE IF \E k \in ks : OpFate(k, op) = "not implemented" THEN "not implemented"
                    ELSE IF \E k \in ks : OpFate(k, op) = "open" THEN "open" ELSE "implemented"

(* ---- everything else that can be asked for wrongly: request |-> error (a set of acceptable ones), {} = accepted *)
Misc == [
  decorate_positional |-> {}, decorate_varargs |-> {}, decorate_default |-> {},
  decorate_not_a_manifold |-> {"TypeError"}, decorate_manifold_class |-> {"TypeError"}, decorate_no_argument |-> {"ValueError"}, decorate_mixed |-> {"ValueError"},
  decorate_keyword_only |-> {"ValueError"}, decorate_kwargs |-> {"ValueError"}, decorate_star_and_kwargs |-> {"ValueError"},
  function_not_callable |-> {"TypeError"}, backend_missing |-> {"RuntimeError"},
  numpy_gradient |-> {"NotImplementedError"}, numpy_hessian |-> {"NotImplementedError"}, numpy_no_gradient_sd |-> {"NotImplementedError"},
  product_nested |-> {"ValueError"}, product_nested_last |-> {"ValueError"}, product_plain |-> {},
  subspace_vector |-> {"ValueError"}, subspace_tensor |-> {"ValueError"}, subspace_wide |-> {"ValueError"}, complement_vector |-> {"ValueError"}, complement_wide |-> {"ValueError"},
  subspace_tall |-> {}, complement_tall |-> {},
  manifold_float_dimension |-> {"TypeError"}, manifold_negative_dimension |-> {"ValueError"}, manifold_layout_zero |-> {"ValueError"}, manifold_layout_negative |-> {"ValueError"},
  manifold_layout_part_zero |-> {"ValueError"}, manifold_layout_string |-> {"TypeError"}, manifold_layout_float |-> {"TypeError"}, manifold_good |-> {}, manifold_layout_tuple |-> {},
  manifold_abstract |-> {"TypeError"},
  cg_FletcherReeves |-> {}, cg_PolakRibiere |-> {}, cg_HestenesStiefel |-> {}, cg_HagerZhang |-> {}, cg_LiuStorey |-> {}, cg_unknown |-> {"ValueError"}, cg_lowercase |-> {"ValueError"}, cg_empty |-> {"ValueError"},
  nm_dim_points |-> {"ValueError"}, nm_dim_plus_1 |-> {}, nm_dim_plus_2 |-> {"ValueError"}, nm_one |-> {"ValueError"},
  pso_population_number |-> {"ValueError"}, pso_population_list |-> {},
  tangent_add_longer |-> {"ValueError", "AssertionError"}, tangent_sub_shorter |-> {"ValueError", "AssertionError"}, tangent_add_same |-> {},
  qr_vector |-> {"ValueError"}, qr_4d |-> {"ValueError"}, qr_matrix |-> {}, qr_stack |-> {},
  problem_plain_cost |-> {"ValueError"}, problem_both_gradients |-> {"ValueError"}, problem_both_hessians |-> {"ValueError"}, problem_set_manifold |-> {"AttributeError"},
  problem_set_preconditioner |-> {"AttributeError"}, problem_good |-> {}]
=============================================================================
