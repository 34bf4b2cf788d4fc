#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os, jsonschema
O="src/pymanopt/optimizers/"; M="src/pymanopt/manifolds/"; A="src/pymanopt/autodiff/"
ALLM=[M+f for f in ("manifold.py","sphere.py","euclidean.py","positive.py","psd.py","complex_circle.py","grassmann.py","positive_definite.py","hyperbolic.py","oblique.py","stiefel.py","fixed_rank.py","group.py","product.py")]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None))
    P.append(d)

p("C01","Runs stop exactly when a configured limit is met, for a true reason",
 "Every optimizer ends its run at the first of its per-iteration checks at which a configured limit that applies to it (time, iterations, gradient norm, line-search step size for the two line-search methods, cost evaluations for the two derivative-free methods) is met, and never before; limits left unset have the values in the constructor's signature. The stopping reason it returns names a limit that really was met at that moment. The iteration and evaluation counts and the run time it returns are the ones at which it stopped.",
 ["inputs","configurations","histories"],"every optimizer, every combination of limits, every sequence of costs, gradients, step sizes and clock readings a run can produce",
 "Tests run a handful of problems to convergence with default limits and check the solution only; which limit fires first, ties, a clock that jumps, and zero-length runs are never driven.",
 [O+"optimizer.py",O+"steepest_descent.py",O+"conjugate_gradient.py",O+"trust_regions.py",O+"nelder_mead.py",O+"particle_swarm.py"],
 [("per-iteration stopping test","optimizers/optimizer.py:_check_stopping_criterion"),("loop exits of the five run() methods","optimizers/*.py:run")],
 [("iteration, cost_evaluations, gradient_norm, step_size, start_time","what the limits are compared with","locals of run()")],
 ["OptimizerResult.stopping_criterion / iterations / cost_evaluations","calls of the user's cost function","time.time"])
p("C02","The returned result describes the returned point",
 "The cost in the result of a run is the cost function's value at the returned point, and the gradient norm returned by conjugate gradients and trust regions is the norm of the Riemannian gradient there; the step size returned by a line-search method is that of its last search. When logging is on, the log of a line-search method holds one entry per iteration with consecutive iteration numbers, the first at the initial point, and each entry's cost and gradient norm are those of the point logged with it. The returned point is an element of the manifold whenever the initial point is.",
 ["inputs","configurations","histories"],"every optimizer, manifold, problem, initial point and set of limits, whatever branch ended the run",
 "Tests compare the final point with a known optimum to a loose tolerance for a few problems; none compares the reported cost, norms or log with the reported point, and none ends runs on every branch.",
 [O+f for f in ("optimizer.py","steepest_descent.py","conjugate_gradient.py","trust_regions.py","nelder_mead.py","particle_swarm.py")],
 [("_return_result / _add_log_entry","optimizers/optimizer.py"),("iterate/cost/gradient variables updated together","optimizers/*.py:run")],None,
 ["OptimizerResult","OptimizerResult.log"])
p("C03","Optimizers never make the cost worse",
 "With the shipped line searches, the cost of the successive iterates of steepest descent and of conjugate gradients never increases; the iterates of trust regions never increase the cost by more than the documented regularization (its rho_regularization times machine epsilon times max(1,|cost|)). The best cost kept by Nelder-Mead and by particle swarm never increases, so the cost of the returned point is at most the smallest cost of the initial points.",
 ["inputs","configurations","histories"],"every cost function (convex or not, smooth or not, undefined in places), manifold, initial point, beta rule, line search and parameter value",
 "Tests use well-behaved convex-like costs with default parameters, where every method descends regardless of its safeguards; the safeguards matter on adversarial costs only.",
 [O+f for f in ("line_search.py","steepest_descent.py","conjugate_gradient.py","trust_regions.py","nelder_mead.py","particle_swarm.py")],
 [("sufficient-decrease loops and zero-step fallback","optimizers/line_search.py"),("acceptance test","optimizers/trust_regions.py:run"),("simplex replacement rules","optimizers/nelder_mead.py"),("personal/global best updates","optimizers/particle_swarm.py")],None,["log entries","cost evaluations in order"])
p("C04","Line searches return an evaluated, sufficiently decreasing step or no step",
 "A line search returns a point obtained by retracting a non-negative multiple of the given direction from the given point, together with the length of the retracted vector. The first trial step is chosen as documented, every later trial is the previous one times the contraction factor, and the search stops at the first trial satisfying the Armijo condition with the configured sufficient-decrease constant, or when the configured number of contractions is used up; a point of higher or undefined cost is never returned: the search then returns the starting point and a zero step. The adaptive search carries over the accepted step as the next initial guess (doubled unless exactly two evaluations were used).",
 ["inputs","histories","configurations"],"every objective along the ray (including ties with the Armijo bound, increases and NaN), every direction, every parameter value, and every sequence of searches sharing one searcher",
 "Line searches are exercised only through whole optimization runs on easy problems, whose first or second trial is always acceptable.",
 [O+"line_search.py"],[("BackTrackingLineSearcher.search / AdaptiveLineSearcher.search","optimizers/line_search.py")],
 [("carried-over state of a searcher (previous cost, previous step)","initial guess of the next search","optimizers/line_search.py")],["return value of search()","objective and retraction calls"])
p("C05","Trust-region radius and acceptance follow the actual/predicted ratio",
 "In each trust-region iteration the trial step is accepted exactly when the model does not increase and the regularized ratio of actual to predicted decrease exceeds rho_prime. The radius is divided by four when the ratio is below 1/4, not a number, or the model increased, is doubled but never beyond the maximum radius when the ratio exceeds 3/4 and the step stopped at the boundary or on negative curvature, and is unchanged otherwise. A rejected iteration leaves the iterate, its cost and its gradient unchanged.",
 ["inputs","histories","configurations"],"every sequence of ratios (ties included), every cost, gradient and Hessian, radius settings and rho_prime / rho_regularization values",
 "Tests only check the final point of two easy runs in which most steps are accepted.",
 [O+"trust_regions.py"],[("ratio, radius update and acceptance","optimizers/trust_regions.py:run")],
 [("Delta","trust-region radius","trust_regions.py:run"),("x, fx, fgradx","iterate and its cost and gradient","trust_regions.py:run")],["retraction calls (point, step)","cost and gradient calls"])
p("C06","Trust-region subproblem steps stay inside the radius and beat the Cauchy step",
 "Every trial step of trust regions is a tangent vector whose (preconditioner) norm is at most the current radius, and whose model value is at most that of the Cauchy step, hence never above zero; it is the step the truncated conjugate-gradient iteration yields for the current gradient, Hessian, preconditioner, radius and inner limits. The inner iteration ends only when curvature is non-positive or the radius would be exceeded (then the step lies on the boundary), when the residual has reached the kappa/theta target after the minimum number of inner iterations, when the model stops decreasing, or when the inner-iteration limit is used up.",
 ["inputs","configurations"],"every symmetric Hessian (indefinite, singular, zero), gradient, positive-definite preconditioner, radius, kappa, theta, mininner, maxinner, with and without the randomized start",
 "The subproblem solver has no unit test; full runs on convex-like problems rarely meet negative curvature, exact boundary hits or the inner limits.",
 [O+"trust_regions.py"],[("truncated CG loop","optimizers/trust_regions.py:_truncated_conjugate_gradient"),("Cauchy-point safeguard for randomized starts","optimizers/trust_regions.py:run")],None,["arguments of retraction calls","Hessian-vector products requested"])
p("C07","Conjugate-gradient directions obey the selected beta rule and restarts",
 "The first search direction, and the direction after any restart, is the negative preconditioned gradient. Every other direction is the negative preconditioned gradient plus beta times the transported previous direction, where beta is the value of the documented formula of the selected rule (clipped as documented), beta is 0 when Powell's orthogonality test exceeds orth_value, and the direction is replaced by the negative preconditioned gradient whenever it is not a descent direction. The directional derivative handed to the line search is the inner product of gradient and direction, so it is never positive; steepest descent searches along the negative Riemannian gradient.",
 ["inputs","histories","configurations"],"every beta rule, orth_value, preconditioner, manifold, cost and sequence of iterates",
 "The tests check that each rule reaches an optimum on one problem; a wrong beta still descends because of the restart safeguard.",
 [O+"conjugate_gradient.py"],[("beta rules","optimizers/conjugate_gradient.py:_beta_*"),("restart logic","optimizers/conjugate_gradient.py:run")],
 [("descent_direction, beta, grad, Pgrad","CG memory","conjugate_gradient.py:run")],["arguments of line_searcher.search"])
p("C08","Nelder-Mead follows the simplex rules",
 "Each Nelder-Mead iteration takes the sorted simplex and replaces its worst vertex by the reflected, expanded or contracted point chosen by comparing costs with the best, second-worst and worst vertex, or shrinks every other vertex to its midpoint with the best one; trial points lie on the line through the centroid and the worst vertex at the configured multiples. A simplex of exactly dim+1 user-supplied points is accepted and any other number is refused. The vertex of lowest cost seen in the simplex is never dropped and is what is returned.",
 ["inputs","histories","configurations"],"every sequence of cost comparisons (ties included) over any number of iterations, every coefficient setting and simplex",
 "One test runs Nelder-Mead to convergence on one problem with a random simplex; no branch, tie or user-supplied simplex is checked.",
 [O+"nelder_mead.py"],[("simplex update","optimizers/nelder_mead.py:run"),("centroid","optimizers/nelder_mead.py:compute_centroid")],
 [("x, costs","simplex and its costs","nelder_mead.py:run")],["cost evaluations (points, order)","OptimizerResult"])
p("C09","Particle swarm returns the best position it ever evaluated",
 "Particle swarm returns the position of lowest cost among all positions it evaluated, with that cost; every position a particle moves to is evaluated, and each move retracts inertia times the transported velocity plus random multiples of the logarithms towards the particle's own best position and the best position the swarm had found when the iteration began. The inertia factor decreases linearly with the iteration number. A user-supplied population of any size is used as given.",
 ["inputs","histories","configurations"],"every cost function, swarm size, dimension, coefficient setting, random stream and number of iterations",
 "One test runs a default swarm to convergence on one problem; stale evaluations, lost bests and short runs are invisible there.",
 [O+"particle_swarm.py"],[("velocity and position update, personal and global best","optimizers/particle_swarm.py:run")],
 [("x, xprev, v, y, fy, xbest, fbest","swarm state","particle_swarm.py:run")],["cost evaluations","retraction, log and transport calls","OptimizerResult"])
p("C10","Runs are reproducible and leave optimizer settings and inputs alone",
 "Running an optimizer modifies neither the optimizer's settings, nor the problem, nor the initial point or population passed by the caller. A run's outcome depends only on the settings, the problem, the initial point, and the random seed, never on runs made earlier with the same optimizer object, except for the line searcher explicitly reused by request.",
 ["histories","inputs","configurations"],"every sequence of runs with one optimizer object over different problems, manifolds and initial points",
 "Tests construct a fresh optimizer per run and never look at the inputs afterwards.",
 [O+f for f in ("optimizer.py","steepest_descent.py","conjugate_gradient.py","trust_regions.py","nelder_mead.py","particle_swarm.py","line_search.py")],
 [("per-run locals, deepcopy of the line searcher","optimizers/*.py:run")],[("optimizer attributes","settings that outlive a run","optimizers/*.py")],["OptimizerResult of repeated runs","arguments after the run"])
p("C11","Problem derives, prefers and caches its operators correctly",
 "A problem's Riemannian gradient and Hessian are the supplied Riemannian operators if given, and otherwise the manifold's conversion of the supplied or automatically derived Euclidean ones; every derivative is evaluated at the point asked for, with the layout (single array, sequence of arrays, or sequence per factor) of the manifold's points. Without a preconditioner the gradient is its own preconditioned version. Supplying both the Euclidean and the Riemannian version of an operator, functions not decorated for the manifold, or operators returning the wrong number of arrays is refused with an error, and the manifold of a problem cannot be replaced.",
 ["configurations","inputs","histories"],"every combination of supplied operators, manifold layout (array, sequence of arrays, product, product with factors that are themselves structured) and backend, and every order of accessing the derived operators",
 "Tests cover a few combinations with one backend and point; the full product of operator sets, layouts and access orders is not run.",
 ["src/pymanopt/core/problem.py",A+"__init__.py"],[("operator derivation, flattening and wrapping","core/problem.py")],
 [("cached operators","derived at first access","core/problem.py")],["Problem.cost, euclidean_gradient, riemannian_gradient, euclidean_hessian, riemannian_hessian, preconditioner"])
p("C12","All autodiff backends return the exact derivatives",
 "For every differentiable cost function expressible in a backend, the gradient and Hessian-vector product it generates equal the true derivatives: with respect to the real inner product, per argument, with the shape of the argument, for real and complex arguments, single and multiple arguments. Arguments the cost does not depend on get a zero gradient and zero Hessian-vector product. All backends therefore agree with one another and with hand-written derivatives.",
 ["programs","inputs","configurations"],"every cost expression, argument structure, real or complex type, backend, and direction",
 "The tests check one quadratic-exponential cost per structure and backend; unused arguments, linear costs and cross derivatives between arguments appear for none or few backends.",
 [A+"__init__.py",A+"backends/_autograd.py",A+"backends/_jax.py",A+"backends/_pytorch.py",A+"backends/_tensorflow.py",A+"backends/_numpy.py",A+"backends/_backend.py"],
 [("generate_gradient_operator / generate_hessian_operator of each backend","autodiff/backends"),("argument unpacking","autodiff/__init__.py")],None,["cost.get_gradient_operator()","cost.get_hessian_operator()"])
p("C13","Riemannian gradients represent the directional derivative",
 "For every manifold, point and Euclidean gradient, the converted gradient is a tangent vector whose Riemannian inner product with any tangent vector equals the real Euclidean inner product of the Euclidean gradient with that vector's ambient representation. In particular the derivative of the cost along any retraction curve is the inner product with the Riemannian gradient.",
 ["inputs","configurations"],"every manifold class and size, every point, tangent vector and ambient gradient, real and complex",
 "Tests compare with a projection or a finite-difference check for one size of some manifolds; several manifolds, complex cases, k>1 and non-symmetric ambient gradients are not compared with the defining identity.",
 ALLM,[("euclidean_to_riemannian_gradient","manifolds/*.py")],None,["euclidean_to_riemannian_gradient, inner_product, embedding"])
p("C14","Riemannian Hessians are symmetric, linear and second-order exact",
 "Wherever a manifold converts Euclidean Hessians, the result is a tangent vector, linear in the direction and symmetric with respect to the metric (given a symmetric Euclidean Hessian), and its quadratic form is the second derivative of the cost along the geodesic (on quotient manifolds the horizontal one).",
 ["inputs","configurations"],"every manifold class and size with a Hessian conversion, every point, direction, Euclidean gradient and symmetric Euclidean Hessian, real and complex",
 "Tests fit slopes of Taylor errors at a random point for some manifolds; an error in a term that vanishes for the tested cost or size is not seen.",
 ALLM,[("euclidean_to_riemannian_hessian, weingarten","manifolds/*.py")],None,["euclidean_to_riemannian_hessian, inner_product"])
p("C15","Operations that return points return points of the manifold",
 "Random points, retractions, exponentials and pair means satisfy the defining constraints of the manifold (norm, orthonormality, determinant sign, symmetry, definiteness, positivity, rank, sheet or ball membership, orthogonality to the excluded subspace) to numerical accuracy, with the right shape and with complex entries exactly on complex manifolds, after any chain of such operations. Random points are really drawn: two draws on a manifold of positive dimension differ.",
 ["histories","inputs","configurations"],"every manifold class, size and multiplicity, every sequence of operations, tangent vectors from tiny to large",
 "Tests check one retraction from one random point for some manifolds, never chains, and mostly one size.",
 ALLM,[("random_point, retraction, exp, pair_mean","manifolds/*.py")],None,["return values"])
p("C16","Operations that return tangent vectors return tangent vectors",
 "Random tangent vectors, zero vectors, logarithms, transported vectors, projections, tangent-space normalizations and converted gradients and Hessians lie in the tangent space (horizontal space for quotients) of the point they belong to, in the representation the manifold documents. Random tangent vectors have unit norm, the zero vector is the neutral element with zero norm, and all have the shape of the point's tangent representation.",
 ["histories","inputs","configurations"],"every manifold class, size and multiplicity, every point reached by any sequence of operations",
 "Tests check projection-invariance of one random vector for some manifolds; zero vectors, logarithms and transported vectors at derived points are mostly unchecked.",
 ALLM,[("random_tangent_vector, zero_vector, log, transport, projection, to_tangent_space","manifolds/*.py")],None,["return values"])
p("C17","Projection is the orthogonal projection onto the tangent space",
 "On every manifold that defines a projection, projecting an ambient vector yields a tangent vector, projecting (the ambient representation of) a tangent vector gives that vector back, projection is real-linear, and the residual is orthogonal, in the ambient inner product the metric is induced from, to every tangent vector (every horizontal vector for quotients).",
 ["inputs","configurations"],"every manifold class and size, point and ambient vector, real and complex",
 "Tests check idempotence or a formula on one random input for some classes; residual orthogonality and complex or k>1 cases are mostly untested.",
 ALLM,[("projection","manifolds/*.py")],None,["projection, inner_product"])
p("C18","The metric is the documented inner product",
 "On every manifold the inner product of tangent vectors equals the metric's defining formula, is symmetric, real-bilinear and positive definite on the tangent space, and is real-valued also for complex manifolds. The norm is the square root of the inner product of a vector with itself, with no dependence on the vector's scale.",
 ["inputs","configurations"],"every manifold class, size and multiplicity, every point and pair of tangent vectors",
 "Tests evaluate the metric at one random pair for some manifolds, often against the same expression as the code.",
 ALLM,[("inner_product, norm","manifolds/*.py")],None,["inner_product, norm"])
p("C19","Distances are metrics and agree with logarithms",
 "Wherever a manifold defines distances, they are non-negative, symmetric, zero exactly for equal (equivalent) points, satisfy the triangle inequality, equal the geodesic distance formula of the manifold, and equal the norm of the logarithm where one is defined. Distances are finite and right for every pair of points, coincident, nearly coincident and antipodal ones included, and so are logarithms away from the cut locus.",
 ["inputs","histories","configurations"],"every manifold class and size, every pair and triple of points, nearby and far apart, coincident and nearly coincident",
 "Tests use a few random pairs, which are generic: rounding cases at zero distance, k>1 and symmetric/triangle laws are mostly untested.",
 ALLM,[("dist, log","manifolds/*.py")],None,["dist, log, norm"])
p("C20","Exponential and logarithm are inverse geodesic maps",
 "Where defined, the exponential map follows the geodesic: it starts at the point with the given velocity, has constant speed, composes along the same geodesic, and moves by a distance equal to the vector's norm within the injectivity radius. Logarithm and exponential invert each other there, and the pair mean of two points is the point halfway along the geodesic between them. Both are exact for tiny and for zero vectors.",
 ["inputs","configurations"],"every manifold class and size with exp/log/pair_mean, points and vectors within the injectivity radius, from zero and tiny to large",
 "Tests check exp(log) for one random pair of a few manifolds; small vectors, k>1 and complex cases, and the midpoint law are mostly untested.",
 ALLM,[("exp, log, pair_mean","manifolds/*.py")],None,["exp, log, pair_mean, dist"])
p("C21","Retractions agree with geodesics to first order, projections-based to second",
 "Retracting the zero vector gives the point back, and for every tangent vector the retraction curve leaves the point with exactly that velocity. Retractions documented or known to be second order (metric projections such as normalization and polar factors, and exponential maps) agree with the geodesic to second order, and each retraction equals its defining formula.",
 ["inputs","configurations"],"every manifold class, size and multiplicity, every point and tangent vector from zero to large",
 "Tests check that a small step stays near the straight line, or on the manifold, for one random vector and some manifolds.",
 ALLM,[("retraction","manifolds/*.py")],None,["retraction"])
p("C22","Vector transport is linear, tangent-valued and trivial at one point",
 "Transporting a tangent vector from one point to another gives a tangent vector at the second point, depends linearly on the vector, and is the identity when both points are equal. Where transport is documented as parallel transport it preserves inner products, and on product manifolds each factor is transported between its own points.",
 ["inputs","histories","configurations"],"every manifold class and size with a transport, every pair of points and vector",
 "Tests check one random pair for some classes.",
 ALLM,[("transport","manifolds/*.py")],None,["transport"])
p("C23","Product manifolds act factor by factor, and tangent vectors add and scale",
 "Every operation of a product manifold is the tuple of the same operations of its factors on the corresponding components; inner products and dimensions add up, squared distances add up, and typical distance combines accordingly. Tangent vectors of a product support addition, subtraction, negation and multiplication or division by scalars from either side, component by component, without changing their operands. Products of products are refused.",
 ["configurations","inputs","programs"],"every list of factors (one or many, repeated, structured), every operation, every arithmetic expression over tangent vectors and scalars of any numeric type",
 "Tests use one fixed product, and check a few operations on it; mixed scalar types, in-place operators and structured factors are not covered.",
 [M+"product.py","src/pymanopt/tools/__init__.py"],[("Product methods, _ProductTangentVector","manifolds/product.py")],None,["return values"])
p("C24","Declared dimension is the dimension of the tangent space",
 "The dimension a manifold reports equals the real dimension of its tangent space (of the horizontal space for quotients), at every point. The number of values and the point layout it reports match its points.",
 ["configurations"],"every manifold class, every admissible size and multiplicity",
 "Tests compare the dimension with the same formula for one size, if at all.",
 ALLM,[("constructors computing dim","manifolds/*.py:__init__")],None,["manifold.dim, point_layout, num_values"])
p("C25","A k-fold manifold is k independent copies of the single one",
 "For manifolds with a multiplicity parameter k, every operation on stacked points and vectors equals the single-copy operation applied to each slice; inner products and dimensions are sums over slices, and squared distances (as well as squared typical distances, except on hyperbolic space) add up. Random points and vectors have independent slices.",
 ["configurations","inputs"],"every manifold with a multiplicity parameter, k from 2 up, every operation and input",
 "Tests of k>1 mostly repeat the k=1 test at one random point; slices mixing or a reduction over the wrong axis can go unseen.",
 ALLM,[("batched linear algebra","manifolds/*.py, tools/multi.py")],None,["return values on stacks and slices"])
p("C26","Manifold operations and problem functions do not modify their inputs",
 "No manifold operation, problem operator or line search modifies the points, tangent vectors, gradients or lists passed to it, nor returns an object that shares memory with them in a way that later use of the result by the library changes the input. Calling an operation twice with the same inputs gives the same result, apart from the random generators.",
 ["histories","inputs","configurations"],"every manifold, operation and input, and every sequence of operations",
 "Tests never compare inputs before and after a call.",
 ALLM+["src/pymanopt/core/problem.py"],[("functional style of the operations","manifolds/*.py")],None,["arguments after the call"])
p("C27","Quotient manifolds give the same answer for equivalent representatives",
 "On quotient manifolds (Grassmann, fixed-rank positive semidefinite, elliptope) distances, inner products of horizontal vectors, gradients and Hessians of invariant costs, exponentials, logarithms and retractions do not depend on the chosen representative: replacing a point by an equivalent one and vectors accordingly yields equivalent results.",
 ["inputs","configurations"],"every point, every orthogonal or unitary change of representative, every tangent vector and size, real and complex",
 "No test changes the representative of a point.",
 [M+"grassmann.py",M+"psd.py",M+"oblique.py"],[("quotient geometry","manifolds/grassmann.py, manifolds/psd.py")],None,["dist, inner_product, retraction, exp, log, euclidean_to_riemannian_*"])
p("C28","Stacked linear-algebra helpers compute their defining functions",
 "The library's stacked linear-algebra helpers (transpose, conjugate transpose, symmetric and skew parts, identity stacks, matrix exponential and logarithm, orthogonal-triangular factorization) return, for a single matrix and for every matrix of a stack of any size, the matrix satisfying the defining equation of the function, for real and complex, single and stacked input, including the documented sign normalization of the triangular factor.",
 ["inputs"],"every stack shape, matrix, real or complex type and option of the helpers",
 "Tests compare with numpy on a few random matrices; complex, singular-pivot and multi-axis stacks are partly untested.",
 ["src/pymanopt/tools/multi.py"],[("multi* helpers","tools/multi.py")],None,["return values"])
p("C29","Unsupported or invalid requests are refused, not answered wrongly",
 "Constructors, decorators and helpers refuse the requests their classes or documentation state to be invalid with an error instead of building an object that computes wrong results: sizes and ranks outside the stated domain (such as n < p or k < 1), missing shapes, unknown names of retractions, beta rules or layouts, nested products, subspace matrices of wrong shape, wrongly sized initial simplices, functions without a backend. Requests inside the stated domain are accepted. An operation a manifold does not implement raises a not-implemented error naming the manifold and the operation, on products as well as alone.",
 ["configurations","inputs"],"every constructor argument combination near and across the boundary of the documented domain, every manifold and operation",
 "Tests check a few invalid values of a few classes.",
 ALLM+[O+"conjugate_gradient.py",A+"__init__.py"],[("argument checks","manifolds/*.py:__init__"),("NotImplementedError defaults","manifolds/manifold.py")],None,["exceptions"])
p("C30","Derivative diagnostics accept correct derivatives and expose wrong ones",
 "The gradient and Hessian checking tools report an error slope of about two and three respectively (or an exact model) and a tangent, symmetric, linear operator for correct derivatives on every manifold; for a wrong derivative the numbers they report are the true ones: a slope of about one lower, the actual projection residual, the actual symmetry or linearity defect. They use the point and the direction given by the caller, random tangent ones otherwise, and refuse a direction given without its point. The retraction check reports a slope of at least two (three for second-order retractions), and operations a manifold lacks are reported as such.",
 ["inputs","configurations"],"every problem, point and direction, correct and incorrect derivatives",
 "The tools are used by tests as oracles and are checked themselves on few problems.",
 ["src/pymanopt/tools/diagnostics.py"],[("check_gradient, check_hessian, check_retraction","tools/diagnostics.py")],None,["printed report and returned values"])
if __name__=="__main__":
    S=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
    drop=set()
    with open("/verif/properties.jsonl","w") as f:
        for d in P:
            if S: jsonschema.validate(d,S)
            n=d["statement"].count(". ")+1
            assert n<=3,(d["id"],n)
            f.write(json.dumps(d)+"\n")
    print(len(P))
