"""C29: the requests of RequestsMC, made of the real library."""
import numpy as np

import core

pymanopt = core.load_pymanopt()
import manifolds as mfs  # noqa: E402
from pymanopt import manifolds as M  # noqa: E402
from pymanopt import optimizers  # noqa: E402
from pymanopt.manifolds.manifold import Manifold  # noqa: E402
from pymanopt.tools import multi  # noqa: E402

NAMES = {"FixedRankEmbedded": lambda: M.FixedRankEmbedded}
LAST_KEYWORD = {"Stiefel", "Grassmann", "ComplexGrassmann", "Positive", "SpecialOrthogonalGroup", "UnitaryGroup", "PoincareBall",
                "SymmetricPositiveDefinite", "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite"}


def build(r):
    c, a = r["c"], list(r["a"])
    cls = getattr(M, c)
    kw = {"retraction": r["o"]} if r["o"] else {}
    if c in LAST_KEYWORD:
        kw["k"] = a.pop()
    return cls(*a, **kw)


def use(m):
    x = m.random_point()
    u = m.random_tangent_vector(x)
    m.inner_product(x, u, u)
    m.retraction(x, u)
    return True


def operations(cfg, seed):
    r = mfs.Run(cfg, "", seed)
    m, d = cfg.man, cfg.d
    x, y = m.random_point(), m.random_point()
    u, v = m.random_tangent_vector(x), m.random_tangent_vector(x)
    cp = r.cost_params(d)
    eg = r.egrad(d, cp, x)
    return {"exp": lambda: m.exp(x, u), "retraction": lambda: m.retraction(x, u), "log": lambda: m.log(x, y), "dist": lambda: m.dist(x, y),
            "pair_mean": lambda: m.pair_mean(x, y), "transport": lambda: m.transport(x, y, u), "inner_product": lambda: m.inner_product(x, u, v),
            "norm": lambda: m.norm(x, u), "projection": lambda: m.projection(x, r.ambient()), "to_tangent_space": lambda: m.to_tangent_space(x, u),
            "embedding": lambda: m.embedding(x, u), "zero_vector": lambda: m.zero_vector(x), "random_point": m.random_point,
            "random_tangent_vector": lambda: m.random_tangent_vector(x), "euclidean_to_riemannian_gradient": lambda: m.euclidean_to_riemannian_gradient(x, eg),
            "euclidean_to_riemannian_hessian": lambda: m.euclidean_to_riemannian_hessian(x, eg, r.ehess(d, cp, x, m.embedding(x, u)), u),
            "weingarten": lambda: m.weingarten(x, u, r.ambient()), "typical_dist": lambda: m.typical_dist}


class Plane(Manifold):
    """A manifold of a user."""

    def __init__(self, dimension=2, layout=1):
        super().__init__("plane", dimension, layout)

    def inner_product(self, point, tangent_vector_a, tangent_vector_b):
        return float(tangent_vector_a @ tangent_vector_b)

    def projection(self, point, vector):
        return vector

    def norm(self, point, tangent_vector):
        return float(np.linalg.norm(tangent_vector))

    def random_point(self):
        return np.random.randn(2)

    def random_tangent_vector(self, point):
        return np.random.randn(2)

    def zero_vector(self, point):
        return np.zeros(2)


def misc():
    e3, s3 = M.Euclidean(3), M.Sphere(3)
    num = pymanopt.function.numpy
    g = lambda *a: None  # noqa: E731

    def problem(man=e3, **kw):
        args = {"cost": num(man)(lambda x: float(x @ x)), "euclidean_gradient": num(man)(lambda x: 2 * x)}
        args.update(kw)
        cost = args.pop("cost")
        return pymanopt.Problem(man, cost, **args)
    f2 = num(e3)(lambda x: 2 * x)
    h2 = num(e3)(lambda x, u: 2 * u)

    def cg(rule):
        return lambda: optimizers.ConjugateGradient(beta_rule=rule, max_iterations=2, verbosity=0).run(problem())

    def nm(n):
        return lambda: optimizers.NelderMead(max_iterations=1, verbosity=0).run(problem(s3), initial_point=[s3.random_point() for _ in range(n)])

    def pso(v):
        return lambda: optimizers.ParticleSwarm(max_iterations=1, population_size=4, verbosity=0).run(problem(s3), initial_point=v)

    def tangents(n, k, op):
        def f():
            a, b = (M.Product([M.Euclidean(2)] * j) for j in (n, k))
            u, v = a.random_tangent_vector(a.random_point()), b.random_tangent_vector(b.random_point())
            return u + v if op == "+" else u - v
        return f

    def star_kw(*x, **k):
        return 0.0

    def kwonly(x, *, y=1):
        return 0.0

    def kw(x, **k):
        return 0.0

    def mixed(x, *y):
        return 0.0

    def default(x, y=1.0):
        return 0.0

    class NoOp(Manifold):
        pass

    def setattr_(name):
        def f():
            p = problem()
            setattr(p, name, e3 if name == "manifold" else g)
        return f
    return {
        "decorate_positional": lambda: num(e3)(lambda x: 0.0), "decorate_varargs": lambda: num(e3)(lambda *x: 0.0), "decorate_default": lambda: num(e3)(default),
        "decorate_not_a_manifold": lambda: num(3), "decorate_manifold_class": lambda: num(M.Sphere), "decorate_no_argument": lambda: num(e3)(lambda: 0.0),
        "decorate_mixed": lambda: num(e3)(mixed), "decorate_keyword_only": lambda: num(e3)(kwonly), "decorate_kwargs": lambda: num(e3)(kw),
        "decorate_star_and_kwargs": lambda: num(e3)(star_kw),
        "function_not_callable": lambda: pymanopt.autodiff.Function(function=3.0, manifold=e3, backend=pymanopt.autodiff.backends._numpy.NumPyBackend()),
        "backend_missing": lambda: pymanopt.function.pytorch(e3)(lambda x: x),
        "numpy_gradient": lambda: num(e3)(lambda x: 0.0).get_gradient_operator()(np.ones(3)), "numpy_hessian": lambda: num(e3)(lambda x: 0.0).get_hessian_operator()(np.ones(3), np.ones(3)),
        "numpy_no_gradient_sd": lambda: optimizers.SteepestDescent(verbosity=0).run(problem(euclidean_gradient=None)),
        "product_nested": lambda: M.Product([M.Product([e3, s3]), e3]), "product_nested_last": lambda: M.Product([e3, s3, M.Product([e3])]), "product_plain": lambda: use(M.Product([e3, s3])),
        "subspace_vector": lambda: M.SphereSubspaceIntersection(np.ones(3)), "subspace_tensor": lambda: M.SphereSubspaceIntersection(np.ones((3, 2, 2))),
        "subspace_wide": lambda: M.SphereSubspaceIntersection(np.random.randn(2, 3)), "complement_vector": lambda: M.SphereSubspaceComplementIntersection(np.ones(3)),
        "complement_wide": lambda: M.SphereSubspaceComplementIntersection(np.random.randn(2, 3)),
        "subspace_tall": lambda: use(M.SphereSubspaceIntersection(np.random.randn(4, 2))), "complement_tall": lambda: use(M.SphereSubspaceComplementIntersection(np.random.randn(4, 2))),
        "manifold_float_dimension": lambda: Plane(2.0), "manifold_negative_dimension": lambda: Plane(-1), "manifold_layout_zero": lambda: Plane(2, 0),
        "manifold_layout_negative": lambda: Plane(2, -1), "manifold_layout_part_zero": lambda: Plane(2, (1, 0)), "manifold_layout_string": lambda: Plane(2, "1"),
        "manifold_layout_float": lambda: Plane(2, 1.0), "manifold_good": lambda: Plane(2, 1), "manifold_layout_tuple": lambda: Plane(2, (1, 2)), "manifold_abstract": lambda: NoOp("x", 1),
        "cg_FletcherReeves": cg("FletcherReeves"), "cg_PolakRibiere": cg("PolakRibiere"), "cg_HestenesStiefel": cg("HestenesStiefel"), "cg_HagerZhang": cg("HagerZhang"),
        "cg_LiuStorey": cg("LiuStorey"), "cg_unknown": cg("Unknown"), "cg_lowercase": cg("fletcherreeves"), "cg_empty": cg(""),
        "nm_dim_points": nm(2), "nm_dim_plus_1": nm(3), "nm_dim_plus_2": nm(4), "nm_one": nm(1),
        "pso_population_number": pso(3.0), "pso_population_list": pso([s3.random_point() for _ in range(3)]),
        "tangent_add_longer": tangents(2, 3, "+"), "tangent_sub_shorter": tangents(3, 2, "-"), "tangent_add_same": tangents(2, 2, "+"),
        "qr_vector": lambda: multi.multiqr(np.ones(3)), "qr_4d": lambda: multi.multiqr(np.ones((2, 2, 3, 3))), "qr_matrix": lambda: multi.multiqr(np.eye(3)), "qr_stack": lambda: multi.multiqr(np.ones((2, 3, 2))),
        "problem_plain_cost": lambda: problem(cost=lambda x: 0.0), "problem_both_gradients": lambda: problem(riemannian_gradient=f2),
        "problem_both_hessians": lambda: problem(euclidean_hessian=h2, riemannian_hessian=h2), "problem_set_manifold": setattr_("manifold"),
        "problem_set_preconditioner": setattr_("preconditioner"), "problem_good": lambda: problem(euclidean_hessian=h2)}


def ask(fn):
    out = {"exc": "", "msg": "", "works": False, "ks": [], "named": False}
    try:
        fn()
        out["works"] = True
    except Exception as e:  # noqa: BLE001
        out["exc"], out["msg"] = type(e).__name__, str(e)[:200]
    return out


def run(chk):
    np.random.seed(core.SEED)
    requests = sorted((e["r"] for e in chk.model("RequestsMC").emits), key=core.dumps)
    traces = []
    with core.Capture(), np.errstate(all="ignore"):
        table = misc()
        byop = {}
        for r in requests:
            if r["kind"] == "op":
                byop.setdefault(r["c"], []).append(r)
                continue
            if r["kind"] == "misc":
                t = ask(table[r["c"]])
            else:
                t = ask(lambda: build(r))
                if not t["exc"] and all(v >= 1 for v in r["a"]):
                    # one-dimensional spheres and the like have no tangent directions to draw
                    m = build(r)
                    t["works"] = not ask(lambda: use(m) if m.dim > 0 else m.random_point())["exc"]
            traces.append(dict(t, r=r))
        for i, cfg in enumerate(mfs.configs()):
            d = cfg.d
            ks = [f["kind"] for f in d["f"]] if d["kind"] == "prod" else [d["kind"]]
            owners = [type(m).__name__ for m in (f.man for f in cfg.factors)] if d["kind"] == "prod" else [type(cfg.man).__name__]
            ops = operations(cfg, core.SEED * 1009 + i)
            for r in byop[ks[0]]:
                t = ask(ops[r["o"]])
                named = any(o in t["msg"] for o in owners) and r["o"] in t["msg"]
                traces.append(dict(t, r=dict(r, c=d["kind"]), ks=ks, named=named))
    chk.validate("RequestsTrace", [core.enc(t) for t in traces], key=lambda t, c: f"{t['r']['c']} {t['r']['a'] or ''} {t['r']['o']}: {c[0]}",
                 describe=lambda t, c: f"{t['r']}: {c[0]} ({t['exc']}: {t['msg']})")
