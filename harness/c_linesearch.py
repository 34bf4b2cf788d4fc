"""C04: line searches.

The histories enumerated by LineSearchMC (every outcome class of every trial,
two searches by one searcher) are driven through the real searchers on the
real line; further searches are made on real manifolds along real directions.
All recorded searches are validated by LineSearchTrace.
"""
import copy

import numpy as np

import core


class Searchers:
    def __init__(self):
        core.load_pymanopt()
        from pymanopt.optimizers import line_search
        self.ls = line_search

    def make(self, par):
        kw = dict(contraction_factor=par["cf"], sufficient_decrease=par["sd"],
                  max_iterations=par["maxit"], initial_step_size=par["init"])
        if par["kind"] == "bt":
            return self.ls.BackTrackingLineSearcher(optimism=par["opt"], **kw)
        return self.ls.AdaptiveLineSearcher(**kw)


def same_point(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_point(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def search(searcher, manifold, x, d, f0, df0, cost, spy=None):
    """One recorded call; cost(point, index) gives the value of a new point."""
    trials, points = [], []

    def alpha_of(p):
        if spy is not None:
            for q, v in reversed(spy):
                if p is q or same_point(p, q):
                    num = float(manifold.inner_product(x, d, v))
                    return num / float(manifold.inner_product(x, d, d))
            return 0.0 if same_point(p, x) else float("nan")
        with np.errstate(all="ignore"):
            return float((np.asarray(p) - x)[0] / d[0])

    def known(p):
        """Number of the trial that evaluated p before."""
        for k, q in enumerate(points):
            if p is q:
                return k
        if spy is not None and any(p is q for q, _ in spy):
            return None          # a new retraction, even if it ends where an earlier one did
        for k in range(len(points) - 1, -1, -1):
            if same_point(p, points[k]):
                return k
        return None

    def objective(p):
        k = known(p)
        if k is not None:
            return trials[k]["c"]
        a = alpha_of(p)
        v = float(f0) if same_point(p, x) else cost(p, len(points))
        points.append(p)
        trials.append({"a": a, "c": v})
        return np.float64(v)

    e = {"f0": float(f0), "df0": float(df0), "nd": float(manifold.norm(x, d)), "trials": trials,
         "step": float("nan"), "ret": -1, "exc": ""}
    newx = None
    x0, d0 = copy.deepcopy(x), copy.deepcopy(d)
    try:
        step, newx = searcher.search(objective, manifold, x, d, np.float64(f0), np.float64(df0))
        e["step"] = float(step)
    except Exception as ex:  # noqa: BLE001 - every exception is an observation
        e["exc"] = core.exc_name(ex)
    e["same"] = same_point(x, x0) and same_point(d, d0)
    if not e["exc"]:
        k = known(newx)
        # in a trial that does not move the returned point is also the starting point
        if newx is x or (same_point(newx, x) and not (k is not None and k == len(points) - 1 and trials[k]["a"] == 0)):
            e["ret"] = 0
        elif k is not None:
            e["ret"] = k + 1
        if k is not None and k == len(points) - 1 and e["step"] != 0:
            e["ret"] = k + 1
    return e, newx


SCALES = [(1.0, 0.0), (2.0 ** 14, 2.0 ** 30), (2.0 ** -14, 0.0), (1.0, 2.0 ** 30), (2.0 ** 30, 0.0), (2.0 ** -6, -2.0 ** 30)]


def drive_scripts(S, scripts):
    from pymanopt.manifolds import Euclidean
    manifold = Euclidean(1)
    traces = []
    for n, s in enumerate(scripts):
        s = core.dec(s)
        par = s["par"]
        searcher = S.make(par)
        # the same script under another unit of length and a large constant added to the cost: both exact in binary
        sigma, base = SCALES[n % len(SCALES)]
        h = []
        for k, r in enumerate(s["h"]):
            x = np.array([0.0])
            d = np.array([r["nd"] if k % 2 == 0 else -r["nd"]]) / sigma
            costs = [base + v for v in r["costs"]]
            e, _ = search(searcher, manifold, x, d, base + r["f0"], r["df0"] / sigma,
                          lambda p, i: costs[i] if i < len(costs) else np.inf)
            h.append(e)
        traces.append({"par": par, "h": h, "m": "line", "exact": True})
    return traces


def random_cost(rng, manifold, kind):
    """A smooth, a kinked and a partly undefined cost on a manifold of arrays."""
    w = {}

    def flat(p):
        return np.concatenate([np.real(np.ravel(a)) for a in p]) if isinstance(p, (list, tuple)) else np.real(np.ravel(p))

    def f(p):
        z = flat(p)
        if "b" not in w:
            w["b"] = rng.normal(size=z.size)
            w["c"] = rng.normal(size=z.size)
        v = float(w["b"] @ z + 0.5 * (w["c"] @ z) ** 2)
        if kind == "kink":
            v = abs(v) ** 0.5 * np.sign(v) + 3 * abs(z[0])
        if kind == "hole" and np.sin(40 * z[0]) > 0:
            v = float("nan")
        return v
    return f


def drive_manifolds(S, rng, count):
    from pymanopt.manifolds import (Grassmann, PoincareBall, Positive, Product, SpecialOrthogonalGroup, Sphere,
                                    Stiefel, SymmetricPositiveDefinite)
    ms = [Sphere(4), Stiefel(4, 2), SymmetricPositiveDefinite(3), Positive(2, 3), PoincareBall(3), Grassmann(5, 2),
          SpecialOrthogonalGroup(3), Product([Sphere(3), Stiefel(3, 1)]), Product([Positive(1, 2), Sphere(2)])]
    traces = []
    for n in range(count):
        m = ms[n % len(ms)]
        kind = ["smooth", "kink", "hole"][rng.randint(3)]
        np.random.seed(rng.randint(2 ** 31))
        par = {"kind": "bt" if rng.randint(2) else "ad", "cf": float(rng.uniform(0.1, 0.9)), "opt": float(rng.uniform(0.5, 3)),
               "sd": float(10 ** rng.uniform(-4, -0.1)), "maxit": int(rng.randint(0, 12)), "init": float(10 ** rng.uniform(-2, 1))}
        if n % 3 == 0:    # the documented default values
            par = ({"kind": "bt", "cf": 0.5, "opt": 2.0, "sd": 1e-4, "maxit": 25, "init": 1.0} if par["kind"] == "bt" else
                   {"kind": "ad", "cf": 0.5, "opt": 0.0, "sd": 0.5, "maxit": 10, "init": 1.0})
            searcher = S.ls.BackTrackingLineSearcher() if par["kind"] == "bt" else S.ls.AdaptiveLineSearcher()
        else:
            searcher = S.make(par)
        spy = []
        orig = m.retraction

        def retraction(p, v):
            q = orig(p, v)
            spy.append((q, v))
            return q
        m.retraction = retraction
        h = []
        try:
            x = m.random_point()
            f = random_cost(rng, m, kind)
            f0 = f(x)
            tries = 0
            while np.isnan(f0) and tries < 50:
                x = m.random_point()
                f0 = f(x)
                tries += 1
            if np.isnan(f0):
                continue
            for _ in range(4):
                d = m.random_tangent_vector(x) * float(10 ** rng.uniform(-2, 1) if rng.randint(3) else 10 ** rng.uniform(-7, -2))
                spy.clear()
                df0 = -float(10 ** rng.uniform(-3, 1))
                e, newx = search(searcher, m, x, d, f0, df0, lambda p, i: f(p), spy)
                h.append(e)
                if e["exc"] or e["ret"] < 0:
                    break
                if rng.randint(3):
                    x = newx
                    f0 = e["trials"][e["ret"] - 1]["c"] if e["ret"] > 0 else f0
                    if np.isnan(f0) or (isinstance(m, PoincareBall) and np.linalg.norm(x) > 1 - 1e-6):
                        break         # as good as on the boundary, where lengths overflow
        finally:
            del m.retraction
        traces.append({"par": par, "h": h, "m": str(m), "exact": False})
    return traces


def describe(t, c):
    return f"search {c[1]} on {t['m']} of a {t['par']['kind']} searcher: {c}"


def sample(count):
    """Searches on real manifolds (used by C26)."""
    with core.Capture(), np.errstate(all="ignore"):
        return drive_manifolds(Searchers(), np.random.RandomState(core.SEED), count)


def run(chk):
    S = Searchers()
    rng = np.random.RandomState(core.SEED)
    if core.THOROUGH:
        mc = chk.model("LineSearchMC", "LineSearchMC3")
    else:
        mc = chk.model("LineSearchMC")
    with core.Capture(), np.errstate(all="ignore"):
        traces = drive_scripts(S, mc.emits)
        n = len(traces)
        traces += drive_manifolds(S, rng, 3000 if core.THOROUGH else 300)
    chk.validate("LineSearchTrace", traces, key=lambda t, c: f"{t['par']['kind']}:{c[0]}",
                 describe=describe)
    chk.extra["searches"] = sum(len(t["h"]) for t in traces)
    chk.extra["model_scripts_driven"] = n
    chk.assumptions += ["costs at the starting point are finite", "search directions are tangent vectors with a non-positive directional derivative"]
