"""C01-C03, C05-C09: the optimizers.

Design models enumerate what an environment can do to each optimizer (StopMC,
DirectionMC, AdversaryMC, TrustMC, SimplexMC, SwarmMC); every behaviour they
print is driven through the real optimizer, further runs are made on real
problems over many manifolds, and all recorded runs are judged by the trace
specifications.
"""
import copy
import random

import numpy as np

import core
import manifolds as mfs
import optim
from optim import mf, line_search


# ------------------------------------------------------------------ descent methods
def to_defaults(lim, h):
    """The same script around the default limits: 1/2 becomes 1e-6, 1/4 becomes 1e-10, 4 seconds 1000."""
    t = 250.0 if lim["time"] == 4 else 1.0
    h = [dict(e, g=e["g"] * 2e-6, s=e["s"] * 4e-10, dt=e["dt"] * t, ds=e["ds"] * t) for e in h]
    return optim.default_limits(lim, ["time", "grad", "step"] if "step" in lim and lim["step"] else ["time", "grad"]), h


def endless(opt):
    """Nothing but the default iteration limit ends this run."""
    pts = [np.array([float(k), 0.25 * k]) for k in range(1010)]
    index = {optim.pkey(p): k for k, p in enumerate(pts)}
    lim = optim.default_limits(optim.limits(), ["time", "iters", "grad", "step"])
    if opt == "tr":
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), lambda x: -float(x[0]), egrad=lambda x: np.array([-1.0, 0.0]), ehess=lambda x, u: 0.0 * u)
        del lim["omit"][3]
        return optim.run_trust(env, lim, np.zeros(2), par=dict(D0=1.0, Dbar=1.0), exact=True, name="default limits", basis_of=unit_basis(2))
    env = optim.Env(mf.Euclidean(2), optim.EUC(2), lambda x: -float(index[optim.pkey(x)]), egrad=lambda x: np.array([1.0, 0.0]))
    return optim.run_descent(opt, env, optim.Scripted(pts, [1.0] * 1010), lim, pts[0].copy(), shipped=False, exact=True, name="default limits",
                             rule="FletcherReeves", logon=False)


def stop_scripts(scripts):
    """StopMC scripts for the two line-search methods, every third one scaled to the default limits."""
    out = []
    for s in scripts:
        s = core.dec(s)
        if s["opt"] not in ("sd", "cg"):
            continue
        h = s["h"]
        lim = s["lim"]
        lim = optim.limits(lim["time"], lim["iters"], lim["grad"], lim["step"])
        if len(out) % 3 == 1:
            lim, h = to_defaults(lim, h)
        pts = [np.array([float(k), 0.25 * k]) for k in range(len(h) + 2)]
        index = {optim.pkey(p): k for k, p in enumerate(pts)}
        clock = optim.Clock()
        seen = set()

        def gradient(x):
            k = index[optim.pkey(x)]
            if k not in seen:
                seen.add(k)
                if k < len(h):
                    clock.now += h[k]["dt"]
            return np.array([h[k]["g"] if k < len(h) else 1.0, 0.0])
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), lambda x: -float(index[optim.pkey(x)]), egrad=gradient)

        def after(k):
            clock.now += h[k]["ds"] if k < len(h) else 0
        t = optim.run_descent(s["opt"], env, optim.Scripted(pts, [e["s"] for e in h]), lim, pts[0].copy(), shipped=False, exact=True,
                              after=after, clock=clock, name="scripted limits", rule="FletcherReeves", logon=len(out) % 2 == 0)
        out.append(t)
    return out


def direction_scripts(scripts):
    out = []
    for s in scripts:
        s = core.dec(s)
        h = s["h"]
        pts = [np.array([float(k), 0.5 * k]) for k in range(len(h) + 1)]
        index = {optim.pkey(p): k for k, p in enumerate(pts)}

        def gradient(x):
            k = index[optim.pkey(x)]
            return np.array(h[min(k, len(h) - 1)]["g"])
        pre = None if s["pre"] == "id" else (lambda x, u: np.array([1.0, 4.0]) * u)
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), lambda x: -float(index[optim.pkey(x)]), egrad=gradient, precond=pre)
        out.append(optim.run_descent("cg", env, optim.Scripted(pts, [1.0] * len(h)), optim.limits(iters=len(h) + 1, grad=0.0), pts[0].copy(),
                                     rule=s["rule"], orth=s["orth"], shipped=False, exact=True, logon=False, name="scripted gradients"))
    return out


def adversary_scripts(scripts, rng, count):
    keys = sorted(scripts, key=core.dumps)
    if count < len(keys):
        keys = rng.sample(keys, count)
    out = []
    for s in keys:
        s = core.dec(s)
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), by_order([0.0], s["seq"] + [s["seq"][0]]),
                        egrad=lambda x: np.array([2.0 + np.sin(x[0]), np.cos(3.0 * x[1])]))
        kw = dict(max_iterations=s["maxit"])
        ls = line_search.BackTrackingLineSearcher(**kw) if s["kind"] == "bt" else line_search.AdaptiveLineSearcher(**kw)
        out.append(optim.run_descent(s["opt"], env, ls, optim.limits(iters=len(s["seq"]) + 1, step=rng.choice([0.0, 1e-10])), np.array([0.25, -0.5]),
                                     rule=rng.choice(RULES), logon=True, name="scripted costs"))
    return out


RULES = ["FletcherReeves", "PolakRibiere", "HestenesStiefel", "HagerZhang", "LiuStorey"]
REAL = ["Euclidean(3,)", "ComplexEuclidean(2, 2)", "Sphere(3,)", "Stiefel(4,2,1,qr)", "Stiefel(3,2,2,polar)", "Grassmann(5,2,1)", "Grassmann(4,2,3)",
        "SO(3,1,qr)", "U(2,2,polar)", "SymmetricPositiveDefinite(3,1)", "SymmetricPositiveDefinite(2,3)", "Positive(2,3,1,True)", "Oblique(3,2)",
        "Symmetric(2,3)", "SkewSymmetric(3,1)", "ComplexCircle(3)", "Elliptope(4,2)", "PSDFixedRank(4,2)", "FixedRankEmbedded(5,4,2)",
        "SphereSubspaceIntersection", "ComplexGrassmann(5,2,1)", "HermitianPositiveDefinite(2,1)", "PSDFixedRankComplex(4,2)",
        "Product[Sphere(3,), Euclidean(2, 3)]", "Product[Stiefel(3,2,2,qr), PoincareBall(3,1), Sphere(3,)]", "Product[FixedRankEmbedded(5,4,2), Euclidean(3,)]",
        "Product[SO(3,1,qr), SO(3,1,qr)]", "PoincareBall(3,1)", "SpecialHermitianPositiveDefinite(3,1)"]


def searcher(kind, rng):
    if kind == "bt":
        return line_search.BackTrackingLineSearcher() if rng.random() < 0.5 else line_search.BackTrackingLineSearcher(
            contraction_factor=rng.uniform(0.2, 0.8), optimism=rng.uniform(1, 3), max_iterations=rng.randint(1, 20), initial_step_size=10 ** rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-5, -1)]))
    return line_search.AdaptiveLineSearcher() if rng.random() < 0.5 else line_search.AdaptiveLineSearcher(
        contraction_factor=rng.uniform(0.2, 0.8), sufficient_decrease=rng.uniform(0.01, 0.6), max_iterations=rng.randint(1, 12), initial_step_size=10 ** rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-5, -1)]))


# manifolds whose transports are no projections
CURVED = ["SymmetricPositiveDefinite(3,1)", "Positive(2,3,1,True)", "SpecialHermitianPositiveDefinite(3,1)", "HermitianPositiveDefinite(2,1)", "SymmetricPositiveDefinite(2,3)",
          "PSDFixedRank(4,2)"]


def real_descents(pid, rng, count, short=False):
    byname = {c.name: c for c in mfs.configs()}
    out = []
    names = CURVED if short else REAL
    for n in range(count):
        cfg = byname[names[n % len(names)]]
        opt = "cg" if short else "cg" if cfg.caps["transp"] and (pid == "C07" or n // len(REAL) % 2 == 0) else "sd"
        seed = rng.randrange(1 << 30)
        np.random.seed(seed)
        env = optim.smooth_env(cfg, seed, precond=rng.random() < 0.3)
        x0 = cfg.man.random_point()
        clock = optim.Clock()
        dts = [rng.choice([0.0, 0.0, 1.0, 7.0]) for _ in range(40)]

        def after(k):
            clock.now += dts[k % 40]
        lim = optim.limits(rng.choice([1000.0, 1000.0, 9.0]), rng.choice([1, 2, 5, 6]), rng.choice([1e-6, 0.3, 0.0]), rng.choice([1e-10, 1e-10, 1e-2, 0.0, 0.3, 20.0]))
        try:
            rule = RULES[n // len(CURVED) % 5] if short else rng.choice(RULES)
            if short:
                ls = rng.choice([line_search.BackTrackingLineSearcher, line_search.AdaptiveLineSearcher])(initial_step_size=10 ** rng.uniform(-5, -2))
                lim = optim.limits(iters=4, grad=0.0)
            else:
                ls = searcher(rng.choice(["bt", "ad"]), rng)
            t = optim.run_descent(opt, env, ls, lim, x0, rule=rule, orth=rng.choice([np.inf, np.inf, 0.5, 0.1, 1.0]),
                                  logon=rng.random() < 0.7, after=after, clock=clock, name=cfg.name)
        except np.linalg.LinAlgError:
            continue
        out.append(t)
    return out


# ------------------------------------------------------------------ trust regions
def unit_basis(n):
    return lambda x: [np.eye(n)[i] for i in range(n)]


def trust_stops(scripts):
    """StopMC scripts for trust regions: every step is accepted, gradients and times as scripted."""
    out = []
    for s in scripts:
        s = core.dec(s)
        if s["opt"] != "tr":
            continue
        h = s["h"]
        lim = s["lim"]
        lim = optim.limits(lim["time"], lim["iters"], lim["grad"], 0.0)
        if len(out) % 3 == 1:
            lim, h = to_defaults(lim, h)
        order = {}
        clock = optim.Clock()

        def idx(x):
            k = optim.pkey(x)
            if k not in order:
                n = order[k] = len(order)
                if 0 < n <= len(h):
                    clock.now += h[n - 1]["dt"]
            return order[k]
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), lambda x: -1e3 * idx(x),
                        egrad=lambda x: np.array([1.0 if idx(x) == 0 else h[min(idx(x), len(h)) - 1]["g"], 0.0]), ehess=lambda x, u: 0.0 * u)
        out.append(optim.run_trust(env, lim, np.zeros(2), par=dict(D0=1.0, Dbar=1.0), clock=clock, exact=True,
                                   name="scripted limits", basis_of=unit_basis(2)))
    return out


def trust_radius(scripts):
    """TrustMC radius scripts: the Hessian and the cost of each proposal are chosen as scripted."""
    out = []
    for s in scripts:
        s = core.dec(s)
        h = s["h"]
        n = len(h)
        g = np.array([1.0, 0.0])
        # one more iteration shows the final radius
        H = [np.array(e["H"]) for e in h] + [np.array([[-1.0, 0.0], [0.0, 1.0]])]
        at = {}
        cur = {"k": 0, "x": np.zeros(2)}

        def cost(x):
            key = optim.pkey(x)
            if env.watch and at:
                cur["k"] = min(cur["k"] + 1, n)
            if key not in at:
                i = cur["k"] - 1
                if not at:
                    at[key] = s["par"]["base"]
                else:
                    eta = x - cur["x"]
                    red = -(g @ eta + 0.5 * eta @ H[i] @ eta)
                    base = at[optim.pkey(cur["x"])]
                    reg = max(1.0, abs(base)) * 2.0 ** -52 * s["par"]["reg"]
                    at[key] = base + reg - h[i]["rho"] * (red + reg)
            return at[key]

        def gradient(x):
            cur["x"] = x.copy()
            return g.copy()
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), cost, egrad=gradient, ehess=lambda x, u: H[cur["k"]] @ u, memoize=False)

        def phase(i):
            cur["k"] = min(i, n)
        t = optim.run_trust(env, optim.limits(iters=n + 1, grad=0.0), np.zeros(2), par=s["par"], exact=True, name="scripted ratios",
                            basis_of=unit_basis(2), phase=phase)
        # few binary digits: all arithmetic was exact
        t["dyadic"] = all(not np.isfinite(v) or (v * 2.0 ** 24).is_integer() for e in t["E"] for v in [e["f"], e["fp"]] + e["eta"]) and s["par"]["Dbar"] != 0.75
        out.append(t)
    return out


def trust_subs(scripts, rng, count=None):
    """TrustMC subproblem scripts: one iteration on a quadratic cost."""
    uniq = {}
    for s in scripts:
        uniq.setdefault(core.dumps([s["par"], s["sub"]]), s)
    todo = [uniq[k] for k in sorted(uniq)]
    if count and count < len(todo):
        todo = rng.sample(todo, count)
    out = []
    for s in todo:
        s = core.dec(s)
        Q = s["sub"]
        g, H = np.array(Q["g"]), np.array(Q["H"])
        pre = None if not Q["P"] else (lambda x, u, P=np.array(Q["P"]): P @ u)
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(3), optim.EUC(3), lambda x: g @ x + 0.5 * x @ H @ x, egrad=lambda x: g + H @ x, ehess=lambda x, u: H @ u, precond=pre)
        out.append(optim.run_trust(env, optim.limits(iters=1, grad=0.0), np.zeros(3), par=s["par"], exact=True, name="subproblem", basis_of=unit_basis(3)))
    return out


HESS = ["Euclidean(3,)", "ComplexEuclidean(2, 2)", "Sphere(3,)", "Stiefel(4,2,1,qr)", "Stiefel(3,2,2,polar)", "Grassmann(5,2,1)", "SO(3,1,qr)", "U(2,2,polar)",
        "SymmetricPositiveDefinite(3,1)", "Positive(2,3,1,True)", "Oblique(3,2)", "Symmetric(2,3)", "SkewSymmetric(3,1)", "ComplexCircle(3)", "Elliptope(4,2)",
        "PSDFixedRank(4,2)", "SphereSubspaceIntersection", "ComplexGrassmann(5,2,1)", "HermitianPositiveDefinite(2,1)", "PSDFixedRankComplex(4,2)",
        "Product[Sphere(3,), Euclidean(2, 3)]", "Product[Stiefel(3,2,2,qr), PoincareBall(3,1), Sphere(3,)]", "Product[SO(3,1,qr), SO(3,1,qr)]", "PoincareBall(3,1)"]


class NoScale(mf.Euclidean):
    """A user's manifold without a typical distance."""

    @property
    def typical_dist(self):
        raise NotImplementedError


def real_trust(rng, count):
    byname = {c.name: c for c in mfs.configs()}
    out = []
    for n in range(count):
        cfg = byname[HESS[n % len(HESS)]]
        seed = rng.randrange(1 << 30)
        np.random.seed(seed)
        rand = rng.random() < 0.3
        if n == 7:
            cfg = copy.copy(cfg)
            cfg.name, cfg.man, cfg.d = "manifold without typical_dist", NoScale(5), optim.EUC(5)
        env = optim.smooth_env(cfg, seed, hess=True, precond=not rand and rng.random() < 0.4, tame_it=rng.random() < 0.5)
        x0 = cfg.man.random_point()
        clock = optim.Clock()
        D = 10 ** rng.uniform(-2, 1)
        par = dict(rand=rand, kappa=rng.choice([0.1, 0.5, 0.01]), theta=rng.choice([1.0, 0.5, 0.0]), rhop=rng.choice([0.1, 0.2, 0.0, 0.05]), reg=rng.choice([1e3, 0.0, 1e3]),
                   mininner=rng.choice([1, 0, 2, 5]), maxinner=rng.choice([-1, -1, 1, 2, 30]), Dbar=rng.choice(["null", "null", D]) if n != 7 else "null")
        if rng.random() < 0.4 and n != 7:
            par["D0"] = (D if par["Dbar"] != "null" else 1.0) * rng.choice([1.0, 0.5, 0.01])
        out.append(optim.run_trust(env, optim.limits(iters=rng.choice([2, 3, 5, 6]), grad=rng.choice([1e-6, 1e-2])), x0, par=par, clock=clock, name=cfg.name))
    return out


def trust_traces(chk, pid, rng):
    th = core.THOROUGH
    out = []
    if pid in ("C01", "C02"):
        out += trust_stops(chk.stop)
    if pid == "C01":
        out += [endless("tr")]
    if pid in ("C05", "C03"):
        s = chk.model("TrustMC", workers=1).emits
        if th:
            s = s + chk.model("TrustMC", "TrustFullMC", workers=1).emits + chk.model("TrustMC", "TrustDeepMC", workers=1).emits
        if pid == "C03":      # repeated bad proposals, and a sample of the rest
            bad = [a for a in s if len(a["h"]) == 7 and core.dec(a["h"])[0]["rho"] < 0]
            s = bad + rng.sample(s, 150)
        out += trust_radius(s)
    if pid == "C06":
        out += trust_subs(chk.model("TrustMC", "TrustSubMC").emits, rng, None if th else 1500)
    out += real_trust(rng, {"C05": 70, "C06": 70, "C01": 24, "C02": 48, "C03": 48}[pid] * (6 if th else 1))
    return out


# ------------------------------------------------------------------ Nelder-Mead
def triangle(rng):
    while True:
        p = [np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) for _ in range(3)]
        if abs(np.linalg.det([p[1] - p[0], p[2] - p[0]])) > 0.3:
            return p


def by_order(f0, seq, ticks=None, clock=None):
    """A cost that returns prescribed values in the order in which new points are evaluated."""
    at = {}
    vals = list(f0) + list(seq)

    def cost(x):
        k = optim.pkey(x)
        if k not in at:
            n = len(at)
            at[k] = vals[n] if n < len(vals) else vals[0] + 0.25
            if ticks and n in ticks:
                clock.now += ticks[n]
        return at[k]
    return cost


COEFS = [None, None, dict(reflection=0.75, expansion=1.5, contraction=0.25), dict(reflection=1.25, expansion=1.5, contraction=0.625),
         dict(reflection=0.5, expansion=3.0, contraction=0.875)]


def shrunk(l, rng):
    """The same order of costs, possibly with differences as small as they come."""
    s = rng.choice([1.0, 1.0, 0.5 ** 45])
    return [s * v for v in l] if all(isinstance(v, (int, float)) for v in l) else l


def wild(n, rng):
    """Costs at random around a slowly falling level: every branch, in any order, for long."""
    fall = rng.choice([0.02, 0.1, 0.3])
    return shrunk([rng.random() * rng.choice([0.5, 1.0, 2.0]) - fall * i / 4 for i in range(n)], rng)


def simplex_long(rng, count):
    out = []
    for n in range(count):
        dim = [2, 1, 3, 10][n % 4]
        np.random.seed(rng.randrange(1 << 30))
        costs = wild(400, rng)
        env = optim.Env(mf.Euclidean(dim), optim.EUC(dim), by_order([], costs))
        pts = [np.random.randn(dim)]
        pts += [pts[0] + np.eye(dim)[i] for i in range(dim)]
        iters = 24 if dim < 5 else 9
        out.append(optim.run_simplex(env, optim.limits(iters=iters, evals=rng.choice([10000, rng.randrange(dim + 10, 3 * iters + 5 * dim)])), pts, coef=rng.choice(COEFS), name="random costs", ctol=2.0))      # the mean of a tiny simplex is inexact
    return out


def swarm_long(rng, count):
    out = []
    for n in range(count):
        size = rng.choice([1, 2, 3, 5])
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(3), optim.EUC(3), by_order([], wild(200, rng)))
        kw = rng.choice([{}, dict(nostalgia=0.5, social=2.0)])
        iters = rng.choice([12, 20])
        out.append(optim.run_swarm(env, optim.limits(iters=iters, evals=rng.choice([10000, rng.randrange(size * 3, size * iters)])), [np.random.randn(3) for _ in range(size)], name="random costs", **kw))
    return out


def simplex_scripts(scripts, rng, count):
    groups = {}
    for s in scripts:
        groups.setdefault(core.dumps([s["f0"], s["br"]]), []).append(s)
    pick = []
    keys = sorted(groups)
    for k in keys:
        groups[k].sort(key=core.dumps)
    per = max(1, count // len(keys))
    for k in keys:
        pick += groups[k] if len(groups[k]) <= per else rng.sample(groups[k], per)
    out = []
    for s in pick:
        s = core.dec(s)
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), by_order([], shrunk(list(s["f0"]) + list(s["seq"]), rng)))
        coef = rng.choice(COEFS)
        # one more iteration shows the simplex that was reached
        out.append(optim.run_simplex(env, optim.limits(iters=s["n"] + 2), triangle(rng), coef=coef, name="scripted costs"))
    return out


def simplex_stops(scripts, rng):
    out = []
    for s in scripts:
        s = core.dec(s)
        if s["opt"] != "nm":
            continue
        clock = optim.Clock()
        seq, ticks, best = [], {}, 0.0
        for e in s["h"]:
            ne = int(e["ne"])
            ticks[3 + len(seq)] = e["dt"]
            if ne == 1:
                seq.append(best + 0.5 ** (len(seq) + 1))          # between the best and the second worst
            elif ne == 2:
                seq += [best - 1.0, best - 2.0]
                best -= 2.0
            else:
                seq += [best + 100.0, best + 200.0, best + 1.0, best + 2.0]
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), by_order([0.0, 1.0, 2.0], seq, ticks, clock))
        lim = s["lim"]
        out.append(optim.run_simplex(env, optim.limits(lim["time"], lim["iters"], evals=lim["evals"]), triangle(rng), clock=clock, name="scripted limits"))
    return out


MEANS = ["Euclidean(3,)", "Sphere(3,)", "SO(3,1,qr)", "U(2,2,polar)", "Oblique(3,2)", "Symmetric(2,3)", "SkewSymmetric(3,1)", "ComplexCircle(3)",
         "Product[Sphere(3,), Euclidean(2, 3)]", "Product[SO(3,1,qr), SO(3,1,qr)]", "PoincareBall(3,1)", "ComplexEuclidean(2, 2)"]


def real_simplex(rng, count, byname):
    out = []
    for n in range(count):
        cfg = byname[MEANS[n % len(MEANS)]]
        seed = rng.randrange(1 << 30)
        np.random.seed(seed)
        env = optim.smooth_env(cfg, seed)
        dim = int(cfg.man.dim)
        num = dim + 1 + (rng.choice([-1, 1, dim]) if rng.random() < 0.2 else 0)
        x = cfg.man.random_point()
        # a cluster of points, away from cut loci
        pts = [x] + [cfg.man.retraction(x, 0.3 * cfg.man.random_tangent_vector(x)) for _ in range(num - 1)]
        coef = rng.choice([None, dict(reflection=0.8, expansion=1.7, contraction=0.3)])
        out.append(optim.run_simplex(env, optim.limits(iters=rng.choice([2, 4, 7]), evals=rng.choice([dim + 4, 1000, 1000])), pts, coef=coef, name=cfg.name,
                                     ctol=0.2 if cfg.d["kind"] in ("euc", "sym", "skew") else 2.0))      # 15 iterations towards the mean may not suffice on curved manifolds
    return out


def simplex_traces(chk, pid, rng, byname):
    th = core.THOROUGH
    out = []
    if pid in ("C01", "C02"):
        out += simplex_stops(chk.stop, rng)
    if pid in ("C08", "C03", "C02"):
        s = chk.model("SimplexMC").emits
        out += simplex_scripts(s, rng, {"C08": 700, "C03": 200, "C02": 100}[pid] * (8 if th else 1))
    out += simplex_long(rng, {"C08": 32, "C01": 24}.get(pid, 12) * (6 if th else 1))
    out += real_simplex(rng, {"C08": 36}.get(pid, 12) * (6 if th else 1), byname)
    return out


# ------------------------------------------------------------------ particle swarm
def swarm_scripts(scripts, rng, count):
    uniq = {}
    for s in scripts:
        uniq.setdefault(core.dumps([s["f0"], s["cls"]]), s)
    keys = sorted(uniq)
    if count < len(keys):
        keys = rng.sample(keys, count)
    out = []
    for k in keys:
        s = core.dec(uniq[k])
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(3), optim.EUC(3), by_order([], shrunk(list(s["f0"]) + list(s["seq"]), rng)))
        kw = rng.choice([{}, {}, dict(nostalgia=0.5, social=2.0), dict(size=7)])
        pts = [np.random.randn(3) for _ in s["f0"]]
        # one more iteration shows what was remembered
        out.append(optim.run_swarm(env, optim.limits(iters=s["n"] + 2), pts, name="scripted costs", **kw))
    return out


def swarm_stops(scripts, rng):
    out = []
    for s in scripts:
        s = core.dec(s)
        if s["opt"] != "pso":
            continue
        clock = optim.Clock()
        ticks = {3 + 3 * i: e["dt"] for i, e in enumerate(s["h"])}
        np.random.seed(rng.randrange(1 << 30))
        env = optim.Env(mf.Euclidean(2), optim.EUC(2), by_order([0.0, 1.0, 2.0], [0.5 * k for k in range(200)], ticks, clock))
        lim = s["lim"]
        out.append(optim.run_swarm(env, optim.limits(lim["time"], lim["iters"], evals=lim["evals"]), [np.random.randn(2) for _ in range(3)], clock=clock,
                                   name="scripted limits"))
    return out


SWARM = ["Euclidean(3,)", "ComplexEuclidean(2, 2)", "Sphere(3,)", "Grassmann(5,2,1)", "Grassmann(4,2,3)", "SO(3,1,qr)", "U(2,2,polar)",
         "SymmetricPositiveDefinite(3,1)", "SymmetricPositiveDefinite(2,3)", "Positive(2,3,1,True)", "Oblique(3,2)", "Symmetric(2,3)", "SkewSymmetric(3,1)",
         "ComplexCircle(3)", "PSDFixedRank(4,2)", "SphereSubspaceIntersection", "ComplexGrassmann(5,2,1)", "HermitianPositiveDefinite(2,1)",
         "Product[Sphere(3,), Euclidean(2, 3)]", "Product[SO(3,1,qr), SO(3,1,qr)]", "SpecialHermitianPositiveDefinite(3,1)"]


def real_swarm(rng, count, byname):
    out = []
    for n in range(count):
        cfg = byname[SWARM[n % len(SWARM)]]
        seed = rng.randrange(1 << 30)
        np.random.seed(seed)
        env = optim.smooth_env(cfg, seed)
        dim = int(cfg.man.dim)
        num = rng.choice([1, 2, 3, 4])
        size = rng.choice([None, num, num + 1, 1])
        x = cfg.man.random_point()
        pts = [x] + [cfg.man.retraction(x, 0.4 * cfg.man.random_tangent_vector(x)) for _ in range(num - 1)]
        if rng.random() < 0.3:
            pts, size = None, (None if dim == 3 and rng.random() < 0.3 else num)
        kw = rng.choice([{}, dict(nostalgia=0.3, social=0.9), dict(nostalgia=2.0)])
        deflt = rng.random() < 0.3
        lim = optim.limits(iters=-1 if deflt else rng.choice([2, 4, 5]), evals=4 * num if deflt else rng.choice([3 * num, 1000, 1000]))
        if pts is None and size is None:
            lim = optim.limits(iters=2)
        out.append(optim.run_swarm(env, lim, pts, size=size, name=cfg.name, **kw))
    return out


def swarm_traces(chk, pid, rng, byname):
    th = core.THOROUGH
    out = []
    if pid in ("C01", "C02"):
        out += swarm_stops(chk.stop, rng)
    if pid != "C01":
        s = chk.model("SwarmMC").emits
        out += swarm_scripts(s, rng, {"C09": 500, "C03": 200, "C02": 100}[pid] * (8 if th else 1))
        if pid == "C09":
            out += swarm_scripts(chk.model("SwarmMC", "SwarmMC3").emits, rng, 200 if not th else 5000)
    out += swarm_long(rng, {"C09": 32, "C01": 24}.get(pid, 12) * (6 if th else 1))
    out += real_swarm(rng, {"C09": 84}.get(pid, 21) * (6 if th else 1), byname)
    return out


def extreme(d, x):
    """Is a point of a Poincare ball as good as on its boundary (a minimizer at infinity)?"""
    if d["kind"] == "prod":
        return any(extreme(f, y) for f, y in zip(d["f"], x))
    return d["kind"] == "pb" and bool(np.any(np.linalg.norm(np.asarray(x, dtype=float), axis=-1) > 1 - 1e-5))


def posed(t):
    pts = [e["x"] for k in ("it", "E", "log") for e in t.get(k, []) if "x" in e] + [t["res"]["x"]] if t["res"] else []
    return not any(extreme(t["m"], x) for x in pts)


def describe(t, c):
    return f"{t['opt']} {t.get('rule', '')} {t['name']}: {c}"


def key(t, c):
    return f"{t['opt']}:{c[0]}"


def descent_traces(chk, pid, rng):
    th = core.THOROUGH
    out = []
    if pid in ("C01", "C02"):
        out += stop_scripts(chk.stop)
    if pid == "C01":
        out += [endless("sd"), endless("cg")]
    if pid == "C07":
        mc = chk.model("DirectionMC", "DirectionMC4" if th else "DirectionMC")
        out += direction_scripts(mc.emits)
    if pid in ("C03", "C02"):
        out += adversary_scripts(chk.model("AdversaryMC", "AdversaryMC5" if th else "AdversaryMC").emits, rng, {"C03": 1500, "C02": 300}[pid] * (8 if th else 1))
    out += real_descents(pid, rng, {"C07": 140, "C02": 90, "C03": 60, "C01": 60}[pid] * (6 if th else 1))
    if pid == "C07":
        out += real_descents(pid, rng, 60 * (6 if th else 1), short=True)
    return out


DOES = {"C01": "dtnp", "C02": "dtnp", "C03": "dtnp", "C05": "t", "C06": "t", "C07": "d", "C08": "n", "C09": "p"}


def run(chk):
    pid = chk.pid
    rng = random.Random(core.SEED * 7 + int(pid[1:]))
    kinds = DOES[pid]
    if pid in ("C01", "C02"):
        chk.stop = chk.model("StopMC", workers=1).emits
    if pid == "C02" and not core.THOROUGH:
        chk.stop = rng.sample(chk.stop, min(2000, len(chk.stop)))
    if pid == "C01":
        chk.stop = chk.stop + chk.model("StopMC", "StopLongMC", workers=1).emits
    with core.Capture(), np.errstate(all="ignore"):
        dt = descent_traces(chk, pid, rng) if "d" in kinds else []
        tt = trust_traces(chk, pid, rng) if "t" in kinds else []
        byname = {c.name: c for c in mfs.configs()}
        nt = simplex_traces(chk, pid, rng, byname) if "n" in kinds else []
        pt = swarm_traces(chk, pid, rng, byname) if "p" in kinds else []
        dt, tt, nt, pt = ([t for t in ts if posed(t)] for ts in (dt, tt, nt, pt))
    if dt:
        chk.validate("DescentTrace", dt, key=key, describe=describe)
    if tt:
        chk.validate("TrustTrace", tt, key=key, describe=describe)
    if nt:
        chk.validate("SimplexTrace", nt, key=key, describe=describe)
    if pt:
        chk.validate("SwarmTrace", pt, key=key, describe=describe)
