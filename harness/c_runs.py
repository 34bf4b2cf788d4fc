"""C10: sequences of runs of the same and of equal optimizer objects."""
import random

import numpy as np

import core
import manifolds as mfs
import optim
from optim import mf, po, line_search

KINDS = {"sd": po.SteepestDescent, "cg": po.ConjugateGradient, "tr": po.TrustRegions, "nm": po.NelderMead, "pso": po.ParticleSwarm}


class Problems:
    """Two problems of different dimension, the same for every sequence."""

    def __init__(self, names, seed):
        byname = {c.name: c for c in mfs.configs()}
        self.p = {}
        for i, (k, n) in enumerate(sorted(names.items())):
            np.random.seed(seed + i)
            cfg = byname[n]
            env = optim.smooth_env(cfg, seed + i, hess=True)
            x = cfg.man.random_point()
            many = [x] + [cfg.man.retraction(x, 0.3 * cfg.man.random_tangent_vector(x)) for _ in range(int(cfg.man.dim))]
            self.p[k] = (cfg, env, x, many, cfg.man.random_tangent_vector(x))

    def probe(self, k):
        cfg, env, x, _, u = self.p[k]
        P = env.problem
        return [float(P.cost(x))] + floats(P.euclidean_gradient(x)) + floats(P.riemannian_gradient(x)) + (
            floats(P.riemannian_hessian(x, u)) if cfg.caps["hess"] else []) + floats(P.preconditioner(x, u))


def floats(v):
    out = []
    for a in mfs.list_of(v):
        a = np.asarray(a).ravel()
        out += [float(t) for t in a.real] + ([float(t) for t in a.imag] if np.iscomplexobj(a) else [])
    return out


class Shared:
    """A line searcher whose copies are itself."""

    def __init__(self, inner):
        self.inner = inner

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def search(self, *a, **k):
        return self.inner.search(*a, **k)


def make(kind, ls, opts):
    kw = dict(verbosity=0, log_verbosity=1, **opts)
    if kind in ("sd", "cg"):
        kw["line_searcher"] = ls
    return KINDS[kind](**kw)


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith("_") and isinstance(v, (int, float, str, bool, type(None))) and k != "line_searcher"}


def some(v, n=40):
    return v if len(v) <= 2 * n else v[:n] + v[-n:]


def outcome(r, seen):
    nums = some(seen) + floats(r.point) + [float(r.cost)] + ([] if r.gradient_norm is None else [float(r.gradient_norm)])
    if r.log and r.log["iterations"]:
        for k in ("iteration", "cost", "gradient_norm"):
            nums += some([float(v) for v in r.log["iterations"].get(k, [])])
        for p in r.log["iterations"].get("point", [])[:5]:
            nums += floats(p)
        nums += [float(v) for k, v in sorted((r.log.get("stopping_criteria") or {}).items())]
    return {"iters": int(r.iterations), "evals": -1 if r.cost_evaluations is None else int(r.cost_evaluations), "why": optim.reason(r.stopping_criterion), "nums": nums}


def execute(o, kind, probs, req, reuse):
    cfg, env, x, many, _ = probs.p[req["prob"]]
    np.random.seed(100 + req["seed"])
    start = None
    if req["start"] == "given":
        start = optim.copy_of(many if kind in ("nm", "pso") else x)
    before = optim.copy_of(start)
    seen = []

    def once(what, p):
        env.watch = None
        if what == "grad" or kind in ("nm", "pso"):
            seen.append(float(env.problem.cost(p)))
        env.watch = once
    env.watch = once
    kw = {"reuse_line_searcher": True} if reuse else {}
    try:
        r = o.run(env.problem, initial_point=start, **kw)
    finally:
        env.watch = None
    same = start is None or (mfs.same_bits(mfs.list_of(start), mfs.list_of(before)) and type(start) is type(before) and
                             (not isinstance(start, list) or len(start) == len(before)))
    return r, seen, same


def ls_probe(ls):
    """What the caller's line searcher would do next."""
    import copy
    s = copy.deepcopy(ls)
    E = mf.Euclidean(2)
    out = []
    for f0 in (5.0, 4.0):
        a, y = s.search(lambda p: float(p @ p), E, np.array([1.0, 2.0]), np.array([-2.0, -4.0]), f0, -20.0)
        out += [float(a)] + floats(y)
    return out


def sequences(scripts, names, opts, searchers, seed, count, rng):
    probs = Problems(names, seed)
    pick = scripts if count >= len(scripts) else rng.sample(scripts, count)
    fresh = {}
    out = []
    for s in pick:
        kind = s["kind"]
        sname = rng.choice(sorted(searchers))
        ls = searchers[sname]()
        objs = {1: make(kind, ls, opts.get(kind, {})), 2: make(kind, ls, opts.get(kind, {}))}
        recs, late = [], []
        for h in s["h"]:
            k = core.dumps([kind, sname, h["chain"], h["req"], h["reuse"]])
            rec = {"obj": h["obj"], "req": h["req"], "reuse": h["reuse"], "chain": h["chain"], "out": {}, "fresh": {}, "late": {}, "point": True, "problem": True,
                   "searcher": True, "settings": True, "exc": ""}
            recs.append(rec)
            try:
                if k not in fresh:
                    # a fresh object for every run; the searcher of the chain is handed from one to the next
                    inner = searchers[sname]()
                    for q in h["chain"] + [h["req"]]:
                        r, seen, _ = execute(make(kind, Shared(inner), opts.get(kind, {})), kind, probs, q, False)
                    fresh[k] = outcome(r, seen)
                rec["fresh"] = fresh[k]
                o = objs[h["obj"]]
                pb, lb, sb = probs.probe(h["req"]["prob"]), ls_probe(ls), public(o)
                r, seen, rec["point"] = execute(o, kind, probs, h["req"], h["reuse"])
                rec["out"] = outcome(r, seen)
                late.append((rec, r, list(seen)))
                rec["problem"] = pb == probs.probe(h["req"]["prob"])
                rec["searcher"] = lb == ls_probe(ls)
                rec["settings"] = sb == public(o)
            except Exception as e:  # noqa: BLE001
                rec["exc"] = core.exc_name(e)
        for rec, r, seen in late:
            rec["late"] = outcome(r, seen)
        out.append({"kind": kind, "name": sname if kind in ("sd", "cg") else "", "runs": recs})
    return out


def defaults(kind, dims, start):
    """Two runs on problems of different dimension with all limits left to their defaults, the first cut short by the clock."""
    out = []

    def env_of(n, clock):
        man = mf.Euclidean(n)
        a = np.linspace(1.0, 2.0, n)
        return optim.Env(man, optim.EUC(n), lambda x: float(a @ (x * x)) / n)

    def go(o, n, cut, seen):
        clock = optim.Clock()
        env = env_of(n, clock)
        np.random.seed(5)
        pts = None
        if start:
            x = np.ones(n)
            pts = [x] + [x + 0.1 * np.eye(n)[i] for i in range(n)] if kind == "nm" else [np.ones(n), 2.0 * np.ones(n), np.random.randn(n)]

        def watch(what, p):
            env.watch = None
            seen.append(float(env.problem.cost(p)))
            env.watch = watch
            if cut and len(seen) > (n + 1 if kind == "nm" else 2):
                clock.now += 5000.0
        env.watch = watch
        with clock:
            return o.run(env.problem, initial_point=pts)
    runs = []
    objs = {1: KINDS[kind](verbosity=0), 2: KINDS[kind](verbosity=0)}
    for n, cut in dims:
        req = {"prob": str(n) + ("cut" if cut else ""), "start": "given" if start else "none", "seed": 5}
        rec = {"obj": 1, "req": req, "reuse": False, "chain": [], "out": {}, "fresh": {}, "late": {}, "point": True, "problem": True, "searcher": True, "settings": True, "exc": ""}
        try:
            s1, s2 = [], []
            rec["fresh"] = outcome(go(KINDS[kind](verbosity=0), n, cut, s1), s1)
            rec["out"] = rec["late"] = outcome(go(objs[1], n, cut, s2), s2)
        except Exception as e:  # noqa: BLE001
            rec["exc"] = core.exc_name(e)
        runs.append(rec)
    out.append({"kind": kind, "name": "default limits", "runs": runs})
    return out


def run(chk):
    rng = random.Random(core.SEED * 7 + 10)
    th = core.THOROUGH
    emits = chk.model("RunsMC").emits
    by = {}
    for s in sorted(emits, key=core.dumps):
        by.setdefault(s["kind"], []).append(s)
    searchers = {"backtracking": lambda: line_search.BackTrackingLineSearcher(), "adaptive": lambda: line_search.AdaptiveLineSearcher(),
                 "short": lambda: line_search.BackTrackingLineSearcher(max_iterations=2, initial_step_size=8.0)}
    opts = {"sd": dict(max_iterations=7), "cg": dict(max_iterations=7, beta_rule="PolakRibiere"), "tr": dict(max_iterations=4, use_rand=True),
            "nm": dict(max_iterations=5), "pso": dict(max_iterations=4)}
    traces = []
    with core.Capture(), np.errstate(all="ignore"):
        for kind, n in (("sd", 200), ("cg", 200), ("tr", 80), ("nm", 30), ("pso", 60)):
            names = [{"A": "Euclidean(3,)", "B": "Product[Sphere(3,), Euclidean(2, 3)]"}, {"A": "Sphere(3,)", "B": "SO(3,1,qr)"}]
            if kind in ("nm", "pso"):
                names[1]["B"] = "Symmetric(2,3)"      # the logarithm on SO is slow
            if kind != "nm":
                names.append({"A": "Grassmann(5,2,1)", "B": "SymmetricPositiveDefinite(2,3)"})
            for i, nm in enumerate(names):
                traces += sequences(by[kind], nm, opts, searchers, 40 + i, (n // len(names)) * (10 if th else 1), rng)
        # the limits that depend on the dimension, and the size of the swarm
        traces += defaults("pso", [(1, True), (6, True), (2, True)], False)
        traces += defaults("pso", [(2600, True), (2, False), (200, True)], True)
        traces += defaults("pso", [(2, True), (2600, False)], False)
        traces += defaults("nm", [(600, True), (1, False)], True)
    chk.validate("RunsTrace", traces, key=lambda t, c: f"{t['kind']}:{c[0]}",
                 describe=lambda t, c: f"{t['kind']} {t['name']} {[(r['obj'], r['req']['prob'], r['req']['start'], r['reuse']) for r in t['runs']]}: {c}")
