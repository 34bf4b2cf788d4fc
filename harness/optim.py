"""Recorders for runs of the five optimizers: scripted and real problems, a fake clock, spies on the
line searcher and on the manifold's operations.  The traces they produce are judged by the
specifications DescentTrace, TrustTrace, SimplexTrace and SwarmTrace."""
import copy
import re
import time

import numpy as np

import core
import manifolds as mfs

import pymanopt  # noqa: E402
from pymanopt import manifolds as mf  # noqa: E402
from pymanopt import optimizers as po  # noqa: E402
from pymanopt.optimizers import line_search  # noqa: E402

EUC = lambda *sh: mfs.desc("euc", sh)  # noqa: E731
REASONS = [("time", r"max time"), ("iters", r"max iter"), ("grad", r"grad norm"), ("step", r"step.size"), ("evals", r"cost eval")]


def reason(s):
    for n, p in REASONS:
        if re.search(p, str(s)):
            return n
    return "?" + str(s)


class Clock:
    """Replaces the clocks of the time module; only the environment advances it."""
    NAMES = ("time", "monotonic", "perf_counter")

    def __init__(self):
        self.now = 1000.0

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time, n, lambda: self.now)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


def pkey(p):
    if isinstance(p, (list, tuple)):
        return tuple(pkey(v) for v in p)
    a = np.asarray(p)
    return (a.shape, (a + 0.0).tobytes())


def copy_of(p):
    return copy.deepcopy(p)


def plain(p):
    """Points and vectors as nested lists of arrays (for the trace)."""
    if isinstance(p, (list, tuple)):
        return [plain(v) for v in p]
    return np.array(p, copy=True)


# ------------------------------------------------------------------ problems
def regroup(d, args):
    """The structured point made of the flat arguments of a decorated function."""
    if d["kind"] == "prod":
        out, i = [], 0
        for f in d["f"]:
            n = 3 if f["kind"] == "fr" else 1
            out.append(tuple(args[i:i + n]) if n > 1 else args[i])
            i += n
        return out
    return tuple(args) if d["kind"] == "fr" else args[0]


def flatten(d, v):
    if d["kind"] == "prod":
        out = []
        for f, w in zip(d["f"], v):
            out.extend(w if f["kind"] == "fr" else [w])
        return out
    return list(v) if d["kind"] == "fr" else v


class Env:
    """A problem on a manifold whose cost, gradient, ... are given as functions of structured points."""

    def __init__(self, man, d, cost, egrad=None, rgrad=None, ehess=None, rhess=None, precond=None, memoize=True):
        self.man, self.d, self.pre, self.cost = man, d, precond, cost
        self.watch = self.clock = None
        memo = {}

        def cost1(*a):
            # one value per point, whatever the memory layout of its arrays
            k = pkey(a)
            self.before = self.clock.now if self.clock else 0.0
            if k not in memo or not memoize:
                memo[k] = cost(regroup(d, a))
            if self.watch:
                self.watch("cost", copy_of(regroup(d, a)))
            return memo[k]

        def seen(f):
            if f is None:
                return None

            def g(x):
                out = f(x)
                if self.watch:
                    self.watch("grad", copy_of(x))
                return out
            return g
        num = pymanopt.function.numpy(man)
        npts = sum(3 if f["kind"] == "fr" else 1 for f in d["f"]) if d["kind"] == "prod" else (3 if d["kind"] == "fr" else 1)

        def dec1(f):
            return None if f is None else num(lambda *a: flatten(d, f(regroup(d, a))))

        def dec2(f):
            return None if f is None else num(lambda *a: flatten(d, f(regroup(d, a[:npts]), regroup(d, a[npts:]))))
        self.problem = pymanopt.Problem(
            man, num(cost1), euclidean_gradient=dec1(seen(egrad)), riemannian_gradient=dec1(seen(rgrad)),
            euclidean_hessian=dec2(ehess), riemannian_hessian=dec2(rhess), preconditioner=precond)


def smooth_cost(d, c, x):
    if d["kind"] == "prod":
        return sum(smooth_cost(f, c[i], x[i]) for i, f in enumerate(d["f"]))
    if d["k"] > 1:
        return sum(smooth_cost(dict(d, k=1), c[i], x[i]) for i in range(d["k"]))
    if d["kind"] in ("gr", "psd", "ell"):
        K = x.conj().T @ c["C"] @ x
        return 0.5 * np.real(np.vdot(x, c["A"] @ x)) + 0.25 * np.real(np.vdot(K, K))
    X = x if d["kind"] != "fr" else x[0] @ np.diag(x[1]) @ x[2]
    return 0.5 * np.real(np.vdot(X, c["A"] * X)) + np.real(np.vdot(c["B"], X)) + 0.5 * np.real(np.vdot(c["C"], X)) ** 2


def smooth_env(cfg, seed, hess=False, precond=False, tame_it=True):
    """The test cost of Geometry.tla on the given manifold; bounded below where that is easy."""
    r = mfs.Run(cfg, "", seed)
    c = r.cost_params(cfg.d)
    c2 = r.cost_params(cfg.d)

    def tame(p, d):
        if d["kind"] == "prod":
            for q, f in zip(p, d["f"]):
                tame(q, f)
        elif d["k"] > 1:
            for q in p:
                tame(q, dict(d, k=1))
        elif d["kind"] in ("psd", "ell", "gr"):
            p["C"] = p["C"] @ p["C"].conj().T
        else:
            p["A"] = np.abs(p["A"]) + 0.2
    if tame_it:
        tame(c, cfg.d)
    pre = None
    if precond:
        # symmetric positive definite: a multiple of the identity plus a rank-one term, at each point
        other = Env(cfg.man, cfg.d, lambda x: 0.0, egrad=lambda x: r.egrad(cfg.d, c2, x)).problem

        def pre(x, u):
            w = other.riemannian_gradient(x)
            n = cfg.man.inner_product(x, w, w)
            return 1.5 * u + (2.0 * cfg.man.inner_product(x, w, u) / (1.0 + n)) * w
    return Env(cfg.man, cfg.d, lambda x: smooth_cost(cfg.d, c, x), egrad=lambda x: r.egrad(cfg.d, c, x),
               ehess=(lambda x, u: r.ehess(cfg.d, c, x, u)) if hess else None, precond=pre)


def scaled(u, s):
    return s * u


# ------------------------------------------------------------------ line-search methods
class Spy:
    """A line searcher that records its calls; the optimizer may copy it."""

    def __init__(self, inner, log, clock, after=None):
        self.inner, self.log, self.clock, self.after = inner, log, clock, after

    def __deepcopy__(self, memo):
        return Spy(copy.deepcopy(self.inner, memo), self.log, self.clock, self.after)

    def search(self, objective, manifold, x, d, f0, df0):
        e = {"x": copy_of(x), "d": plain(d), "dv": copy_of(d), "f0": float(f0), "df0": float(df0), "tb": self.clock.now}
        step, newx = self.inner.search(objective, manifold, x, d, f0, df0)
        if self.after:
            self.after(len(self.log))
        e.update(step=float(step), te=self.clock.now, newx=copy_of(newx))
        self.log.append(e)
        return step, newx


class Scripted:
    """A line searcher that moves through prescribed points with prescribed step sizes."""

    def __init__(self, points, steps):
        self.points, self.steps, self.k = points, steps, 0

    def __deepcopy__(self, memo):
        return Scripted(self.points, self.steps)

    def search(self, objective, manifold, x, d, f0, df0):
        k = self.k
        self.k += 1
        return (self.steps[k] if k < len(self.steps) else 1.0), self.points[k + 1] if k + 1 < len(self.points) else self.points[-1] + 0.0


def limits(time_=1000.0, iters=1000, grad=1e-6, step=1e-10, evals=None):
    return {"time": float(time_), "iters": int(iters), "grad": float(grad), "step": float(step), "evals": 10 ** 9 if evals is None else int(evals)}


def limit_kw(lim, evals=True):
    kw = dict(max_time=lim["time"], max_iterations=lim["iters"], min_gradient_norm=lim["grad"], min_step_size=lim["step"], verbosity=0)
    if evals:
        kw["max_cost_evaluations"] = lim["evals"]
    # limits nobody sets have their default values
    for n in lim.get("omit", []):
        del kw[n]
    return kw


OPTIONS = {"time": ("max_time", 1000.0), "iters": ("max_iterations", 1000), "grad": ("min_gradient_norm", 1e-6), "step": ("min_step_size", 1e-10)}


def default_limits(lim, names):
    """The limits with the named ones left to their defaults."""
    return dict(lim, omit=[OPTIONS[n][0] for n in names], **{n: OPTIONS[n][1] for n in names})


def run_descent(opt, env, searcher, lim, x0, *, rule="HestenesStiefel", orth=np.inf, logon=True, shipped=True, exact=False, after=None, clock=None, name=""):
    man, d = env.man, env.d
    clock = clock or Clock()
    log = []
    spy = Spy(searcher, log, clock, after)
    kw = limit_kw(lim)
    kw["log_verbosity"] = 1 if logon else 0
    if opt == "sd":
        o = po.SteepestDescent(line_searcher=spy, **kw)
    else:
        o = po.ConjugateGradient(beta_rule=rule, orth_value=orth, line_searcher=spy, **kw)
    P = env.problem
    x00 = copy_of(x0)
    t0 = clock.now
    T = {"opt": opt, "rule": rule if opt == "cg" else "", "orth": float(orth), "m": d, "exact": exact, "shipped": shipped, "logon": logon,
         "valid0": True, "lim": lim, "t0": t0, "name": name, "exc": "", "S": [], "it": [], "tr": [], "res": {}, "log": []}
    with clock:
        try:
            r = o.run(P, initial_point=x0)
        except Exception as e:  # noqa: BLE001
            T["exc"] = core.exc_name(e)
            r = None
    T["tend"] = clock.now
    if r is None:
        return T
    # time of the first possible stopping test: nothing but the initial evaluations happens before the first search
    T["ta"] = log[0]["tb"] if log else clock.now
    T["S"] = [{"d": core.enc(e["d"]), "f0": e["f0"], "df0": e["df0"], "step": e["step"], "tb": e["tb"], "te": e["te"]} for e in log]
    pts = [e["x"] for e in log] + ([log[-1]["newx"]] if log else [x00])
    its = []
    for p in pts:
        g = P.riemannian_gradient(p)
        its.append((p, float(P.cost(p)), g, P.preconditioner(p, g)))
    T["it"] = [{"x": core.enc(plain(p)), "f": f, "g": core.enc(plain(g)), "p": core.enc(plain(q))} for p, f, g, q in its]
    if opt == "cg":
        for k, e in enumerate(log):
            y = its[k + 1][0]
            tr = lambda v: core.enc(plain(man.transport(its[k][0], y, v)))  # noqa: E731
            T["tr"].append({"g": tr(its[k][2]), "d": tr(e["dv"]), "p": tr(its[k][3])})
    rp = r.point
    T["res"] = {"x": core.enc(plain(rp)), "f": float(P.cost(rp)), "g": core.enc(plain(P.riemannian_gradient(rp))), "cost": float(r.cost),
                "iters": int(r.iterations), "evals": int(r.cost_evaluations), "gn": float(r.gradient_norm), "step": float(r.step_size), "time": float(r.time), "why": reason(r.stopping_criterion)}
    if logon:
        L = r.log["iterations"]
        ents = list(zip(L["iteration"], L["point"], L["cost"], L["gradient_norm"]))
        T["log"] = [{"i": int(i), "cost": float(c), "gn": float(g), "x": core.enc(plain(p)), "f": float(P.cost(p)), "g": core.enc(plain(P.riemannian_gradient(p))),
                     "first": mfs.same_bits(mfs.list_of(p), mfs.list_of(x00))} for i, p, c, g in ents]
    return T


# ------------------------------------------------------------------ spies on a manifold
class Watch:
    """Shadows operations of one manifold object for the duration of a run."""

    def __init__(self, man, **hooks):
        self.man, self.hooks = man, hooks

    def __enter__(self):
        for name, hook in self.hooks.items():
            orig = getattr(self.man, name)

            def wrapped(*a, _o=orig, _h=hook, **k):
                args = copy_of(a)
                out = _o(*a, **k)
                _h(args, out)
                return out
            self.man.__dict__[name] = wrapped
        return self

    def __exit__(self, *a):
        for name in self.hooks:
            del self.man.__dict__[name]


def basis(man, x):
    """An orthonormal basis of the tangent space at x (for the manifold's own inner product)."""
    state = np.random.get_state()
    np.random.seed(12345)
    B, misses = [], 0
    while misses < 2 and len(B) < 60:
        v = man.random_tangent_vector(x)
        for _ in range(3):
            for b in B:
                v = v - man.inner_product(x, b, v) * b
            n = man.norm(x, v)
            if n < 1e-8:
                break
            v = (1.0 / n) * v
        if n < 1e-8:
            misses += 1
        else:
            B.append(v)
    np.random.set_state(state)
    return B


def coords(man, x, B, v):
    """Coordinates of v and the size of what they leave out."""
    c = [float(man.inner_product(x, b, v)) for b in B]
    w = v
    for a, b in zip(c, B):
        w = w - a * b
    return c, float(man.norm(x, w))


def run_trust(env, lim, x0, *, par=None, clock=None, exact=False, dyadic=False, name="", basis_of=None, phase=None):
    man, d = env.man, env.d
    clock = clock or Clock()
    env.clock = clock
    p = dict(kappa=0.1, theta=1.0, rhop=0.1, rand=False, reg=1e3, mininner=1, maxinner=-1, D0="null", Dbar="null")
    p.update(par or {})
    kw = limit_kw(lim)
    o = po.TrustRegions(kappa=p["kappa"], theta=p["theta"], rho_prime=p["rhop"], use_rand=p["rand"], rho_regularization=p["reg"], **kw)
    rk = dict(mininner=p["mininner"])
    if p["maxinner"] != -1:
        rk["maxinner"] = p["maxinner"]
    if p["Dbar"] != "null":
        rk["Delta_bar"] = p["Dbar"]
    if p["D0"] != "null":
        rk["Delta0"] = p["D0"]
    try:
        typ = float(man.typical_dist)
    except NotImplementedError:
        typ = float(np.sqrt(man.dim))
    P = env.problem
    x00 = copy_of(x0)
    ev = []
    env.watch = lambda what, x: ev.append((what, x, clock.now))
    T = {"opt": "tr", "m": d, "exact": exact, "dyadic": dyadic, "dim": int(man.dim), "lim": lim, "par": p, "typ": typ, "t0": clock.now, "ta": clock.now,
         "P": [], "E": [], "exc": "", "valid0": True, "name": name, "res": {}}
    with clock, Watch(man, retraction=lambda a, out: ev.append(("retr", a[0], clock.now, a[1], copy_of(out))),
                      random_tangent_vector=lambda a, out: ev.append(("rand", a[0], clock.now, copy_of(out)))):
        try:
            r = o.run(P, initial_point=x0, **rk)
        except Exception as e:  # noqa: BLE001
            T["exc"] = core.exc_name(e)
            r = None
    T["tend"] = clock.now
    env.watch = None
    if r is None:
        return T
    # the trial steps: retractions whose result was evaluated
    key = lambda q: pkey(mfs.list_of(q))  # noqa: E731
    E, rnd, pre = [], None, True
    for e in ev:
        if e[0] == "rand":
            rnd = e
        elif e[0] == "retr":
            if pre:
                T["ta"] = e[2]       # nothing but the initial evaluations precedes the first trial
                pre = False
            E.append({"x": e[1], "eta": e[3], "out": e[4], "tr": e[2], "tc": None, "rnd": rnd})
            rnd = None
        elif E and (e[0] == "grad" or key(e[1]) == key(E[-1]["out"])):
            E[-1]["tc"] = e[2]
    E = [e for e in E if e["tc"] is not None]
    index, pts = {}, []

    def point(x, i):
        k = key(x)
        if phase:
            k = (k, i)
            phase(i)
        if k not in index:
            index[k] = len(pts)
            B = basis_of(x) if basis_of else basis(man, x)
            g = P.riemannian_gradient(x)
            G, goff = coords(man, x, B, g)
            H = [coords(man, x, B, P.riemannian_hessian(x, b))[0] for b in B]
            M = [] if env.pre is None else [coords(man, x, B, P.preconditioner(x, b))[0] for b in B]
            pts.append({"g": G, "H": [list(c) for c in zip(*H)], "P": [list(c) for c in zip(*M)], "gn": float(man.norm(x, g)), "B": B, "f": float(P.cost(x))})
        return index[k]
    nexts = [e["x"] for e in E[1:]] + [r.point]
    for j, (e, nx) in enumerate(zip(E, nexts)):
        i = point(e["x"], j)
        B = pts[i]["B"]
        c, off = coords(man, e["x"], B, e["eta"])
        c0 = [0.0] * len(B)
        if p["rand"] and e["rnd"] is not None:
            c0 = coords(man, e["x"], B, e["rnd"][3])[0]
        T["E"].append({"pt": i + 1, "eta": c, "off": off, "rnd": c0, "started": e["rnd"] is not None, "acc": key(nx) == key(e["out"]), "rej": key(nx) == key(e["x"]),
                       "f": pts[i]["f"], "fp": float(P.cost(e["out"])), "tc": e["tc"], "tr": e["tr"],
                       "gnext": float(man.norm(nx, P.riemannian_gradient(nx)))})
    T["P"] = [{k: v for k, v in q.items() if k in ("g", "H", "P", "gn")} for q in pts]
    rp = r.point
    T["res"] = {"x": core.enc(plain(rp)), "f": float(P.cost(rp)), "f0": float(P.cost(x00)), "cost": float(r.cost), "gn": float(r.gradient_norm),
                "gt": float(man.norm(rp, P.riemannian_gradient(rp))), "iters": int(r.iterations), "time": float(r.time), "why": reason(r.stopping_criterion),
                "last": bool(E) and (key(rp) in (key(E[-1]["x"]), key(E[-1]["out"])))}
    return T


# ------------------------------------------------------------------ derivative-free methods
def watch_evals(env, clock):
    """Hooks that attribute every cost evaluation to the operation that made its point."""
    made, ev = {}, []
    key = lambda q: pkey(mfs.list_of(q))  # noqa: E731

    def retr(a, out):
        made.setdefault(key(out), []).append({"kind": "retr", "base": a[0], "v": a[1]})

    def mean(a, out):
        made.setdefault(key(out), []).append({"kind": "mean", "pa": a[0], "pb": a[1]})

    def cost(what, x):
        if what == "cost":
            src = made.get(key(x))
            # the latest operation that made this point
            e = dict(src.pop()) if src else {"kind": "other"}
            e.update(x=x, t=clock.now, tb=env.before)
            ev.append(e)
    return made, ev, retr, mean, cost


def run_simplex(env, lim, x0, *, coef=None, clock=None, name="", valid=True, ctol=0.05):
    man, d = env.man, env.d
    clock = clock or Clock()
    env.clock = clock
    c = dict(reflection=1.0, expansion=2.0, contraction=0.5)
    kw = {}
    if coef:
        c.update(coef)
        kw = dict(coef)
    o = po.NelderMead(max_cost_evaluations=lim["evals"], max_iterations=lim["iters"], max_time=lim["time"], verbosity=0, **kw)
    made, ev, retr, mean, cost = watch_evals(env, clock)
    P = env.problem
    key = lambda q: pkey(mfs.list_of(q))  # noqa: E731
    x00 = copy_of(x0)
    n = int(man.dim) + 1
    T = {"opt": "nm", "m": d, "dim": n - 1, "n": len(x0), "refused": False, "valid": valid, "lim": lim, "coef": c, "x0": [], "f0": [], "E": [], "t0": clock.now,
         "exc": "", "res": {}, "name": name, "ctol": ctol}
    env.watch = cost
    hooks = {"retraction": retr, "pair_mean": mean}
    with clock, Watch(man, **hooks):
        try:
            r = o.run(P, initial_point=x0)
        except ValueError as e:
            r = None
            T["refused"] = not ev or core.exc_name(e)
        except Exception as e:  # noqa: BLE001
            r = None
            T["exc"] = core.exc_name(e)
    env.watch = None
    T["tend"] = clock.now
    if T["refused"] not in (True, False):
        T["exc"], T["refused"] = T["refused"], False
    if r is None or len(x0) != n:
        return T
    pts = [p for p in x00]
    keys = [key(p) for p in pts]
    evs = ev[n:]
    if evs and evs[-1]["kind"] == "other" and key(evs[-1]["x"]) == key(r.point):
        evs = evs[:-1]          # the returned point is evaluated once more
    T["t0"] = ev[n - 1]["t"] if len(ev) >= n else T["t0"]
    T["x0"], T["f0"] = [core.enc(plain(p)) for p in pts], [float(P.cost(p)) for p in pts]
    for e in evs:
        q = {"kind": e["kind"], "x": core.enc(plain(e["x"])), "f": float(P.cost(e["x"])), "t": e["t"], "tb": e["tb"]}
        if e["kind"] == "retr":
            q.update(base=core.enc(plain(e["base"])), vec=core.enc(plain(e["v"])))
        elif e["kind"] == "mean":
            q.update(a=[i + 1 for i, k in enumerate(keys) if k == key(e["pa"])], b=[i + 1 for i, k in enumerate(keys) if k == key(e["pb"])])
        keys.append(key(e["x"]))
        T["E"].append(q)
    rp = r.point
    T["res"] = {"x": core.enc(plain(rp)), "f": float(P.cost(rp)), "cost": float(r.cost), "iters": int(r.iterations), "evals": int(r.cost_evaluations),
                "time": float(r.time), "why": reason(r.stopping_criterion), "ids": [i + 1 for i, k in enumerate(keys) if k == key(rp)]}
    return T


def run_swarm(env, lim, x0, *, size=None, nostalgia=None, social=None, clock=None, name="", ticks=None):
    """lim["iters"] or lim["evals"] below zero: left to the default.  x0 None: random positions."""
    man, d = env.man, env.d
    clock = clock or Clock()
    env.clock = clock
    kw = dict(max_time=lim["time"], verbosity=0)
    for k, n in (("iters", "max_iterations"), ("evals", "max_cost_evaluations")):
        if lim[k] >= 0:
            kw[n] = lim[k]
    for k, v in (("population_size", size), ("nostalgia", nostalgia), ("social", social)):
        if v is not None:
            kw[k] = v
    o = po.ParticleSwarm(**kw)
    made, ev, retr, _, cost = watch_evals(env, clock)
    rnd, drawn = [], []
    P = env.problem
    key = lambda q: pkey(mfs.list_of(q))  # noqa: E731
    T = {"opt": "pso", "m": d, "dim": int(man.dim), "n": 0, "given": -1 if x0 is None else len(x0), "used": True, "size": -1 if size is None else size, "lim": lim,
         "nostalgia": 1.4 if nostalgia is None else nostalgia, "social": 1.4 if social is None else social, "x0": [], "f0": [], "E": [], "t0": clock.now,
         "exc": "", "res": {}, "name": name}
    x00 = copy_of(x0)
    env.watch = cost

    def draw(a, out):
        rnd.append((key(a[0]), copy_of(out)))
    with clock, Watch(man, retraction=retr, random_tangent_vector=draw, random_point=lambda a, out: drawn.append(key(out))):
        try:
            r = o.run(P, initial_point=x0)
        except Exception as e:  # noqa: BLE001
            r = None
            T["exc"] = core.exc_name(e)
    env.watch = None
    T["tend"] = clock.now
    if r is None:
        return T
    n = 0
    while n < len(ev) and ev[n]["kind"] == "other":
        n += 1
    first = [key(e["x"]) for e in ev[:n]]
    T["n"] = n
    # random positions may also be drawn for other purposes
    T["used"] = all(k in drawn for k in first) if x0 is None else sorted(map(str, first)) == sorted(str(key(p)) for p in x00)
    evs = ev[n:]
    T["t0"] = ev[n - 1]["t"]
    T["x0"], T["f0"] = [core.enc(plain(e["x"])) for e in ev[:n]], [float(P.cost(e["x"])) for e in ev[:n]]
    keys = list(first)
    vel = []
    for k, e in zip(first, ev[:n]):
        v = next((i for i, (q, _) in enumerate(rnd) if q == k), None)
        vel.append((e["x"], rnd.pop(v)[1] if v is not None else None))
    spent = set()
    for e in evs:
        cand = []
        b = key(e["base"]) if e["kind"] == "retr" else None
        for i, k in enumerate(keys):
            if k == b and i not in spent:
                xp, v = vel[i]
                ok = v is not None
                cand.append({"id": i + 1, "tvok": ok, "tv": core.enc(plain(man.transport(xp, e["base"], v))) if ok else core.enc(plain(e["v"]))})
        if len(cand) == 1:
            spent.add(cand[0]["id"] - 1)       # every position is left at most once
        T["E"].append({"x": core.enc(plain(e["x"])), "f": float(P.cost(e["x"])), "t": e["t"], "tb": e["tb"], "cand": cand,
                       "base": core.enc(plain(e["base"] if b else e["x"])), "vec": core.enc(plain(e["v"] if b else e["x"]))})
        keys.append(key(e["x"]))
        vel.append((e["base"], e["v"]) if b else (e["x"], None))
    rp = r.point
    T["res"] = {"x": core.enc(plain(rp)), "f": float(P.cost(rp)), "cost": float(r.cost), "iters": int(r.iterations), "evals": int(r.cost_evaluations),
                "time": float(r.time), "why": reason(r.stopping_criterion), "ids": [i + 1 for i, k in enumerate(keys) if k == key(rp)]}
    return T
