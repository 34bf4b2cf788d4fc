"""C30: the derivative diagnostics on derivatives with and without faults, for the cases of DiagnosticsMC."""
import os
import re

import numpy as np

os.environ["MPLBACKEND"] = "Agg"
import core

pymanopt = core.load_pymanopt()
import matplotlib.pyplot as plt  # noqa: E402
import manifolds as mfs  # noqa: E402
import optim  # noqa: E402
from pymanopt.tools import diagnostics  # noqa: E402

NUM = r"([-+]?(?:\d+(?:\.\d*(?=[\de])\d*)?(?:e[-+]?\d+)?|nan|inf))"


def arb(run, v, d):
    """An arbitrary array shaped like the tangent vector v."""
    if d["kind"] == "prod":
        return type(v)([arb(run, w, f) for w, f in zip(v, d["f"])])
    if d["kind"] == "fr":
        return type(v)(*run.fr_ambient(d))
    w = run.rng.standard_normal(np.shape(v))
    return w + 1j * run.rng.standard_normal(np.shape(v)) if np.iscomplexobj(v) else w


class Figures:
    """Keeps what is drawn when a figure is shown."""

    def __enter__(self):
        self.lines, self.saved = [], plt.show
        plt.close("all")

        def show(*a, **k):
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    self.lines.extend((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_linestyle()) for l in ax.get_lines())
        plt.show = show
        return self

    def __exit__(self, *a):
        plt.show = self.saved
        plt.close("all")

    def curve(self):
        """The error curve, the fitted line on it, the slopes of the reference lines."""
        solid = [l for l in self.lines if l[2] == "-"]
        solid.sort(key=lambda l: -(l[0].max() - l[0].min()))
        refs = [l for l in self.lines if l[2] in ("--", ":")]
        with np.errstate(all="ignore"):
            slopes = [(np.log10(y[-1]) - np.log10(y[0])) / (np.log10(x[-1]) - np.log10(x[0])) for x, y, _ in refs]
        c, f = solid[0], solid[1]
        return {"h": c[0].tolist(), "e": c[1].tolist(), "fh": [f[0][0], f[0][-1]], "fe": [f[1][0], f[1][-1]], "refs": slopes}


def said(text):
    """The numbers of the printed report."""
    out = {"residual": [], "linear": [], "symmetric": [], "slope": [], "norm": []}
    for key, pat in [("residual", r"residual should be.*?" + NUM + r"\.?$"), ("linear", r"H\[d2\] should be very close to 0: " + NUM + r"\.?$"),
                     ("symmetric", r"should be close to zero: " + NUM + " - " + NUM + " = " + NUM + r"\.?$"), ("slope", r"slope is: " + NUM + r"\.?$"),
                     ("norm", r"should be zero: " + NUM + r"\.?$")]:
        m = re.search(pat, text, re.M)
        if key == "residual":
            hits = [l for l in text.splitlines() if "residual should be" in l.lower()]
            m = re.search(NUM + r"\.?\s*$", hits[0]) if hits else None
        if m:
            out[key] = [float(g) for g in m.groups()]
    return out


def faulty(cfg, F, seed):
    """A problem whose derivatives have the faults F, and the correct derivatives."""
    man = cfg.man
    hess = cfg.caps["hess"]
    base = optim.smooth_env(cfg, seed, hess=hess)
    one, two = optim.smooth_env(cfg, seed + 1).problem, optim.smooth_env(cfg, seed + 2).problem
    run = mfs.Run(cfg, "", seed)
    cache = {}

    def normal(x):
        v = one.riemannian_gradient(x)
        k = optim.pkey(x)
        if k not in cache:
            a = arb(run, v, cfg.d)
            cache[k] = a
        a = cache[k]
        return a - man.to_tangent_space(x, a)

    def unit(v, x):
        n = man.norm(x, v)
        return (1.0 / n) * v if n > 0 else v

    def grad(x):
        g = base.problem.riemannian_gradient(x)
        if "g" in F:
            g = g + (0.5 + man.norm(x, g)) * unit(one.riemannian_gradient(x), x)
        return g + normal(x) if "n" in F and not hess_tool[0] else g

    def hessian(x, u):
        if cfg.d["kind"] == "prod":
            u = type(one.riemannian_gradient(x))(u)
        h = base.problem.riemannian_hessian(x, u)
        if not F:
            return h
        s = 0.5 + man.norm(x, base.problem.riemannian_hessian(x, unit(one.riemannian_gradient(x), x)))
        a, b = unit(one.riemannian_gradient(x), x), unit(two.riemannian_gradient(x), x)
        if "w" in F:
            h = h + (s * man.inner_product(x, a, u)) * a + s * u
        if "s" in F:
            h = h + (s * man.inner_product(x, a, u)) * b - (s * man.inner_product(x, b, u)) * a
        if "l" in F:
            h = h + (s * man.inner_product(x, u, u)) * a
        if "n" in F:
            h = h + man.inner_product(x, b, u) * normal(x)
        return h
    hess_tool = [False]
    env = optim.Env(man, cfg.d, base.cost, rgrad=grad, rhess=hessian if hess else None) if F else base
    return env.problem, base.problem, hess_tool


def order_of_args(calls):
    """The point and the longest vector of the recorded evaluations."""
    return max(calls, key=lambda c: c[2])


def derivative(cfg, tool, F, given, seed):
    np.random.seed(seed)
    man = cfg.man
    P, base, flag = faulty(cfg, F, seed)
    flag[0] = tool == "hessian"
    x0 = man.random_point() if given in ("x", "xd") else None
    d0 = man.random_tangent_vector(x0) if given == "xd" else None
    if given == "d":
        d0 = man.random_tangent_vector(man.random_point())
    if given == "xd" and seed % 3 == 0:
        d0 = 0.5 * d0
    T = {"tool": tool, "F": sorted(F), "given": given, "man": cfg.name, "exc": "", "own": True, "seed": seed}
    calls, drawn, pts = [], [], []
    where = "exp" if cfg.caps["exp"] else "retraction"
    before = core.dumps(core.enc([optim.plain(v) for v in (x0, d0) if v is not None]))
    with Figures() as fig, core.Capture() as cap, np.errstate(all="ignore"), optim.Watch(
            man, **{where: lambda a, out: calls.append((a[0], a[1], float(man.norm(a[0], a[1])))),
                    "random_tangent_vector": lambda a, out: drawn.append(optim.copy_of(out)),
                    "random_point": lambda a, out: pts.append(optim.copy_of(out))}):
        try:
            args = [a for a in (x0, d0) if a is not None] if given != "d" else None
            f = diagnostics.check_gradient if tool == "gradient" else diagnostics.check_hessian
            if given == "d":
                f(P, **{("d" if tool == "gradient" else "tangent_vector"): d0})
            else:
                f(P, *args)
        except Exception as ex:  # noqa: BLE001
            T["exc"] = core.exc_name(ex)
        text = cap.text
    if T["exc"] or given == "d":
        return core.enc(T)
    T["kept"] = before == core.dumps(core.enc([optim.plain(v) for v in (x0, d0) if v is not None]))
    T.update(fig.curve())
    x, d, _ = order_of_args(calls)
    T["own"] = bool((x0 is None or (optim.pkey(x) == optim.pkey(x0))) and (d0 is None or T["h"][-1] != 1 or optim.pkey(d) == optim.pkey(d0)))
    T["fresh"] = x0 is not None or any(optim.pkey(x) == optim.pkey(p) for p in pts)
    with core.Capture(), np.errstate(all="ignore"):
        hmax = max(T["h"])
        if hmax != 1:
            d = (1 / hmax) * d
        move = getattr(man, where)
        g, tg = P.riemannian_gradient(x), base.riemannian_gradient(x)
        T.update(f0=P.cost(x), fy=[P.cost(move(x, h * d)) for h in T["h"]], df0=man.inner_product(x, g, d), tdf0=man.inner_product(x, tg, d), d2=0.0, td2=0.0)
        T["dn"] = man.norm(x, d)
        T["dres"] = man.norm(x, d - man.to_tangent_space(x, d))
        r = g
        T["M"], T["hn"] = [], 1.0
        if tool == "hessian":
            r, t = P.riemannian_hessian(x, d), base.riemannian_hessian(x, d)
            T.update(d2=man.inner_product(x, r, d), td2=man.inner_product(x, t, d))
            us = drawn[-2:]
            H = [P.riemannian_hessian(x, u) for u in us]
            T["M"] = [[man.inner_product(x, u, h) for h in H] for u in us]
            T["hn"] = 1.0 + max([man.norm(x, h) for h in H])
        T["res"] = [man.norm(x, r - man.to_tangent_space(x, r))]
        T["rn"] = 1.0 + man.norm(x, r)
    T["said"] = said(text)
    T["exact"] = "is exact" in text
    return core.enc(T)


def retraction(cfg, F, given, seed):
    np.random.seed(seed)
    man = cfg.man
    T = {"tool": "retraction", "F": sorted(F), "given": given, "man": cfg.name, "exc": "", "own": True}
    T["has"] = {k: bool(cfg.caps[k]) for k in ("exp", "dist")}
    saved = dict(man.__dict__)
    try:
        if "d" in F:
            man.__dict__["retraction"] = lambda x, u, _e=man.exp: _e(x, 1.2 * u)
        if "i" in F:
            man.__dict__["retraction"] = lambda x, u, _e=man.exp: _e(x, u)
        x0 = man.random_point() if given else None
        d0 = man.random_tangent_vector(x0) if given == "xd" else None
        calls, pts = [], []
        hooks = {"random_point": lambda a, out: pts.append(optim.copy_of(out))}
        if cfg.caps["exp"]:
            hooks["exp"] = lambda a, out: calls.append((a[0], a[1], float(man.norm(a[0], a[1]))))
        old = {k: man.__dict__[k] for k in hooks if k in man.__dict__}
        with Figures() as fig, core.Capture() as cap, np.errstate(all="ignore"), optim.Watch(man, **hooks):
            try:
                diagnostics.check_retraction(man, *[a for a in (x0, d0) if a is not None])
            except Exception as ex:  # noqa: BLE001
                T["exc"] = core.exc_name(ex)
            text = cap.text
        man.__dict__.update(old)
        if T["exc"]:
            return core.enc(T)
        T.update(fig.curve())
        T["all"] = T["e"]
        T["h"], T["e"] = T["h"][::-3][::-1], T["e"][::-3][::-1]
        x, d, _ = order_of_args(calls)
        T["own"] = bool((x0 is None or (optim.pkey(x) == optim.pkey(x0))) and (d0 is None or optim.pkey(d) == optim.pkey(d0)))
        T["fresh"] = x0 is not None or any(optim.pkey(x) == optim.pkey(p) for p in pts)
        with core.Capture(), np.errstate(all="ignore"):
            T["fy"] = [man.dist(man.exp(x, h * d), man.retraction(x, h * d)) for h in T["h"]]
            T["dn"] = man.norm(x, d)
            T["dres"] = man.norm(x, d - man.to_tangent_space(x, d))
        T["kept"], T["said"], T["exact"] = True, said(text), False
        return core.enc(T)
    finally:
        man.__dict__.clear()
        man.__dict__.update(saved)


def run(chk):
    emits = chk.model("DiagnosticsMC").emits
    scripts = sorted(((s["tool"], tuple(sorted(s["faults"])), s["given"]) for s in emits), key=str)
    by = {}
    for s in scripts:
        if s[2] != "d":
            by.setdefault((s[0], s[1]), []).append(s[2])
    traces, n = [], 0
    for rep in range(3 if core.THOROUGH else 1):
        for ci, cfg in enumerate(mfs.configs()):
            def rotate(tool, size, count):
                some = [k for k in sorted(by) if k[0] == tool and (len(k[1]) == 1 if size == 1 else len(k[1]) > 1)]
                return some if core.THOROUGH else [some[(count * ci + j) % len(some)] for j in range(count)]
            todo = [(tool, ()) for tool in ("gradient", "hessian", "retraction")] + rotate("gradient", 1, 1) + rotate("gradient", 2, 1)[: ci % 2]
            todo += rotate("hessian", 1, 2) + rotate("hessian", 2, 1) + (rotate("retraction", 1, 1) if ci % 3 == 0 or core.THOROUGH else [])
            todo = [k for k in todo if k[0] != "hessian" or cfg.caps["hess"]]
            for tool, F in todo:
                n += 1
                given = by[(tool, F)][(n + rep) % 3]
                seed = core.SEED * 100003 + n
                if tool == "retraction":
                    if F and not cfg.caps["exp"]:
                        continue
                    traces.append(retraction(cfg, set(F), given, seed))
                else:
                    traces.append(derivative(cfg, tool, set(F), given, seed))
            for tool in ("gradient", "hessian"):
                if ci % 8 == 0 and (tool == "gradient" or cfg.caps["hess"]):
                    traces.append(derivative(cfg, tool, set(), "d", core.SEED * 100003 + ci))
    # correct Hessians whose smallest errors happen to be one constant over more than a decade of steps
    byname = {c.name: c for c in mfs.configs()}
    for name, F, seed in [("SO(2,6,qr)", set(), 200431), ("Stiefel(3,1,1,qr)", {"n"}, 300218), ("PoincareBall(1,1)", {"n"}, 700767)]:
        traces.append(derivative(byname[name], "hessian", F, "xd", seed))
    chk.validate("DiagnosticsTrace", traces, key=lambda t, c: f"{t['tool']} {''.join(t['F'])}: {c[0]}", describe=lambda t, c: f"{t['man']} given={t['given']!r} faults={t['F']}: {c}")
