"""C11: the operators of a problem.  Histories enumerated by ProblemMC are played on problems of every
layout whose functions are known; ProblemTrace knows the value every operator has to have."""
import copy
import random

import numpy as np

import core
import manifolds as mfs
from manifolds import pymanopt

BACKENDS = {}


def kit(name):
    """(decorator, real part of the sum, square norm, sequence type handling) of a backend."""
    if name in BACKENDS:
        return BACKENDS[name]
    if name in ("numpy", "autograd"):
        if name == "numpy":
            xp = np
        else:
            import autograd.numpy as xp
        k = dict(dec=getattr(pymanopt.function, name), resum=lambda a: xp.sum(xp.real(a)), sq=lambda a: xp.sum(xp.real(a) ** 2) + (xp.sum(xp.imag(a) ** 2) if xp.iscomplexobj(a) else 0.0))
    elif name == "jax":
        import jax.numpy as xp
        k = dict(dec=pymanopt.function.jax, resum=lambda a: xp.sum(xp.real(a)), sq=lambda a: xp.sum(xp.real(a) ** 2) + xp.sum(xp.imag(a) ** 2))
    elif name == "pytorch":
        import torch
        k = dict(dec=pymanopt.function.pytorch, resum=lambda a: torch.sum(torch.real(a)), sq=lambda a: torch.sum(torch.real(a) ** 2) + (torch.sum(torch.imag(a) ** 2) if a.is_complex() else 0.0))
    else:
        import tensorflow as tf
        k = dict(dec=pymanopt.function.tensorflow, resum=lambda a: tf.reduce_sum(tf.math.real(a)), sq=lambda a: tf.reduce_sum(tf.math.real(a) ** 2) + (tf.reduce_sum(tf.math.imag(a) ** 2) if a.dtype.is_complex else 0.0))
    BACKENDS[name] = k
    return k


def leaves(d, v):
    """Flat arguments of a structured point or tangent vector."""
    if d["kind"] == "prod":
        out = []
        for f, w in zip(d["f"], v):
            out.extend(leaves(f, w))
        return out
    return list(v) if d["kind"] == "fr" else [v]


def resum(a):
    return float(np.sum(np.real(a)))


class World:
    """The functions of Problem/ProblemTrace on one manifold, with their reference tables at two points."""

    def __init__(self, cfg, seed):
        self.cfg, self.man, self.d = cfg, cfg.man, cfg.d
        np.random.seed(seed)
        rng = np.random.RandomState(seed + 1)
        man = self.man
        n = len(leaves(self.d, man.random_point()))
        self.n = n
        self.par = {k: [float(v) for v in rng.choice([-3, -2, -1, 1, 2, 3], n) / s] for k, s in (("a", 2.0), ("b", 4.0), ("c", 8.0), ("d", 2.0))}
        self.pts, self.enc = [], []
        hasfr = "fr" in [self.d["kind"]] + [f["kind"] for f in self.d["f"]]
        for _ in range(2):
            x = man.random_point()
            u, W, Z = (man.random_tangent_vector(x) for _ in range(3))
            self.pts.append((x, u, W, Z))
        for x, u, W, Z in self.pts:
            gc, hc = [], []
            gs = [self.group(self.lin(self.par["a"], 1.0, x)), self.group(self.lin(self.par["b"], 2.0, x))]
            for g in gs:
                gc.append({"arg": mfs.list_of(g), "val": mfs.list_of(man.euclidean_to_riemannian_gradient(x, copy.deepcopy(g)))})
            if not hasfr:
                v = self.embed(x, u)
                hs = [self.group(self.lin(self.par["a"], 1.0, v)), self.group(self.user_eh(leaves(self.d, x), leaves(self.d, v)))]
                for g in gs:
                    for h in hs:
                        hc.append({"ga": mfs.list_of(g), "ha": mfs.list_of(h), "val": mfs.list_of(man.euclidean_to_riemannian_hessian(x, copy.deepcopy(g), copy.deepcopy(h), u))})
            self.enc.append(core.enc({"x": mfs.list_of(x), "u": mfs.list_of(u), "W": mfs.list_of(W), "Z": mfs.list_of(Z), "gc": gc, "hc": hc}))

    def embed(self, x, u, d=None):
        d = d or self.d
        if d["kind"] == "prod":
            return [self.embed(a, b, f) for a, b, f in zip(x, u, d["f"])]
        return x @ u if d["kind"] in ("so", "u") else u

    def group(self, l):
        if self.d["kind"] == "prod":
            out, i = [], 0
            for f in self.d["f"]:
                k = 3 if f["kind"] == "fr" else 1
                out.append(l[i] if k == 1 else tuple(l[i:i + k]))
                i += k
            return out
        return tuple(l) if self.d["kind"] == "fr" else l[0]

    def s(self, l):
        return sum(c * resum(a) for c, a in zip(self.par["c"], l))

    def lin(self, co, w, x):
        l = leaves(self.d, x)
        s = self.s(l)
        return [a * y + w * c * s for a, c, y in zip(co, self.par["c"], l)]

    def user_eh(self, x, v):
        s = self.s(v) * self.s(x)
        return [a * y + 3.0 * c * s for a, c, y in zip(self.par["d"], self.par["c"], v)]

    # ---- the user's functions of flat arguments
    def at(self, l):
        """Index of the point with these arguments."""
        for j, (x, _, _, _) in enumerate(self.pts):
            if all(np.array_equal(a, b) for a, b in zip(l, leaves(self.d, x))):
                return j
        raise AssertionError("evaluated at a point nobody asked for")

    def returns(self, l, rng):
        """As many results as arguments: a single array, a tuple or a list."""
        if len(l) == 1 and self.d["kind"] != "prod":
            return l[0]
        if len(l) == 1:
            return [l[0], [l[0]], (l[0],)][rng.randrange(3)]
        return tuple(l) if rng.randrange(2) else list(l)

    def functions(self, be, style, rng):
        man, n = self.man, self.n
        k = kit(be)

        def cost(*xs):
            s = sum(c * k["resum"](x) for c, x in zip(self.par["c"], xs))
            return sum(0.5 * a * k["sq"](x) for a, x in zip(self.par["a"], xs)) + 0.5 * s ** 2

        def npc(f):
            return lambda *l: f(*[np.asarray(a) for a in l])

        def eg(*l):
            s = self.s(l)
            return self.returns([b * y + 2.0 * c * s for b, c, y in zip(self.par["b"], self.par["c"], l)], rng)

        def eh(*l):
            return self.returns(self.user_eh(l[:n], l[n:]), rng)

        def rg(*l):
            return self.returns([np.array(a) for a in leaves(self.d, self.pts[self.at(l)][2])], rng)

        def rh(*l):
            x, u, W, Z = self.pts[self.at(l[:n])]
            t = sum(float(np.real(np.vdot(z, v))) for z, v in zip(leaves(self.d, Z), l[n:]))
            return self.returns([2.0 * v + t * w for v, w in zip(l[n:], leaves(self.d, W))], rng)

        def pc(x, u):
            Z = self.pts[self.at(leaves(self.d, x))][3]
            return 3.0 * u + sum(float(np.real(np.vdot(z, v))) for z, v in zip(leaves(self.d, Z), leaves(self.d, u))) * Z

        def named(f, m):
            """The same function with named arguments."""
            if style == "varargs":
                return f
            names = ", ".join("a%d" % i for i in range(m))
            return eval(f"lambda {names}: f({names})", {"f": f})
        out = {"cost": named(cost, n), "eg": named(eg, n), "rg": named(rg, n), "eh": named(eh, 2 * n), "rh": named(rh, 2 * n)}
        # hand-written operators are numpy functions unless the problem has a numpy cost anyway
        num = pymanopt.function.numpy
        dec = {o: (k["dec"] if o == "cost" else num)(man)(f) for o, f in out.items()}
        return out, dec, pc


def build(w, c, plain, be, style, rng):
    raw, dec, pc = w.functions(be, style, rng)
    have = {"cost"} | ({"eg"} if c["g"] in ("e", "both") else set()) | ({"rg"} if c["g"] in ("r", "both") else set()) | \
        ({"eh"} if c["h"] in ("e", "both") else set()) | ({"rh"} if c["h"] in ("r", "both") else set())
    f = {o: (raw if o == plain else dec)[o] for o in have}
    names = {"eg": "euclidean_gradient", "rg": "riemannian_gradient", "eh": "euclidean_hessian", "rh": "riemannian_hessian"}
    kw = {names[o]: f[o] for o in have if o != "cost"}
    if c["pre"]:
        kw["preconditioner"] = pc
    return pymanopt.Problem(w.man, f["cost"], **kw), (f["cost"], kw)


def overrides(P):
    out = []
    for name in ("manifold", "preconditioner"):
        old = getattr(P, name)
        try:
            setattr(P, name, None)
            out.append(False)
        except AttributeError:
            out.append(getattr(P, name) is old)
    return out


def wrong_count(w, rng):
    """On products, operators that return too few or too many arrays are refused when they are used."""
    if w.d["kind"] != "prod":
        return True
    ok = True
    for f in ((lambda *a: list(a) + [a[0]]), (lambda *a: list(a)[:-1])):
        for o in ("euclidean_gradient", "riemannian_gradient"):
            num = pymanopt.function.numpy(w.man)
            P = pymanopt.Problem(w.man, num(lambda *a: 0.0), **{o: num(f)})
            try:
                getattr(P, o)(w.pts[0][0])
                ok = False
            except Exception:  # noqa: BLE001
                pass
    return ok


NAMES = {"cost": "cost", "eg": "euclidean_gradient", "rg": "riemannian_gradient", "eh": "euclidean_hessian", "rh": "riemannian_hessian", "pc": "preconditioner"}


class Buffer:
    """One point object whose contents are replaced for every use."""

    def __init__(self, x):
        self.x = copy.deepcopy(x)

    def hold(self, x):
        def put(dst, src):
            if isinstance(dst, (list, tuple)):
                for a, b in zip(dst, src):
                    put(a, b)
            else:
                dst[...] = src
        put(self.x, x)
        return self.x


def play(w, s, be, rng, mode):
    c = dict(s["c"], be=be)
    T = {"name": w.cfg.name, "m": w.d, "c": c, "plain": s["plain"], "built": True, "exc": "", "par": w.par, "pts": w.enc, "acc": [], "over": [], "count": True, "mode": mode}
    style = rng.choice(["varargs", "named"])
    try:
        P, parts = build(w, c, s["plain"], be, style, rng)
    except Exception as e:  # noqa: BLE001
        T["built"], T["exc"] = False, core.exc_name(e)
        return T
    if not s["h"]:
        T["over"] = overrides(P)
        try:
            T["count"] = wrong_count(w, rng)
        except Exception as e:  # noqa: BLE001
            T["exc"], T["built"] = core.exc_name(e), False
        return T
    # another problem made of the same functions
    Q = P
    if mode["shared"]:
        Q = pymanopt.Problem(w.man, parts[0], **parts[1])
    held, results = {}, []
    buf = {1: Buffer(w.pts[0][0]), 2: Buffer(w.pts[0][1])}
    for op, pt in s["h"]:
        a = {"op": op, "pt": pt, "exc": "", "val": [], "late": [], "plus": [], "same": True}
        T["acc"].append(a)
        x, u = w.pts[pt - 1][:2]
        R = rng.choice([P, Q])
        if mode["buffer"]:
            x, u = buf[1].hold(x), buf[2].hold(u)
        else:
            x, u = copy.deepcopy(x), copy.deepcopy(u)
        x0, u0 = copy.deepcopy(x), copy.deepcopy(u)
        try:
            if mode["held"]:
                f = held.setdefault((op, R is P), None) or getattr(R, NAMES[op])
                held[(op, R is P)] = f
            else:
                f = getattr(R, NAMES[op])
            r = f(x, u) if op in ("eh", "rh", "pc") else f(x)
            a["val"] = core.enc(mfs.list_of(r)) if op != "cost" else float(r)
            if op in ("rg", "rh"):
                a["plus"] = core.enc(mfs.list_of(0.5 * r + r))
            if not mode["buffer"]:
                results.append((a, r))
            else:
                a["late"] = a["val"]
        except Exception as e:  # noqa: BLE001
            a["exc"] = core.exc_name(e)
        a["same"] = mfs.same_bits(mfs.list_of(x), mfs.list_of(x0)) and mfs.same_bits(mfs.list_of(u), mfs.list_of(u0))
    for a, r in results:
        if a["exc"] == "":
            a["late"] = core.enc(mfs.list_of(r)) if a["op"] != "cost" else float(r)
    return T


LAYOUTS = ["Euclidean(2, 3)", "Sphere(3,)", "Stiefel(3,2,2,qr)", "SO(3,1,qr)", "Grassmann(4,2,3)", "SymmetricPositiveDefinite(3,1)", "FixedRankEmbedded(4,3,1)",
           "ComplexCircle(3)", "U(2,2,qr)", "ComplexGrassmann(3,1,1)", "Product[Sphere(3,), Euclidean(2, 3)]", "Product[Sphere(3,)]", "Product[FixedRankEmbedded(5,4,2), Euclidean(3,)]",
           "Product[Stiefel(3,2,2,qr), PoincareBall(3,1), Sphere(3,)]", "Product[SO(3,1,qr), SO(3,1,qr)]", "Product[ComplexCircle(3), U(2,2,qr)]",
           "Product[Positive(2,3,1,True), SymmetricPositiveDefinite(3,1), Euclidean(3,)]", "Product[Oblique(3,2), ComplexEuclidean(2, 2), FixedRankEmbedded(4,3,1)]"]


def record(scripts, quick, autos, rng):
    byname = {c.name: c for c in mfs.configs()}
    short = [s for s in scripts if not s["h"]]
    long = [s for s in scripts if s["h"]]
    traces = []
    with core.Capture(), np.errstate(all="ignore"):
        for i, name in enumerate(LAYOUTS):
            w = World(byname[name], core.SEED * 31 + i)
            for s in short if core.THOROUGH else rng.sample(short, 50):
                traces.append(play(w, s, "numpy" if s["c"]["be"] == "numpy" else rng.choice(autos), rng, {}))
                todo = list(long)
            rng.shuffle(todo)
            for s in todo[:quick]:
                mode = {k: bool(rng.randrange(2)) for k in ("held", "shared", "buffer")}
                be = "numpy" if s["c"]["be"] == "numpy" else rng.choice(autos)
                traces.append(play(w, s, be, rng, mode))
    return traces


def key(t, c):
    return f"{t['name']}: {c[0]}"


def describe(t, c):
    return f"{t['name']} {t['c']} {t['plain']} {t.get('mode')} {[(a['op'], a['pt']) for a in t['acc']]}: {c}"


def sample(chk, count):
    """Uses of real problems (used by C26)."""
    return record(sorted(chk.model("ProblemMC").emits, key=core.dumps), count, ["autograd"], random.Random(core.SEED * 13 + 26))


def run(chk):
    rng = random.Random(core.SEED * 13 + 11)
    scripts = sorted(chk.model("ProblemMC").emits, key=core.dumps)
    traces = record(scripts, 2500 if core.THOROUGH else 200, ["autograd"] * 4 + ["jax", "pytorch"] + (["tensorflow"] if core.THOROUGH else []), rng)
    chk.validate("ProblemTrace", traces, key=key, describe=describe)
