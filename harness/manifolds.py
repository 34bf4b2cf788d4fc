"""Manifold configurations (constructor + descriptor of Geometry.tla) and the executor of protocol histories."""
import copy
import warnings

import numpy as np

import core

pymanopt = core.load_pymanopt(core.BACKENDS)
from pymanopt import manifolds as mf  # noqa: E402

SPAN = np.array([[1.0, 0.5, -0.3], [0.2, 1.0, 0.0], [-0.7, 0.4, 1.0], [0.0, -1.0, 0.6], [1.0, 0.0, 0.3]])


def desc(kind, shape, k=1, cplx=False, retr="", par=False, span=None, comp=False, f=()):
    return {"kind": kind, "shape": [int(s) for s in shape], "k": k, "cplx": cplx, "retr": retr, "par": par,
            "span": span.tolist() if span is not None else [], "comp": comp, "f": list(f)}


def grow(m, n, p=None):
    a = np.zeros((m, n))
    for i in range(min(m, n)):
        a[i, i] = 1.0
    return a


class Config:
    def __init__(self, name, make, d, std=None, single=None):
        self.name, self.make, self.d, self._std, self.single = name, make, d, std, single
        self.man = make()
        self.factors = []
        self.caps = capabilities(d)

    def std(self):
        if self.d["kind"] == "prod":
            return [c.std() for c in self.factors]
        x = self._std()
        if self.d["k"] > 1:
            # distinct slices: the standard point and random ones
            y = self.man.random_point()
            y = np.array(y, copy=True)
            y[0] = x
            return y
        return x

    @property
    def kind(self):
        return self.d["kind"]


NOEXP = {"fr", "ell"}
NOLOG = {"st", "fr", "ell"}
NOMEAN = {"st", "fr", "ell", "gr", "psd", "pd", "spd", "pos"}
NOHESS = {"spd", "fr"}
WEIN = {"st", "sph", "sphsub"}


def capabilities(d):
    if d["kind"] == "prod":
        cs = [capabilities(f) for f in d["f"]]
        return {k: all(c[k] for c in cs) for k in cs[0]}
    k = d["kind"]
    mean = k not in NOMEAN
    if k == "sphsub":
        mean = True
    return {"exp": k not in NOEXP, "log": k not in NOLOG, "dist": k not in NOLOG, "mean": mean, "hess": k not in NOHESS, "transp": k != "pb", "retr": True}


def eye_like(n, p, cplx=False):
    a = np.eye(n)[:, :p]
    return a.astype(complex) if cplx else a


def configs():
    C = []

    def add(name, make, d, std, single=None):
        C.append(Config(name, make, d, std, single))

    for sh in [(3,), (2, 3), (2, 2, 2), (1,)]:
        add(f"Euclidean{sh}", lambda sh=sh: mf.Euclidean(*sh), desc("euc", sh), lambda sh=sh: np.zeros(sh))
    for sh in [(3,), (2, 2), (1, 2, 2)]:
        add(f"ComplexEuclidean{sh}", lambda sh=sh: mf.ComplexEuclidean(*sh), desc("euc", sh, cplx=True), lambda sh=sh: np.zeros(sh, dtype=complex))
    for n, k in [(3, 1), (2, 3), (1, 1)]:
        add(f"Symmetric({n},{k})", lambda n=n, k=k: mf.Symmetric(n, k), desc("sym", (n, n), k), lambda n=n: np.eye(n), lambda n=n: mf.Symmetric(n))
    for n, k in [(3, 1), (2, 3), (4, 2)]:
        add(f"SkewSymmetric({n},{k})", lambda n=n, k=k: mf.SkewSymmetric(n, k), desc("skew", (n, n), k), lambda n=n: np.zeros((n, n)), lambda n=n: mf.SkewSymmetric(n))
    for sh in [(3,), (2,), (2, 3), (2, 2, 2)]:
        def std(sh=sh):
            a = np.zeros(sh)
            a.flat[0] = 1.0
            return a
        add(f"Sphere{sh}", lambda sh=sh: mf.Sphere(*sh), desc("sph", sh), std)

    def substd(P):
        return lambda: (P @ np.eye(5)[0]) / np.linalg.norm(P @ np.eye(5)[0])
    q = np.linalg.qr(SPAN)[0]
    add("SphereSubspaceIntersection", lambda: mf.SphereSubspaceIntersection(SPAN), desc("sphsub", (5,), span=SPAN), substd(q @ q.T))
    dep = np.column_stack([SPAN[:, 0], SPAN[:, 1], SPAN[:, 0] + SPAN[:, 1]])
    qd = np.linalg.qr(SPAN[:, :2])[0]
    add("SphereSubspaceIntersection(dependent)", lambda: mf.SphereSubspaceIntersection(dep), desc("sphsub", (5,), span=dep), substd(qd @ qd.T))
    q2 = np.linalg.qr(SPAN[:, :2])[0]
    add("SphereSubspaceComplementIntersection", lambda: mf.SphereSubspaceComplementIntersection(SPAN[:, :2]), desc("sphsub", (5,), span=SPAN[:, :2], comp=True), substd(np.eye(5) - q2 @ q2.T))
    add("SphereSubspaceComplementIntersection(dependent)", lambda: mf.SphereSubspaceComplementIntersection(dep), desc("sphsub", (5,), span=dep, comp=True), substd(np.eye(5) - q2 @ q2.T))
    for m, n in [(3, 2), (2, 3), (4, 1)]:
        add(f"Oblique({m},{n})", lambda m=m, n=n: mf.Oblique(m, n), desc("obl", (m, n)), lambda m=m, n=n: np.eye(m)[:, [j % m for j in range(n)]])
    for retr in ("qr", "polar"):
        for n, p, k in [(4, 2, 1), (3, 3, 1), (3, 1, 1), (4, 2, 3), (3, 2, 2), (2, 1, 5)]:
            add(f"Stiefel({n},{p},{k},{retr})", lambda n=n, p=p, k=k, retr=retr: mf.Stiefel(n, p, k=k, retraction=retr), desc("st", (n, p), k, retr=retr),
                lambda n=n, p=p: eye_like(n, p), lambda n=n, p=p, retr=retr: mf.Stiefel(n, p, retraction=retr))
    for cplx in (False, True):
        cls = mf.ComplexGrassmann if cplx else mf.Grassmann
        for n, p, k in [(5, 2, 1), (4, 3, 1), (3, 1, 1), (4, 2, 3), (3, 1, 2), (3, 2, 4)]:
            add(f"{cls.__name__}({n},{p},{k})", lambda n=n, p=p, k=k, cls=cls: cls(n, p, k=k), desc("gr", (n, p), k, cplx=cplx),
                lambda n=n, p=p, cplx=cplx: eye_like(n, p, cplx), lambda n=n, p=p, cls=cls: cls(n, p))
    for n in (1, 3):
        add(f"ComplexCircle({n})", lambda n=n: mf.ComplexCircle(n), desc("cc", (n,), cplx=True), lambda n=n: np.array([1, 1j, -1][:n], dtype=complex))
    for retr in ("qr", "polar"):
        for n, k in [(3, 1), (2, 1), (4, 1), (3, 2), (2, 6)]:
            add(f"SO({n},{k},{retr})", lambda n=n, k=k, retr=retr: mf.SpecialOrthogonalGroup(n, k=k, retraction=retr), desc("so", (n, n), k, retr=retr),
                lambda n=n: np.eye(n), lambda n=n, retr=retr: mf.SpecialOrthogonalGroup(n, retraction=retr))
        for n, k in [(3, 1), (1, 1), (2, 2), (1, 2)]:
            add(f"U({n},{k},{retr})", lambda n=n, k=k, retr=retr: mf.UnitaryGroup(n, k=k, retraction=retr), desc("u", (n, n), k, cplx=True, retr=retr),
                lambda n=n: np.eye(n, dtype=complex), lambda n=n, retr=retr: mf.UnitaryGroup(n, retraction=retr))
    for cls, kind, cplx, sizes in [(mf.SymmetricPositiveDefinite, "pd", False, [(3, 1), (1, 1), (2, 3), (3, 2), (2, 5)]),
                                   (mf.HermitianPositiveDefinite, "pd", True, [(3, 1), (2, 1), (2, 3)]),
                                   (mf.SpecialHermitianPositiveDefinite, "spd", True, [(3, 1), (2, 1), (2, 3)])]:
        for n, k in sizes:
            add(f"{cls.__name__}({n},{k})", lambda n=n, k=k, cls=cls: cls(n, k=k), desc(kind, (n, n), k, cplx=cplx),
                lambda n=n, cplx=cplx: np.eye(n, dtype=complex if cplx else float), lambda n=n, cls=cls: cls(n))
    for n, k in [(4, 2), (3, 1), (3, 3)]:
        add(f"PSDFixedRank({n},{k})", lambda n=n, k=k: mf.PSDFixedRank(n, k), desc("psd", (n, k)), lambda n=n, k=k: np.eye(n)[:, :k] * np.arange(1, k + 1))
        add(f"PSDFixedRankComplex({n},{k})", lambda n=n, k=k: mf.PSDFixedRankComplex(n, k), desc("psd", (n, k), cplx=True), lambda n=n, k=k: np.eye(n, dtype=complex)[:, :k] * np.arange(1, k + 1))

    def ellstd(n, k):
        a = np.eye(n)[:, :k]
        a[k:, :] = np.ones((n - k, k)) / np.sqrt(k)
        return a
    for n, k in [(4, 2), (4, 3), (3, 3), (5, 2)]:
        add(f"Elliptope({n},{k})", lambda n=n, k=k: mf.Elliptope(n, k), desc("ell", (n, k)), lambda n=n, k=k: ellstd(n, k))
    for m, n, k in [(5, 4, 2), (3, 3, 2), (4, 3, 1), (3, 5, 3)]:
        def frstd(m=m, n=n, k=k):
            M = mf.FixedRankEmbedded(m, n, k)
            x = M.random_point()
            return type(x)(np.eye(m)[:, :k], np.arange(k, 0, -1.0), np.eye(n)[:k])
        add(f"FixedRankEmbedded({m},{n},{k})", lambda m=m, n=n, k=k: mf.FixedRankEmbedded(m, n, k), desc("fr", (m, n, k)), frstd)
    for m, n, k, par in [(2, 3, 1, False), (2, 2, 2, False), (2, 3, 1, True), (2, 1, 3, True)]:
        add(f"Positive({m},{n},{k},{par})", lambda m=m, n=n, k=k, par=par: mf.Positive(m, n, k=k, use_parallel_transport=par), desc("pos", (m, n), k, par=par),
            lambda m=m, n=n: np.ones((m, n)), lambda m=m, n=n, par=par: mf.Positive(m, n, use_parallel_transport=par))
    for n, k in [(3, 1), (1, 1), (2, 3)]:
        add(f"PoincareBall({n},{k})", lambda n=n, k=k: mf.PoincareBall(n, k=k), desc("pb", (n,), k), lambda n=n: np.zeros(n), lambda n=n: mf.PoincareBall(n))
    by = {c.name: c for c in C}
    prods = [["Sphere(3,)", "Euclidean(2, 3)"], ["Sphere(3,)"], ["FixedRankEmbedded(5,4,2)", "Euclidean(3,)"], ["Stiefel(3,2,2,qr)", "PoincareBall(3,1)", "Sphere(3,)"],
             ["SO(3,1,qr)", "SO(3,1,qr)"], ["ComplexCircle(3)", "U(2,2,qr)"], ["Positive(2,3,1,True)", "SymmetricPositiveDefinite(3,1)", "Euclidean(3,)"],
             ["Grassmann(3,1,1)", "PSDFixedRank(3,1)", "Symmetric(2,3)"], ["Oblique(3,2)", "ComplexEuclidean(2, 2)", "FixedRankEmbedded(4,3,1)"],
             ["HermitianPositiveDefinite(2,1)", "SphereSubspaceIntersection"], ["Sphere(3,)", "SO(3,1,qr)", "Oblique(3,2)"],
             ["Euclidean(3,)", "Sphere(3,)", "Positive(2,2,2,False)", "Euclidean(2, 3)", "Sphere(2,)"]]
    for names in prods:
        fs = [by[n] for n in names]
        c = Config("Product[" + ", ".join(names) + "]", lambda fs=fs: mf.Product([f.make() for f in fs]), desc("prod", (), 1, f=[f.d for f in fs]), None)
        c.factors = fs
        C.append(c)
    # the same manifold object several times
    for names in [["Sphere(3,)", "Sphere(3,)"], ["Euclidean(3,)", "FixedRankEmbedded(4,3,1)", "Euclidean(3,)"]]:
        fs = [by[n] for n in names]

        def same(fs=fs):
            made = {f.name: f.make() for f in fs}
            return mf.Product([made[f.name] for f in fs])
        c = Config("Product of one object[" + ", ".join(names) + "]", same, desc("prod", (), 1, f=[f.d for f in fs]), None)
        c.factors = fs
        C.append(c)
    return C


# ------------------------------------------------------------- generic helpers
def tmap(f, a, *more):
    """Applies f to the arrays of a (nested) sequence, keeping list structure."""
    if isinstance(a, (list, tuple)):
        return [tmap(f, *v) for v in zip(a, *more)]
    return f(a, *more)


def arrays(a, out=None):
    out = [] if out is None else out
    if isinstance(a, (list, tuple)):
        for v in a:
            arrays(v, out)
    elif isinstance(a, dict):
        for v in a.values():
            arrays(v, out)
    elif isinstance(a, np.ndarray):
        out.append(a)
    return out


def same_bits(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def isreal(a):
    return not any(np.iscomplexobj(v) for v in arrays(a)) if isinstance(a, (list, tuple)) else not np.iscomplexobj(a)


class Unsupported(Exception):
    pass


def lay(a, how):
    """The same values in another memory layout: column-major or a view with gaps."""
    if isinstance(a, np.ndarray) and a.ndim >= 1:
        if how == "F":
            return np.array(a, order="F")
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)[..., 1::2]
        b[...] = a
        return b
    if isinstance(a, tuple) and hasattr(a, "_fields"):
        return type(a)(*(lay(v, how) for v in a))
    if isinstance(a, (list, tuple)):
        return type(a)(lay(v, how) for v in a)
    return a


class Laid:
    """A manifold whose operations get their operands in another memory layout."""

    def __init__(self, man, how):
        self._man, self._how = man, how

    def __getattr__(self, name):
        f = getattr(self._man, name)
        if not callable(f):
            return f
        return lambda *a: f(*(lay(v, self._how) for v in a))


BIG = {"pb": 2.0, "pd": 2.0, "spd": 1.5, "pos": 3.0, "psd": 30.0, "fr": 30.0, "euc": 1e3, "sym": 1e3, "skew": 1e3, "st": 20.0, "gr": 20.0, "so": 5.0, "u": 5.0}
FAR = {"sph": 2.5, "sphsub": 2.5, "cc": 2.5, "obl": 2.5, "gr": 1.2, "so": 2.5, "u": 2.0, "pb": 2.0, "pd": 2.5, "spd": 2.0, "pos": 3.0, "euc": 1e3, "sym": 1e3, "skew": 1e3, "psd": 5.0, "st": 1.5, "ell": 1.0, "fr": 5.0}


class Run:
    """One history on one manifold; records the events that concern the property."""

    def __init__(self, cfg, pid, seed):
        self.c, self.m, self.d, self.pid = cfg, cfg.man, cfg.d, pid
        np.random.seed(seed)
        self.rng = np.random.RandomState(seed + 77)
        if pid != "C26" and seed % 4 < 2:
            self.m = Laid(cfg.man, "FS"[seed % 4])
        self.ev = []
        self.x = self.y = self.u = self.prev = None
        self.rel = ""

    # ---- calls
    def call(self, name, *args):
        f = getattr(self.m, name)
        if self.pid != "C26":
            return f(*args)
        before = copy.deepcopy([list_of(a) for a in args])
        st = np.random.get_state()
        r = f(*args)
        after = np.random.get_state()
        mut = [i for i, (a, b) in enumerate(zip(args, before)) if not same_bits(list_of(a), b)]
        keep = copy.deepcopy(list_of(r)) if isinstance(r, (list, tuple, np.ndarray)) else r
        np.random.set_state(st)
        args2 = copy.deepcopy(args)
        r2 = f(*args2)
        np.random.set_state(after)
        same = same_bits(list_of(keep), list_of(r2)) and same_bits(list_of(keep), list_of(r))
        self.ev.append({"op": "pure", "what": name, "mut": mut, "same": bool(same), "exc": ""})
        return r

    def event(self, op, pids, fn):
        """fn returns the fields of the event; exceptions of the code are recorded."""
        if self.pid not in pids and self.pid != "C26":
            return
        try:
            with np.errstate(all="ignore"):
                e = fn()
        except Unsupported:
            return
        except Exception as ex:  # noqa: BLE001
            if self.pid in pids or self.pid == "C26":
                self.ev.append({"op": op, "exc": core.exc_name(ex)})
            return
        if self.pid in pids:
            e["op"], e["exc"] = op, ""
            self.ev.append(e)

    # ---- building operands
    def rand_tangent(self, x):
        return self.call("random_tangent_vector", x)

    def scale(self, s, u):
        return s * u

    def tame(self, u, x=None, d=None):
        """u scaled down (slice by slice) to a metric norm of at most BIG where long geodesics leave the range of floats."""
        if d is None:
            x, d = self.x, self.d
        if d["kind"] == "prod":
            v = 1.0 * u          # the recorded events keep the original
            for i, f in enumerate(d["f"]):
                v[i] = self.tame(u[i], x[i], f)
            return v
        if d["kind"] not in ("pb", "pd", "spd", "pos"):
            return u
        if d["k"] > 1:
            return np.array([self.tame(u[i], x[i], dict(d, k=1)) for i in range(d["k"])])
        if d["kind"] == "pb":
            n = np.linalg.norm(u) * 2 / (1 - x @ x)
        elif d["kind"] == "pos":
            n = np.linalg.norm(u / x)
        else:
            w = np.linalg.solve(x, u)
            n = np.sqrt(abs(np.trace(w @ w)))
        return u * min(1.0, BIG[d["kind"]] / n) if n > 0 else u

    def ambient(self, x=None, d=None):
        """A random ambient vector."""
        d = d or self.d
        if d["kind"] == "prod":
            return [self.ambient(None, f) for f in d["f"]]
        sh = tuple(d["shape"]) if d["kind"] != "fr" else tuple(d["shape"][:2])
        if d["k"] > 1:
            sh = (d["k"],) + sh
        v = self.rng.standard_normal(sh)
        if d["cplx"]:
            v = v + 1j * self.rng.standard_normal(sh)
        return v

    def fr_ambient(self, d):
        m, n, k = d["shape"]
        return self.rng.standard_normal((m, k)), self.rng.standard_normal((k, k)), self.rng.standard_normal((n, k))

    def basis(self, d=None):
        d = d or self.d
        if d["kind"] == "prod":
            return [self.basis(f) for f in d["f"]]
        v = np.zeros_like(self.ambient(d=d))
        v.flat[self.rng.randint(v.size)] = 1.0 if not (d["cplx"] and self.rng.randint(2)) else 1j
        return v

    def bigness(self, table, default):
        if self.d["kind"] == "prod":
            return min(table.get(f["kind"], default) for f in self.d["f"])
        return table.get(self.d["kind"], default)

    def vector(self, prov):
        m, x = self.m, self.x
        r = lambda: self.rand_tangent(x)
        if prov == "rand":
            return r()
        if prov == "zero":
            z = self.call("zero_vector", x)
            u = r()
            self.event("zero", ["C16"], lambda: {"x": x, "r": z, "norm": m.norm(x, z), "u": u, "sum": u + z})
            return z
        if prov == "basis":
            return self.sparse(r()) if self.rng.randint(2) else self.projected(self.basis())
        if prov == "tiny":
            return self.scale(10.0 ** -self.rng.uniform(6, 8.5), r())
        if prov == "big":
            return self.scale(self.bigness(BIG, 8.0), r())
        if prov == "log":
            if not self.c.caps["log"]:
                raise Unsupported
            v = self.call("log", x, self.y)
            self.event("log", ["C16", "C19", "C20"], lambda: {"x": x, "y": self.y, "r": v, "norm": m.norm(x, v)})
            return v
        if prov == "proj":
            return self.projected(self.ambient())
        if prov == "transp":
            if not self.c.caps["transp"]:
                raise Unsupported
            w = self.rand_tangent(self.y)
            v = self.call("transport", self.y, x, w)
            return v
        if prov == "comb":
            return 2 * r() - r() / 3
        if prov == "grad":
            eg = self.egrad(self.d, self.cost_params(self.d), x)
            return self.scale(0.1, self.call("euclidean_to_riemannian_gradient", x, eg))
        raise AssertionError(prov)

    def sparse(self, u, d=None):
        """u with some of its components (factors, copies, parts of fixed-rank vectors) zero; still tangent."""
        d = d or self.d
        if d["kind"] == "prod" or d["kind"] == "fr" or d["k"] > 1:
            n = len(u)
            keep = self.rng.randint(n)
            for i in range(n):
                if i != keep and self.rng.randint(2):
                    z = [v * 0.0 for v in u] if d["kind"] == "fr" else None
                    if d["kind"] == "fr":
                        u = type(u)(*(z[j] if j == i else u[j] for j in range(n)))
                    else:
                        u[i] = u[i] * 0.0
                elif d["kind"] == "prod":
                    u[i] = self.sparse(u[i], d["f"][i])
        return u

    def projected(self, a):
        return self.call("projection", self.x, a)

    def partner(self, rel):
        m, x = self.m, self.x
        if rel == "same":
            return x
        if rel == "copy":
            return copy.deepcopy(x)
        if rel == "prev":
            return self.prev
        if rel == "near":
            return m.retraction(x, self.scale(10.0 ** -self.rng.uniform(1, 4), m.random_tangent_vector(x)))
        if rel == "tiny":
            return m.retraction(x, self.scale(1e-7, m.random_tangent_vector(x)))
        if rel == "far":
            op = m.exp if self.c.caps["exp"] else m.retraction
            return op(x, self.scale(self.bigness(FAR, 1.0), m.random_tangent_vector(x)))
        if rel == "mixed":
            y = m.random_point()
            if self.d["kind"] == "prod":
                return [x[0]] + list(y[1:])
            if self.d["k"] > 1 or self.d["kind"] in ("cc", "pos"):
                y = np.array(y)
                y[0] = x[0]
            elif self.d["kind"] == "obl":
                y = np.array(y)
                y[:, 0] = x[:, 0]
            return y
        return m.random_point()

    def stiff(self, d, x):
        """A point with entries or eigenvalues of different magnitude."""
        rng = self.rng
        k = d["kind"]
        if k == "prod":
            return type(x)([self.stiff(f, a) for f, a in zip(d["f"], x)])
        if k == "fr":
            u, s, vt = x
            s = np.sort(s * 10.0 ** -rng.uniform(0, rng.choice([2, 4, 8]), s.size))[::-1].copy()
            return type(x)(u, s, vt)
        if k in ("euc", "sym", "skew", "pos"):
            return x * 10.0 ** rng.uniform(-3, 3)
        if k in ("pd", "spd", "psd") and d["k"] > 1:
            return np.array([self.stiff(dict(d, k=1), a) for a in x])
        if k in ("pd", "spd"):
            n = len(x)
            w = 10.0 ** rng.uniform(-1, 1, n)
            a = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if np.iscomplexobj(x) else 0)
            q = np.linalg.qr(a)[0]
            b = (q * w) @ q.conj().T
            y = b @ x @ b.conj().T
            y = (y + y.conj().T) / 2
            return y / np.linalg.det(y).real ** (1 / n) if k == "spd" else y
        if k == "psd":
            return x * 10.0 ** rng.uniform(-1.5, 1.5, x.shape[1])
        return x

    def opposite(self, d, x):
        """A point on the cut locus of x in some component, or None."""
        rng = self.rng
        if d["kind"] == "prod":
            ys = [self.opposite(f, a) for f, a in zip(d["f"], x)]
            if all(y is None for y in ys):
                return None
            ys = [f.man.random_point() if y is None or rng.rand() < 0.3 else y for f, y in zip(self.c.factors, ys)]
            return ys
        if d["k"] > 1:
            ys = [self.opposite(dict(d, k=1), a) for a in x]
            return None if ys[0] is None else np.array([y if rng.rand() < 0.6 else a for y, a in zip(ys, x)])
        k = d["kind"]
        if k in ("sph", "sphsub"):
            return -x
        if k in ("obl", "cc"):
            s = np.where(rng.rand(x.shape[-1]) < 0.6, -1.0, 1.0)
            s[rng.randint(s.size)] = -1.0
            return x * s
        if k in ("gr", "psd"):
            n, p = x.shape
            if n == p:
                return None
            q = np.linalg.qr(np.hstack([x, np.eye(n)[:, :n - p] + 0.1 * rng.standard_normal((n, n - p))]))[0][:, p:]
            r = min(p, n - p) if rng.rand() < 0.5 else 1
            y = x.copy()
            y[:, :r] = q[:, :r]
            return y
        if k in ("so", "u"):
            n = x.shape[-1]
            a = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if k == "u" else 0)
            q = np.linalg.qr(a)[0]
            if k == "so" and n < 2:
                return None
            w = np.ones(n, dtype=x.dtype)
            w[:2 if k == "so" else 1] = -1
            if rng.rand() < 0.3:
                w[:n // 2 * 2] = -1
            return x @ (q * w) @ q.conj().T
        return None

    # ---- test costs (Geometry: CostF, CostG, CostH)
    def cost_params(self, d):
        if d["kind"] == "prod":
            return [self.cost_params(f) for f in d["f"]]
        if d["k"] > 1:
            return [self.cost_params(dict(d, k=1)) for _ in range(d["k"])]
        if d["kind"] in ("gr", "psd", "ell"):
            n = d["shape"][0]

            def herm():
                a = self.rng.standard_normal((n, n))
                if d["cplx"]:
                    a = a + 1j * self.rng.standard_normal((n, n))
                return (a + a.conj().T) / 2
            return {"A": herm(), "B": 0.0, "C": herm()}
        sh = tuple(d["shape"]) if d["kind"] != "fr" else tuple(d["shape"][:2])
        z = lambda: self.rng.standard_normal(sh) + (1j * self.rng.standard_normal(sh) if d["cplx"] else 0)
        return {"A": self.rng.standard_normal(sh), "B": z(), "C": z() / 2}

    def egrad(self, d, c, x):
        if d["kind"] == "prod":
            return [self.egrad(f, c[i], x[i]) for i, f in enumerate(d["f"])]
        if d["k"] > 1:
            return np.array([self.egrad(dict(d, k=1), c[i], x[i]) for i in range(d["k"])])
        if d["kind"] in ("gr", "psd", "ell"):
            K = x.conj().T @ c["C"] @ x
            return c["A"] @ x + c["C"] @ x @ K
        X = x if d["kind"] != "fr" else x[0] @ np.diag(x[1]) @ x[2]
        G = c["A"] * X + c["B"] + np.real(np.vdot(c["C"], X)) * c["C"]
        if d["kind"] == "fr":
            u, s, vt = x
            return [G @ vt.T * s, np.diag(u.T @ G @ vt.T).copy(), s[:, None] * (u.T @ G)]
        return G

    def ehess(self, d, c, x, u):
        """u: ambient representation of the direction."""
        if d["kind"] == "prod":
            return [self.ehess(f, c[i], x[i], u[i]) for i, f in enumerate(d["f"])]
        if d["k"] > 1:
            return np.array([self.ehess(dict(d, k=1), c[i], x[i], u[i]) for i in range(d["k"])])
        if d["kind"] in ("gr", "psd", "ell"):
            C = c["C"]
            K = x.conj().T @ C @ x
            return c["A"] @ u + C @ u @ K + C @ x @ (u.conj().T @ C @ x + x.conj().T @ C @ u)
        return c["A"] * u + np.real(np.vdot(c["C"], u)) * c["C"]

    # ---- the history
    def step(self, s):
        m = self.m
        if s[0] == "point":
            if s[1] == "rand":
                self.x = self.call("random_point")
                x = self.x
                self.event("random_point", ["C15"], lambda: {"r": x, "r2": self.m.random_point(), "real": bool(isreal(x))})
                if self.rng.randint(2 if self.d["kind"] == "fr" else 3) == 0:
                    self.x = self.stiff(self.d, x)
            else:
                self.x = self.c.std()
            self.y = self.u = None
        elif s[0] == "partner":
            self.y, self.rel = self.partner(s[1]), s[1]
        elif s[0] == "vector":
            self.u = self.tame(self.vector(s[1]))
        elif s[0] in ("exp", "retr"):
            if not self.c.caps[s[0]]:
                raise Unsupported
            self.move(s[0])
        elif s[0] == "mean":
            if not self.c.caps["mean"]:
                raise Unsupported
            x, y = self.x, self.y
            r = self.call("pair_mean", x, y)
            self.event("mean", ["C15", "C20"], lambda: {"x": x, "y": y, "r": r})
            self.prev, self.x, self.y, self.u = x, r, None, None

    def move(self, op):
        x, u = self.x, self.u
        r = self.call("exp" if op == "exp" else "retraction", x, u)
        if op == "exp":
            self.event("exp", ["C15", "C20"], lambda: {"x": x, "u": u, "r": r})
        else:
            self.event("retr", ["C15", "C21"], lambda: {"x": x, "u": u, "r": r, "r0": self.call("retraction", x, self.m.zero_vector(x))})
        if self.d["kind"] == "fr" and op == "retr":    # along each part of the vector alone
            for i in range(3):
                w = type(u)(*(a if j == i else 0.0 * a for j, a in enumerate(u)))
                self.event("retr", ["C15", "C21"], lambda w=w: {"x": x, "u": w, "r": self.call("retraction", x, w), "r0": x})
        self.prev, self.x, self.y, self.u = x, r, None, None

    def play(self, h):
        try:
            with core.Capture(), np.errstate(all="ignore"):
                for s in h:
                    self.step(s)
                self.observe()
        except Unsupported:
            return False
        except core.MachineryError:
            raise
        except Exception as ex:  # noqa: BLE001
            self.ev.append({"op": str(s[0]), "exc": core.exc_name(ex)})
        return True

    def observe(self):
        m, x, y, u, c, P = self.m, self.x, self.y, self.u, self.c, self.pid
        v = self.rand_tangent(x)
        al, be = 1.7, -0.6

        def lin(a, b):
            return al * a + be * b
        L = {"al": al, "be": be}
        sc = lambda: float(self.rng.choice([1e-12, 1e-6, 1e8]))
        ev = self.event
        ev("rand_tangent", ["C16"], lambda: {"x": x, "r": v})
        if c.caps["exp"]:
            ev("exp", ["C15", "C20"], lambda: {"x": x, "u": u, "r": self.call("exp", x, u)})

            def short():
                w = self.scale(10.0 ** -self.rng.uniform(2, 8.5), v)
                return {"x": x, "u": w, "r": m.exp(x, w)}
            ev("exp", ["C15", "C20"], short)
        ev("retr", ["C15", "C21"], lambda: {"x": x, "u": u, "r": self.call("retraction", x, u), "r0": self.call("retraction", x, m.zero_vector(x))})
        if P == "C21":
            for s in (1e-3, 30.0):
                if s < 1 or self.bigness(BIG, 8.0) > 3:
                    w = self.scale(s, v)
                    ev("retr", ["C21"], lambda: {"x": x, "u": w, "r": m.retraction(x, w), "r0": m.retraction(x, 0 * w)})
        if self.d["kind"] == "fr":
            xs = type(x)(x[0], x[1] * 1e-7, x[2])
            w = self.scale(10.0 ** -self.rng.uniform(7, 10), m.random_tangent_vector(xs))
            ev("retr", ["C21"], lambda: {"x": xs, "u": w, "r": m.retraction(xs, w), "r0": m.retraction(xs, 0 * w)})
        if c.caps["log"]:
            def log(y):
                r = self.call("log", x, y)
                return {"x": x, "y": y, "r": r, "norm": m.norm(x, r)}
            ev("log", ["C16", "C19", "C20"], lambda: log(y))
            ev("log", ["C19", "C20"], lambda: log(self.partner("near")))
        if c.caps["mean"]:
            ev("mean", ["C15", "C20"], lambda: {"x": x, "y": y, "r": self.call("pair_mean", x, y)})
        if c.caps["dist"]:
            def dist(y):
                z = m.random_point()
                return {"x": x, "y": y, "z": z, "r": self.call("dist", x, y), "r2": m.dist(y, x), "rxz": m.dist(x, z), "rzy": m.dist(z, y), "rxx": m.dist(x, x)}
            ev("dist", ["C19"], lambda: dist(y))
            ev("dist", ["C19"], lambda: dist(self.partner("near")))
            opp = self.opposite(self.d, x)
            if opp is not None:
                ev("dist", ["C19"], lambda: dist(opp))
        ev("inner", ["C18"], lambda: dict(L, x=x, u=u, v=v, r=self.call("inner_product", x, u, v), r2=m.inner_product(x, v, u), rc=m.inner_product(x, u, lin(u, v)), ruu=m.inner_product(x, u, u), s=1e-9, rs=m.inner_product(x, 1e-9 * u, 1e-9 * v)))
        ev("norm", ["C18"], lambda: {"x": x, "u": u, "r": self.call("norm", x, u), "s": 1e-60, "rs": m.norm(x, 1e-60 * u)})
        ev("norm", ["C18"], lambda: {"x": x, "u": v, "r": self.call("norm", x, v), "s": 1e60, "rs": m.norm(x, 1e60 * v)})

        def proj(a, b):
            e = dict(L, x=x, u=v, a=a, r=self.call("projection", x, a), b=b, lin=b is not None)
            e["s"] = sc()
            e["rs"] = m.projection(x, tmap(lambda q: e["s"] * q, a) if self.d["kind"] != "fr" or b is not None else (a[0], e["s"] * a[1], a[2]))
            if b is not None:
                e["rb"] = m.projection(x, b)
                e["rc"] = m.projection(x, tmap(lin, a, b))
            else:
                e["b"], e["rb"], e["rc"] = 0.0, 0.0, 0.0
            return e
        ev("proj", ["C16", "C17"], lambda: proj(self.ambient(), self.ambient()))
        ev("proj", ["C17"], lambda: proj(self.basis(), self.ambient()))
        if self.d["kind"] == "fr":
            def projt():
                a = self.fr_ambient(self.d)
                e = proj(a, None)
                e["amat"] = a[0] @ a[1] @ a[2].T
                return e
            ev("proj", ["C16", "C17"], projt)
        frs = [f["kind"] == "fr" for f in (self.d["f"] or [self.d])]

        def projtan(w):
            e = self.call("embedding", x, w)
            r = self.call("projection", x, e)
            return {"x": x, "u": w, "e": e if not any(frs) else 0.0, "embok": not any(frs), "r": r}
        if not (self.d["kind"] == "prod" and any(frs)):
            ev("projtan", ["C17"], lambda: projtan(u))
            ev("projtan", ["C17"], lambda: projtan(v))

        def tts(w, arb):
            r = self.call("to_tangent_space", x, w)
            return {"x": x, "u": w, "r": r, "wok": arb is not None, "rw": m.to_tangent_space(x, arb) if arb is not None else 0.0}
        arb = None
        if self.d["kind"] not in ("fr", "prod"):
            arb = self.ambient()
        elif self.d["kind"] == "fr":
            mm, nn, k = self.d["shape"]
            arb = type(v)(*(self.rng.standard_normal(s) for s in ((mm, k), (k, k), (nn, k))))
        ev("tts", ["C16"], lambda: tts(u, arb))

        def transport():
            a, b = u, v
            ru, rv = self.call("transport", x, y, a), m.transport(x, y, b)
            return dict(L, x=x, y=y, u=a, v=b, ru=ru, rv=rv, rc=m.transport(x, y, lin(a, b)), s=(s := sc()), rs=m.transport(x, y, s * b), rx=m.transport(x, x, a), close=self.rel == "tiny")
        if c.caps["transp"]:
            ev("transport", ["C16", "C22"], transport)

        def grad():
            cp = self.cost_params(self.d)
            eg = self.egrad(self.d, cp, x)
            r = self.call("euclidean_to_riemannian_gradient", x, eg)
            s = sc()
            return {"x": x, "c": cp, "r": r, "us": [u, v, m.random_tangent_vector(x)], "cond": self.gcond(x, self.d), "s": s, "rs": m.euclidean_to_riemannian_gradient(x, tmap(lambda a: s * a, eg))}
        ev("grad", ["C13", "C16"], grad)
        if c.caps["hess"]:
            def hess():
                cp = self.cost_params(self.d)
                eg = self.egrad(self.d, cp, x)

                def H(w):
                    eh = self.ehess(self.d, cp, x, m.embedding(x, w))
                    return self.call("euclidean_to_riemannian_hessian", x, eg, eh, w), eh
                hu, eh = H(u)
                s = sc()
                hus = m.euclidean_to_riemannian_hessian(x, tmap(lambda a: s * a, eg), tmap(lambda a: s * a, eh), u)
                hs = max([1.0] + [float(np.max(np.abs(a))) for a in arrays(H(v)[1])])
                return dict(L, x=x, c=cp, u=u, v=v, hu=hu, hv=H(v)[0], hc=H(lin(u, v))[0], hs=hs, s=s, hus=hus)
            ev("hess", ["C14", "C16"], hess)
        if self.d["kind"] in WEIN and self.d["k"] == 1:
            def wein():
                n = self.ambient()
                n = n - m.projection(x, n)
                return {"x": x, "u": u, "v": v, "n": n, "ru": self.call("weingarten", x, u, n), "rv": m.weingarten(x, v, n)}
            ev("wein", ["C14"], wein)
        if P in ("C23", "C25"):
            self.parts()
        if P == "C27":
            self.representatives()

    def gcond(self, x, d):
        if d["kind"] == "prod":
            return max(self.gcond(x[i], f) for i, f in enumerate(d["f"]))
        if d["kind"] == "fr":
            s = np.asarray(x[1])
            g = [abs(a * a - b * b) for i, a in enumerate(s) for b in s[:i]] + [1.0]
            return float(max(1.0, s.max() ** 2 / min(g), 1 / s.min() ** 2))
        return 1.0

    # ---- components (C23, C25)
    def component_manifolds(self):
        if self.d["kind"] == "prod":
            return [f.man for f in self.c.factors]
        one = self.c.single()
        return [one] * self.d["k"]

    def parts(self):
        x, y, u, m = self.x, self.y, self.u, self.m
        v = m.random_tangent_vector(x)
        ms = self.component_manifolds()
        if isinstance(m, Laid):
            ms = [Laid(a, m._how) for a in ms]
        pid = ["C23", "C25"]
        caps = self.c.caps
        cp = self.cost_params(self.d)
        eg = self.egrad(self.d, cp, x)

        def part(what, how, args, red=None):
            def fn():
                r = getattr(m, what)(*args)
                ps = [getattr(ms[i], what)(*[a[i] for a in args]) for i in range(len(ms))]
                sc = max([1.0] + [float(np.max(np.abs(q), initial=0.0)) for a in args for q in arrays(a)])
                return {"what": what, "how": how, "r": r, "parts": ps, "scale": sc * sc, "dtol": 100.0}
            self.event("parts", pid, fn)
        part("inner_product", "sum", (x, u, v))
        part("norm", "rss", (x, u))
        for op, on, args, how in [("exp", caps["exp"], (x, u), "class"), ("retraction", True, (x, u), "class"), ("log", caps["log"], (x, y), "each"),
                                  ("pair_mean", caps["mean"], (x, y), "each"), ("transport", caps["transp"], (x, y, v), "each"), ("zero_vector", True, (x,), "each"),
                                  ("to_tangent_space", True, (x, u), "each"), ("embedding", not any(f["kind"] == "fr" for f in self.d["f"]), (x, u), "each"),
                                  ("projection", True, (x, self.ambient()), "each"), ("euclidean_to_riemannian_gradient", True, (x, eg), "each")]:
            if on:
                part(op, how, args)
        if caps["dist"]:
            part("dist", "rss", (x, y))
        if caps["hess"]:
            eh = self.ehess(self.d, cp, x, m.embedding(x, u))
            part("euclidean_to_riemannian_hessian", "each", (x, eg, eh, u))
        if self.d["kind"] == "pb":
            part("conformal_factor", "each", (x,))
        self.event("parts", pid, lambda: {"what": "dim", "how": "isum", "r": int(m.dim), "parts": [int(a.dim) for a in ms], "scale": 1.0, "dtol": 1.0})
        # random points and vectors have independent components
        dr = lambda op, args: self.event("parts", pid, lambda: {"what": op, "how": "distinct", "r": getattr(m, op)(*args), "parts": [f.name for f in self.c.factors] if self.d["kind"] == "prod" else ["-"] * len(ms), "scale": 1.0, "dtol": 1.0})
        dr("random_point", ())
        if min(int(a.dim) for a in ms) > 1:
            dr("random_tangent_vector", (type(x)([copy.deepcopy(x[0])] * len(ms)) if self.d["kind"] != "prod" and isinstance(x, list) else np.array([x[0]] * len(ms)) if self.d["kind"] != "prod" else x,))
        if self.d["kind"] != "pb":
            self.event("parts", pid, lambda: {"what": "typical_dist", "how": "rss", "r": m.typical_dist, "parts": [a.typical_dist for a in ms], "scale": 1.0, "dtol": 1.0})

    # ---- equivalent representatives (C27)
    def group(self):
        d = self.d
        p = d["shape"][1]

        def one():
            kind = self.rng.randint(3)
            if kind == 0:
                a = self.rng.standard_normal((p, p)) + (1j * self.rng.standard_normal((p, p)) if d["cplx"] else 0)
                return np.linalg.qr(a)[0]
            if kind == 1:
                return np.eye(p)[self.rng.permutation(p)] + (0j if d["cplx"] else 0)
            ph = np.exp(2j * np.pi * self.rng.uniform(size=p)) if d["cplx"] else self.rng.choice([-1.0, 1.0], size=p)
            return np.diag(ph)
        return np.array([one() for _ in range(d["k"])]) if d["k"] > 1 else one()

    def representatives(self):
        m, x, y, u, caps = self.m, self.x, self.y, self.u, self.c.caps
        v = m.random_tangent_vector(x)
        q, q2 = self.group(), self.group()
        xq, yq, uq, vq = x @ q, y @ q2, u @ q, v @ q
        cp = self.cost_params(self.d)
        sc = float(max(1.0, np.abs(x).max() ** 2, np.abs(y).max() ** 2, np.abs(u).max() ** 2))

        def rec(what, how, f, g, scale=sc):
            self.event("repr", ["C27"], lambda: {"what": what, "how": how, "x": x, "q": q, "r": f(), "rq": g(), "scale": scale})
        rec("inner product", "num", lambda: m.inner_product(x, u, v), lambda: m.inner_product(xq, uq, vq))
        rec("norm", "num", lambda: m.norm(x, u), lambda: m.norm(xq, uq))
        rec("retraction", "point", lambda: m.retraction(x, u), lambda: m.retraction(xq, uq))
        if caps["exp"]:
            rec("exponential", "point", lambda: m.exp(x, u), lambda: m.exp(xq, uq))
        if caps["dist"]:
            rec("distance", "num", lambda: m.dist(x, y), lambda: m.dist(xq, yq))
        if caps["log"] and self.rel not in ("far",):
            rec("logarithm", "vec", lambda: m.log(x, y), lambda: m.log(xq, yq))
        a = self.ambient()
        rec("projection", "vec", lambda: m.projection(x, a), lambda: m.projection(xq, a @ q), 10.0 * sc)
        e, eq = self.egrad(self.d, cp, x), self.egrad(self.d, cp, xq)
        es = float(np.abs(e).max()) * sc * 10
        rec("gradient", "vec", lambda: m.euclidean_to_riemannian_gradient(x, e), lambda: m.euclidean_to_riemannian_gradient(xq, eq), es)
        if caps["hess"]:
            h, hq = self.ehess(self.d, cp, x, u), self.ehess(self.d, cp, xq, uq)
            hs = es + float(np.abs(h).max()) * sc * 10
            rec("Hessian", "vec", lambda: m.euclidean_to_riemannian_hessian(x, e, h, u), lambda: m.euclidean_to_riemannian_hessian(xq, eq, hq, uq), hs)


def list_of(a):
    return [list_of(v) for v in a] if isinstance(a, (list, tuple)) else a
