"""C13-C27: manifold operations.

The histories enumerated by Protocol.tla (how the point, its partner and the
vector came about) are played on every manifold configuration; the calls that
concern the property are recorded and judged by ManifoldTrace.tla, whose
oracles are the definitions in Geometry.tla.  GeometryMC.tla checks these
definitions against each other first.
"""
import random
import zlib

import numpy as np

import core
import manifolds as mfs

# number of histories per configuration (quick, thorough)
BUDGET = {"C13": (14, 120), "C14": (10, 80), "C15": (14, 140), "C16": (10, 80), "C17": (10, 90), "C18": (12, 120), "C19": (14, 120),
          "C20": (14, 120), "C21": (14, 120), "C22": (14, 120), "C23": (16, 120), "C25": (10, 80), "C26": (10, 60), "C27": (12, 100)}


def pairs(s):
    px = "-".join(s["px"])
    return {("xy", px, s["py"]), ("yu", s["py"], s["pu"]), ("xu", px, s["pu"])}


def supported(caps, s):
    for st in s["h"]:
        if st[0] == "exp" and not caps["exp"] or st[0] == "mean" and not caps["mean"]:
            return False
        if st[0] == "vector" and (st[1] == "log" and not caps["log"] or st[1] == "transp" and not caps["transp"]):
            return False
    return True


def choose(scripts, cfg, n, seen, rng):
    """n supported histories, those first that add uncovered pairs of provenances for this kind of manifold."""
    ok = [s for s in scripts if supported(cfg.caps, s)]
    rng.shuffle(ok)
    out = []
    for want in (3, 2, 1, 0):
        for s in ok:
            if len(out) >= n:
                return out
            p = pairs(s) - seen
            if len(p) >= want and s not in out:
                seen |= pairs(s)
                out.append(s)
    return out


def wanted(cfg, pid):
    if pid == "C23":
        return cfg.kind == "prod"
    if pid == "C25":
        return cfg.d["k"] > 1 and cfg.single is not None
    if pid == "C27":
        return cfg.kind in ("gr", "psd", "ell")
    if pid == "C14":
        return cfg.caps["hess"] or cfg.kind in mfs.WEIN
    if pid == "C19":
        return cfg.caps["dist"]
    if pid == "C20":
        return cfg.caps["exp"] or cfg.caps["log"]
    return True


def record(pid, scripts, cfgs, budget):
    traces, cov, hist = [], {}, 0
    for cfg in cfgs:
        if not wanted(cfg, pid):
            continue
        rng = random.Random(core.SEED * 1000003 + zlib.crc32((pid + cfg.name).encode()))
        seen = cov.setdefault(cfg.kind, set())
        for n, s in enumerate(choose(scripts, cfg, budget, seen, rng)):
            r = mfs.Run(cfg, pid, (core.SEED * 7919 + zlib.crc32((cfg.name + str(n)).encode())) % (1 << 31))
            if not r.play(s["h"]) or not r.ev:
                continue
            hist += 1
            traces.append({"name": cfg.name, "h0": s["h"], "m": cfg.d, "h": core.enc(r.ev)})
    return traces, cov


def describe(t, c):
    e = t["h"][c[1] - 1]
    w = f"{t['name']}: {c[0]} (event {c[1]} {e['op']} of history {t['h0']})"
    return w + (": " + str(c[2]) if len(c) > 2 else "")


def key(t, c):
    if c[0] == "dimension":
        return f"{t['name']}: dimension reported as {c[2]}"
    return f"{t['name']}: {c[0]}"


def judge(chk, traces):
    chk.validate("ManifoldTrace", traces, describe=describe, key=key, mem="6g")


# ------------------------------------------------------------------ C24
def dims(chk, cfgs):
    """Dimension, layout and shapes over a sweep of sizes; the rank of the tangent space at random points on small ones."""
    mf = mfs.mf
    N = 6 if core.THOROUGH else 5
    sweep = []

    def add(name, make, d):
        sweep.append((name, make, d))
    D = mfs.desc
    R = range
    for sh in [(1,), (2,), (5,), (2, 3), (1, 4), (2, 1, 3), (2, 2, 2, 2)]:
        add(f"Euclidean{sh}", lambda sh=sh: mf.Euclidean(*sh), D("euc", sh))
        add(f"ComplexEuclidean{sh}", lambda sh=sh: mf.ComplexEuclidean(*sh), D("euc", sh, cplx=True))
        if np.prod(sh) > 1:
            add(f"Sphere{sh}", lambda sh=sh: mf.Sphere(*sh), D("sph", sh))
    for n in R(1, N + 1):
        add(f"ComplexCircle({n})", lambda n=n: mf.ComplexCircle(n), D("cc", (n,), cplx=True))
        for k in (1, 2, 3):
            for cls, kind in [(mf.Symmetric, "sym"), (mf.SkewSymmetric, "skew")]:
                add(f"{cls.__name__}({n},{k})", lambda n=n, k=k, cls=cls: cls(n, k), D(kind, (n, n), k))
            for cls, kind, cx in [(mf.SymmetricPositiveDefinite, "pd", False), (mf.HermitianPositiveDefinite, "pd", True),
                                  (mf.SpecialHermitianPositiveDefinite, "spd", True), (mf.SpecialOrthogonalGroup, "so", False), (mf.UnitaryGroup, "u", True)]:
                if (n, kind) != (1, "spd"):
                    add(f"{cls.__name__}({n},{k})", lambda n=n, k=k, cls=cls: cls(n, k=k), D(kind, (n, n), k, cplx=cx, retr="qr"))
            add(f"PoincareBall({n},{k})", lambda n=n, k=k: mf.PoincareBall(n, k=k), D("pb", (n,), k))
            for p in R(1, n + 1):
                add(f"Stiefel({n},{p},{k})", lambda n=n, p=p, k=k: mf.Stiefel(n, p, k=k), D("st", (n, p), k, retr="qr"))
                if p < n:
                    for cls, cx in [(mf.Grassmann, False), (mf.ComplexGrassmann, True)]:
                        add(f"{cls.__name__}({n},{p},{k})", lambda n=n, p=p, k=k, cls=cls: cls(n, p, k=k), D("gr", (n, p), k, cplx=cx))
        for p in R(1, N):
            add(f"Oblique({n},{p})", lambda n=n, p=p: mf.Oblique(n, p), D("obl", (n, p)))
            for k in (1, 2):
                add(f"Positive({n},{p},{k})", lambda n=n, p=p, k=k: mf.Positive(n, p, k=k), D("pos", (n, p), k))
            for k in R(1, min(n, p) + 1):
                add(f"FixedRankEmbedded({n},{p},{k})", lambda n=n, p=p, k=k: mf.FixedRankEmbedded(n, p, k), D("fr", (n, p, k)))
            if p <= n:
                add(f"PSDFixedRank({n},{p})", lambda n=n, p=p: mf.PSDFixedRank(n, p), D("psd", (n, p)))
                add(f"PSDFixedRankComplex({n},{p})", lambda n=n, p=p: mf.PSDFixedRankComplex(n, p), D("psd", (n, p), cplx=True))
                if p > 1:
                    add(f"Elliptope({n},{p})", lambda n=n, p=p: mf.Elliptope(n, p), D("ell", (n, p)))
    traces = []
    rs = np.random.RandomState(core.SEED)

    def one(name, man, d, h0, rank):
        np.random.seed(rs.randint(1 << 30))
        with core.Capture():
            try:
                x = man.random_point()
                lay = man.point_layout
                e = {"op": "dims", "exc": "", "dim": int(man.dim) if int(man.dim) == man.dim else float(man.dim), "layout": core.enc(lay if isinstance(lay, int) else list(lay)),
                     "num": int(man.num_values), "x": x, "rank": rank}
            except Exception as ex:  # noqa: BLE001
                e = {"op": "dims", "exc": core.exc_name(ex)}
        traces.append({"name": name, "h0": h0, "m": d, "h": core.enc([e])})
    done = set()
    for name, make, d in sweep:
        if name in done:
            continue
        done.add(name)
        with core.Capture():
            man = make()
        size = int(np.prod([s for s in d["shape"]])) * (2 if d["cplx"] else 1)
        one(name, man, d, "dimension", size <= (24 if core.THOROUGH else 12) and d["k"] == 1)
        if core.THOROUGH:
            one(name, man, d, "dimension again", size <= 16 and d["k"] == 1)
    for c in cfgs:
        if c.name in done:
            continue
        if c.kind == "prod" and any(f.kind in ("pd", "spd") and f.d["cplx"] for f in c.factors):
            continue      # the dimension of these factors is a known finding
        if c.name.startswith(("HermitianPositive", "SpecialHermitian")):
            continue
        one(c.name, c.man, c.d, "dimension", c.kind != "prod" or len(c.factors) < 3)
    return traces


# ------------------------------------------------------------------ C23
SCALAR = {"int": lambda s: int(s), "float": float, "float64": np.float64, "float32": np.float32, "int64": lambda s: np.int64(int(s)), "array0": lambda s: np.array(float(s))}


def program(vec, prog):
    """Runs the instructions of TangentArith on two tangent vectors."""
    regs = list(vec)
    kind = type(vec[0])
    steps = []
    for c in prog:
        exc, r = "", None
        i = c[1] - 1
        try:
            s = SCALAR[c[3]](c[2]) if len(c) == 4 else None
            o = c[0]
            if o == "add":
                r = regs[i] + regs[c[2] - 1]
            elif o == "sub":
                r = regs[i] - regs[c[2] - 1]
            elif o == "neg":
                r = -regs[i]
            elif o == "mulr":
                r = regs[i] * s
            elif o == "mull":
                r = s * regs[i]
            elif o == "div":
                r = regs[i] / s
            else:
                r = regs[i]
                if o == "iadd":
                    r += regs[c[2] - 1]
                elif o == "isub":
                    r -= regs[c[2] - 1]
                elif o == "imul":
                    r *= s
                elif o == "idiv":
                    r /= s
            if o[0] == "i":
                regs[i] = r
            else:
                regs.append(r)
        except Exception as ex:  # noqa: BLE001
            exc = core.exc_name(ex)
        steps.append({"c": c, "exc": exc, "kind": isinstance(r, kind), "regs": core.enc([mfs.list_of(v) for v in regs]) if not exc else []})
        if exc:
            break
    return steps


def arithmetic(chk):
    progs = [m["prog"] for m in chk.model("TangentArithMC").emits]
    progs.sort(key=core.dumps)
    rng = random.Random(core.SEED)
    one = [p for p in progs if len(p) == 1]
    two = [p for p in progs if len(p) == 2]
    mf = mfs.mf
    mans = {"Product of one": mf.Product([mf.Sphere(3)]), "Product of two": mf.Product([mf.Euclidean(2, 2), mf.ComplexCircle(2)]),
            "Product of three": mf.Product([mf.Sphere(2), mf.FixedRankEmbedded(3, 2, 1), mf.Euclidean(1)]), "FixedRankEmbedded": mf.FixedRankEmbedded(4, 3, 2)}
    traces = []
    for name, m in mans.items():
        x = m.random_point()
        for p in one + rng.sample(two, 4000 if core.THOROUGH else 200):
            v = [m.random_tangent_vector(x), m.random_tangent_vector(x)]
            start = core.enc([mfs.list_of(w) for w in v])
            with core.Capture():
                traces.append({"name": name, "start": start, "steps": program(v, p)})

    def describe(t, c):
        return f"{t['name']} tangent vectors: {c[0]} in program {[s['c'] for s in t['steps']]} step {c[1]}" + (f": {c[2]}" if len(c) > 2 else "")
    chk.validate("TangentArithTrace", traces, describe=describe, key=lambda t, c: f"{t['name']} tangent vectors: {c[0]}")


def refusals():
    """Products of products, in any position; vectors of different lengths."""
    mf = mfs.mf
    E, S = mf.Euclidean(2), mf.Sphere(3)
    inner = mf.Product([E, S])
    one = mf.Product([S])
    ev = []

    def refused(what, f):
        try:
            f()
            r = False
        except (ValueError, TypeError):
            r = True
        ev.append({"op": "notimpl", "exc": "", "what": what, "refused": r})
    refused("product of a product", lambda: mf.Product([inner]))
    refused("product with a product first", lambda: mf.Product([inner, E]))
    refused("product with a product last", lambda: mf.Product([E, S, inner]))
    refused("product with a single-factor product", lambda: mf.Product((E, one, S)))
    x = mf.Product([E, S, E])
    u, v = x.random_tangent_vector(x.random_point()), inner.random_tangent_vector(inner.random_point())
    refused("sum of vectors of different length", lambda: u + v)
    refused("difference of vectors of different length", lambda: v - u)
    return {"name": "Product", "h0": "refusals", "m": mfs.desc("euc", (2,)), "h": ev}


def run(chk):
    pid = chk.pid
    chk.model("GeometryMC")
    cfgs = mfs.configs()
    if pid == "C24":
        traces, cov = dims(chk, cfgs), {}
    else:
        scripts = chk.model("Protocol", workers=1).emits
        scripts.sort(key=lambda s: core.dumps(s["h"]))
        traces, cov = record(pid, scripts, cfgs, BUDGET[pid][1 if core.THOROUGH else 0])
    if pid == "C23":
        arithmetic(chk)
        traces.append(refusals())
    judge(chk, traces)
    if pid == "C26":
        import c_linesearch
        import c_problem
        chk.validate("ProblemTrace", c_problem.sample(chk, 400 if core.THOROUGH else 40), key=c_problem.key, describe=c_problem.describe)
        chk.validate("LineSearchTrace", c_linesearch.sample(1000 if core.THOROUGH else 150), key=lambda t, c: f"{t['par']['kind']}:{c[0]}", describe=c_linesearch.describe)
    chk.extra["configurations"] = len({t["name"] for t in traces})
    chk.extra["events_validated"] = sum(len(t["h"]) for t in traces)
    chk.extra["provenance_pairs_covered"] = {k: len(v) for k, v in sorted(cov.items())}
    chk.assumptions += [
        "points and vectors are those reached by the histories of Protocol.tla on the listed configurations; deviations below the stated rounding tolerances are accepted",
        "the logarithm, mean and distance clauses are evaluated away from the cut locus only"]
