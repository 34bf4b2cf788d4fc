"""C28: the stacked linear-algebra helpers on the requests enumerated by MultiToolsMC."""
import random

import numpy as np
import scipy.linalg

import core

pymanopt = core.load_pymanopt()
from pymanopt.tools import multi  # noqa: E402


def content(q, rng):
    """One matrix of the requested kind, and its logarithm if it was made from one."""
    n, m, c = q["n"], q["m"], q["cls"]
    if q["opt"] == "positive_definite":
        c = {"eye": "eye"}.get(c, c)

    def gen(a=n, b=m):
        g = rng.standard_normal((a, b))
        return g + 1j * rng.standard_normal((a, b)) if q["cplx"] else g

    def rotation(t):
        z = gen(n, n)
        S = z - z.conj().T
        return S * (t / max(np.linalg.norm(S, 2), 1e-300))
    zero = np.zeros((n, m), dtype=complex if q["cplx"] else float)
    if c == "zero":
        return zero, None
    if c == "eye":
        return zero + np.eye(n, m), None if q["fn"] != "logm" else zero
    if c == "generic":
        return gen(), None
    if c == "int":
        return np.round(2 * gen()) + zero, None
    if c == "small":
        return 1e-6 * gen(), None
    if c == "huge":
        return 1e150 * gen(), None
    if c == "tiny":
        return 1e-150 * gen(), None
    if c == "rank1":
        a, b = gen(n, 1), gen(1, m)
        if q["opt"] == "symmetric":
            b = a.conj().T
        return a @ b, None
    if c == "zerocol":
        a = gen()
        a[:, rng.randint(m)] = 0
        return a, None
    if c == "wide":         # eigenvalues (parts) as large as the exponential of a double allows in the tolerance
        if q["opt"] == "symmetric":
            w = rng.uniform(30, 60) * np.linspace(-1, 1, n) if n > 1 else np.array([rng.uniform(30, 60)])
            Q = np.linalg.qr(gen(n, n))[0]
            a = (Q * w[rng.permutation(n)]) @ Q.conj().T
            return 0.5 * (a + a.conj().T), None
        a = gen(n, n)
        return a * (rng.uniform(10, 40) / np.linalg.norm(a, 2)), None
    if c in ("selfadj", "skew"):
        a = gen()
        return (a + a.conj().T if c == "selfadj" else a - a.conj().T), None
    if c == "jordan":
        return zero + np.eye(n) * 0.5 + np.diag(np.ones(n - 1), 1), None
    if c in ("pd", "spread"):
        w = np.exp(rng.uniform(-1, 1, n)) if c == "pd" else np.exp(np.linspace(-9, 9, n))
        Q = np.linalg.qr(gen(n, n))[0]
        a = (Q * w) @ Q.conj().T
        return 0.5 * (a + a.conj().T), None
    if c in ("expof", "rot"):
        S = rotation(2.5) if c == "rot" else gen(n, n)
        if c == "expof":
            S = S * (1.5 / max(np.linalg.norm(S, 2), 1e-300))
        return scipy.linalg.expm(S), S
    if c == "mixed":
        # a negative eigenvalue in some slices only
        w = np.exp(rng.uniform(-1, 1, n))
        if rng.randint(2):
            w[0] = -w[0]
        Q = gen(n, n) + 2 * np.eye(n)
        return Q @ np.diag(w) @ np.linalg.inv(Q), None
    raise KeyError(c)


def call(q, X):
    f, o = q["fn"], q["opt"]
    if f == "eye":
        return multi.multieye(q["k"], q["n"])
    fn = getattr(multi, "multi" + f)
    if o:
        return fn(X, **{o: True})
    return fn(X)


def layouts(X, rng):
    r = rng.randint(4)
    if r == 1:
        return np.asfortranarray(X)
    if r == 2:
        Y = np.zeros(tuple(2 * n for n in X.shape), dtype=X.dtype)
        V = Y[tuple(slice(None, None, 2) for _ in X.shape)]
        V[...] = X
        return V
    return X


def play(q, mats, refs, rng):
    k = q["k"]
    X = layouts(np.stack(mats) if k else mats[0], rng)
    X0 = X.copy()
    T = {"q": q, "A": mats, "r": [], "refs": [[] if r is None else [r] for r in refs], "stacked": True, "exc": "", "same": True, "typed": True}
    try:
        R = call(q, X)
        T["same"] = X.tobytes() == X0.tobytes()
        parts = R if q["fn"] == "qr" else (R,)
        T["stacked"] = all(isinstance(p, np.ndarray) and p.ndim == (3 if k else 2) and (not k or p.shape[0] == k) for p in parts) and len(parts) == (2 if q["fn"] == "qr" else 1)
        if T["stacked"]:
            T["typed"] = np.iscomplexobj(X) or q["cls"] == "mixed" or not any(np.iscomplexobj(p) for p in parts)
            split = [list(p) if k else [p] for p in parts]
            T["r"] = [list(t) for t in zip(*split)] if q["fn"] == "qr" else split[0]
    except Exception as e:  # noqa: BLE001
        T["exc"] = core.exc_name(e)
    return core.enc(T)


def run(chk):
    rng = np.random.RandomState(core.SEED * 5 + 28)
    scripts = sorted(chk.model("MultiToolsMC").emits, key=core.dumps)
    traces = []
    with core.Capture(), np.errstate(all="ignore"):
        small = {}
        for s in scripts:
            q = s["q"]
            if s["A"]:
                A = np.array(s["A"], dtype=float)
                small.setdefault(q["fn"], []).append(A)
                traces.append(play(q, [A], [None], rng))
                continue
            for _ in range(6 if core.THOROUGH else 1):
                pairs = [content(q, rng) for _ in range(max(1, q["k"]))]
                traces.append(play(q, [p[0] for p in pairs], [p[1] for p in pairs], rng))
        # stacks of the small integer matrices
        for fn, mats in sorted(small.items()):
            for _ in range(40 if core.THOROUGH else 8):
                k = int(rng.randint(2, 6))
                pick = [mats[i] for i in rng.randint(len(mats), size=k)]
                traces.append(play(dict(fn=fn, n=2, m=2, k=k, cplx=False, opt="", cls="given"), pick, [None] * k, rng))
    chk.validate("MultiToolsTrace", traces, key=lambda t, c: f"{c[0]} ({t['q']['cls']})", describe=lambda t, c: f"{t['q']}: {c}")
