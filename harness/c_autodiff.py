"""C12: the programs enumerated by AutodiffMC are written down in each backend; AutodiffTrace compares the
generated operators with the true derivatives."""
import copy
import json
import os
import random
import subprocess
import sys

import core

LIB = {"autograd": (), "jax": ("jax",), "pytorch": ("torch",), "tensorflow": ("tensorflow",)}
SHAPE = {"v": (3,), "m": (2, 2), "k": (2, 2, 2)}


def con(shape):
    """Con of Autodiff.tla."""
    import numpy as np

    def go(sh, w):
        return w if not sh else [go(sh[1:], (i + 1) / 4 - w / 2) for i in range(sh[0])]
    return np.array(go(shape, 1.0))


def toolkit(be):
    import numpy as np
    if be in ("autograd", "jax"):
        if be == "autograd":
            import autograd.numpy as xp
        else:
            import jax.numpy as xp
        return dict(T=lambda a: xp.swapaxes(a, -1, -2), conj=xp.conj, rot=lambda a: 1j * a, re=xp.real, im=xp.imag, abs=xp.abs, exp=xp.exp, sin=xp.sin, sq=lambda a: a ** 2,
                    sum=lambda a: xp.real(xp.sum(a)), sumsq=lambda a: xp.sum(a ** 2) if not xp.iscomplexobj(a) else xp.sum(xp.real(a) ** 2 + xp.imag(a) ** 2),
                    entry=lambda a: xp.real(a[(0,) * a.ndim]), log=xp.log, matmul=xp.matmul, con=lambda a: xp.array(con(a.shape)))
    if be == "pytorch":
        import torch
        return dict(T=lambda a: a.transpose(-1, -2), conj=torch.conj, rot=lambda a: 1j * a, re=torch.real, im=torch.imag, abs=torch.abs, exp=torch.exp, sin=torch.sin, sq=lambda a: a ** 2,
                    sum=lambda a: torch.real(torch.sum(a)), sumsq=lambda a: torch.sum(torch.real(a) ** 2 + torch.imag(a) ** 2) if a.is_complex() else torch.sum(a ** 2),
                    entry=lambda a: torch.real(a[(0,) * a.ndim]), log=torch.log, matmul=torch.matmul, con=lambda a: torch.tensor(con(tuple(a.shape)), dtype=a.dtype))
    import tensorflow as tf
    return dict(T=lambda a: tf.linalg.matrix_transpose(a), conj=tf.math.conj, rot=lambda a: tf.constant(1j, dtype=a.dtype) * a, re=tf.math.real, im=tf.math.imag, abs=tf.abs, exp=tf.exp, sin=tf.sin,
                sq=lambda a: a * a, sum=lambda a: tf.math.real(tf.reduce_sum(a)), sumsq=lambda a: tf.reduce_sum(tf.math.real(a) ** 2 + tf.math.imag(a) ** 2) if a.dtype.is_complex else tf.reduce_sum(a ** 2),
                entry=lambda a: tf.math.real(a[(0,) * len(a.shape)]), log=tf.math.log, matmul=tf.linalg.matmul, con=lambda a: tf.cast(tf.constant(con(tuple(a.shape))), a.dtype))


def program(prog, k):
    def cost(*x):
        st = []
        for c in prog:
            o = c[0]
            if o == "arg":
                st.append(x[c[1] - 1])
            elif o == "con":
                st.append(k["con"](st[-1]))
            elif o in ("add", "mul", "matmul", "sadd", "smul", "scale"):
                b = st.pop()
                a = st.pop()
                st.append(a + b if o in ("add", "sadd") else k["matmul"](a, b) if o == "matmul" else a * b)
            elif o == "sexp":
                st.append(k["exp"](st.pop()))
            elif o == "slog":
                st.append(k["log"](1.0 + st.pop() ** 2))
            else:
                st.append(k[o](st.pop()))
        return st[0]
    return cost


def manifold(L):
    from pymanopt import manifolds as mf
    f = [(mf.ComplexEuclidean if c else mf.Euclidean)(*SHAPE[s]) for s, c in L]
    return f[0] if len(f) == 1 else mf.Product(f)


def laid_out(a, how):
    """The same array with another memory layout."""
    import numpy as np
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 3:
        return a[::-1].copy()[::-1]
    return a


def play(be, k, s, seed):
    import numpy as np
    import pymanopt
    rng = np.random.RandomState(seed)
    L = s["L"]
    n = len(L)
    dec = getattr(pymanopt.function, be)
    raw = program(s["prog"], k)
    if seed % 2:
        names = ", ".join("a%d" % i for i in range(n))
        raw = eval(f"lambda {names}: f({names})", {"f": raw})
    T = {"be": be, "name": s["name"], "L": L, "prog": s["prog"], "ev": []}
    f = dec(manifold(L))(raw)

    def draw(special=False):
        out = []
        for sh, c in L:
            a = rng.uniform(-0.8, 0.8, SHAPE[sh]) + 0.05
            a = a + 1j * rng.uniform(-0.8, 0.8, SHAPE[sh]) if c else a
            if special:       # exact zeros, ones, integers: derivatives vanish here and there
                a = [a, 0 * a, np.where(rng.rand(*a.shape) < 0.5, 0, a), np.ones_like(a), np.round(a)][rng.randint(5)]
            out.append(a)
        return [laid_out(a, rng.randint(6)) for a in out]
    first, second = draw(), draw(special=rng.randint(3) > 0)
    ops = {}
    keep = []
    for pt in (first, second, first):
        X, U = pt, draw()
        X0, U0 = copy.deepcopy(X), copy.deepcopy(U)
        e = {"X": X, "U": U, "f": "null", "g": [], "h": [], "late": True, "kinds": True, "same": True, "fexc": "", "gexc": "", "hexc": ""}
        try:
            v = f(*X)
            e["f"] = float(v) if np.ndim(v) == 0 else "shape"
        except Exception as ex:  # noqa: BLE001
            e["fexc"] = core.exc_name(ex)
        g = h = None
        for o, slot in ((0, "g"), (1, "h")) if seed % 3 else ((1, "h"), (0, "g")):
            try:
                if slot not in ops:
                    ops[slot] = f.get_gradient_operator() if slot == "g" else f.get_hessian_operator()
                r = ops[slot](*X) if slot == "g" else ops[slot](*X, *U)
                l = [r] if n == 1 else list(r)
                e["kinds"] &= all(isinstance(a, np.ndarray) and (c or a.dtype == np.float64) and (a.dtype in (np.float64, np.complex128)) for a, (_, c) in zip(l, L))
                e[slot] = copy.deepcopy([np.array(a) for a in l])
                keep.append((e, slot, l))
            except Exception as ex:  # noqa: BLE001
                e[slot + "exc"] = core.exc_name(ex)
        e["same"] = all(a.tobytes() == b.tobytes() and a.shape == b.shape for a, b in zip(X + U, X0 + U0))
        T["ev"].append(e)
    for e, slot, l in keep:
        e["late"] &= all(np.array_equal(a, b) for a, b in zip(l, e[slot]))
    T["ev"] = core.enc(T["ev"])
    return T


def worker(be, src, dst):
    core.load_pymanopt(LIB[be])
    import numpy as np
    k = toolkit(be)
    with core.Capture(), np.errstate(all="ignore"), open(dst, "w") as out:
        for line in open(src):
            s = json.loads(line)
            out.write(core.dumps(play(be, k, s, s["seed"])) + "\n")


def distinct(scripts):
    seen, out = set(), []
    for s in scripts:
        k = core.dumps(s)
        if k not in seen and any(c[0] == "arg" for c in s["prog"]):
            seen.add(k)
            out.append(s)
    return out


def triples(s):
    ops = [c[0] for c in s["prog"]] + ["end"]
    return {tuple(ops[i:i + 3]) for i in range(len(ops) - 2)}


def covering(scripts, rng):
    """Few programs with all sequences of three instructions that occur."""
    have, out = set(), []
    for s in sorted(rng.sample(scripts, len(scripts)), key=lambda s: -len(triples(s))):
        t = triples(s)
        if not t <= have:
            have |= t
            out.append(s)
    return out


def run(chk):
    th = core.THOROUGH
    rng = random.Random(core.SEED * 17 + 12)
    short = distinct(sorted(chk.model("AutodiffMC", "AutodiffMC5" if th else "AutodiffMC").emits, key=core.dumps))
    deep = distinct(chk.model("AutodiffMC", "AutodiffSim", workers=1, extra=("-simulate", "num=%d" % (6000 if th else 1500), "-depth", "12", "-seed", str(core.SEED + 3))).emits)
    deep = [s for s in deep if len(s["prog"]) > 5]
    procs, chk.extra["programs"] = [], {}
    for be in LIB:
        n = {"autograd": 500, "pytorch": 500, "tensorflow": 260, "jax": 110}[be] * (12 if th else 1)
        pick = rng.sample(short, min(len(short), n // 2)) + rng.sample(deep, min(len(deep), n - n // 2))
        if be in ("autograd", "pytorch"):
            pick += covering(short, rng)
        src, dst = os.path.join(chk.tmp, be + ".in"), os.path.join(chk.tmp, be + ".out")
        with open(src, "w") as h:
            for s in pick:
                h.write(core.dumps(dict(s, seed=rng.randrange(1 << 30))) + "\n")
        chk.extra["programs"][be] = len(pick)
        procs.append((be, dst, subprocess.Popen([sys.executable, os.path.abspath(__file__), be, src, dst], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    traces = []
    for be, dst, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise core.MachineryError(be + ": " + err[-3000:])
        traces += [json.loads(l) for l in open(dst)]
    chk.validate("AutodiffTrace", traces, key=lambda t, c: c[0], describe=lambda t, c: f"{t['name']} {t['prog']}: {c}", mem="6g")


if __name__ == "__main__":
    worker(*sys.argv[1:])
