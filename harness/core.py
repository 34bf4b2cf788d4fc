"""Shared machinery of the checks: running TLC, recording traces, reporting.

The deciding work is done by TLC on the specifications in /verif/spec; this
file only compiles the numeric overrides, feeds traces to TLC and turns what
TLC reports into the exit status, the VIOLATION lines and the evidence file.
"""
import glob
import hashlib
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
BACKENDS = ()         # autodiff libraries the check uses besides autograd
CHUNK = 24_000_000    # bytes of traces given to one run of TLC


class MachineryError(Exception):
    """The check itself failed; no statement about the property."""


def load_pymanopt(backends=()):
    """Imports pymanopt from the working tree, without the unneeded autodiff libraries."""
    for name in ("torch", "tensorflow", "jax"):
        if name not in backends:
            sys.modules[name] = None
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.dont_write_bytecode = True
    if not os.path.exists(os.path.join(REPO, "src/pymanopt/_version.py")):
        import types
        m = types.ModuleType("pymanopt._version")
        m.__version__ = m.version = "0"
        sys.modules["pymanopt._version"] = m
    import pymanopt
    assert os.path.realpath(pymanopt.__file__).startswith(os.path.realpath(REPO)), pymanopt.__file__
    return pymanopt


def java_classes():
    """Compiles java/*.java once per content."""
    src = sorted(glob.glob(os.path.join(ROOT, "java", "*.java")))
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    out = os.path.join(ROOT, "build", "java-" + h.hexdigest()[:16])
    if not os.path.isdir(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        r = subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", JARS] + src, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.emits = []
        self.generated = self.distinct = 0
        for line in out.splitlines():
            i = line.find("@@J ")
            if i >= 0:
                self.emits.append(json.loads(line[i + 4:]))
            elif " states generated," in line and "distinct states found" in line and line[:1].isdigit():
                w = line.replace(",", "").split()
                self.generated, self.distinct = int(w[0]), int(w[3])


def tlc(spec, cfg=None, env=None, timeout=850, workers=None, extra=(), allow_fail=False, mem="4g"):
    """Model checks spec/<spec>.tla with spec/<cfg>.cfg; returns what it printed and emitted."""
    work = os.path.join(ROOT, "build", "tlc")
    os.makedirs(work, exist_ok=True)
    meta = tempfile.mkdtemp(dir=work)
    try:
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", java_classes() + ":" + JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers or min(8, os.cpu_count() or 1)),
               "-config", (cfg or spec) + ".cfg"] + list(extra) + [spec + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {spec}")
        res = TlcResult(r.stdout, r.returncode)
        if r.returncode and not allow_fail:
            tail = [l for l in r.stdout.splitlines() if "@@J" not in l and "Loading " not in l]
            raise MachineryError(f"TLC on {spec} ended with {r.returncode}:\n" + "\n".join(tail[-40:])[-6000:] + r.stderr[-2000:])
        return res
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ---------------------------------------------------------------- values
def enc(x):
    """JSON form of a value of the code under test: floats stay floats, complex numbers {$r,$i}."""
    import numpy as np
    if x is None:
        return "null"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"$r": float(x.real), "$i": float(x.imag)}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [enc(v) for v in x]
    a = np.asarray(x)
    if a.dtype == object:
        return [enc(v) for v in a.tolist()] if a.ndim else repr(x)
    if np.issubdtype(a.dtype, np.integer) or a.dtype == bool:
        a = a.astype(float)
    if a.ndim == 0:
        return enc(a.item())
    return encl(a.tolist())


def encl(l):
    if isinstance(l, list):
        return [encl(v) for v in l]
    if isinstance(l, complex):
        return {"$r": l.real, "$i": l.imag}
    return l


def dumps(v):
    return json.dumps(v, allow_nan=True)


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = {}
        self.extra = {}
        self.cal = []
        self.exhaustive = None
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-" + pid + "-", dir=os.path.join(ROOT, "build"))

    def count(self, res, traces=0):
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += traces

    def violate(self, key, what, replay):
        if key not in self.violations:
            self.violations[key] = (what, replay)

    def model(self, spec, cfg=None, **kw):
        """Exhaustive model checking of a design model; returns the emitted scripts."""
        res = tlc(spec, cfg, **kw)
        self.count(res)
        self.extra.setdefault("models", []).append(
            {"spec": spec, "cfg": cfg or spec, "states": res.distinct, "transitions": res.generated, "scripts": len(res.emits)})
        return res

    def validate(self, spec, traces, cfg=None, env=None, describe=None, key=None, samples=2, **kw):
        """Checks every trace against spec/<spec>.tla.

        The specification emits [tid |-> i, bad |-> set of failed clauses] for
        every path through trace i; a trace is accepted if some path has no
        failed clause.  Each clause is a tuple <<name, event index, ...>>.
        """
        if not traces:
            raise MachineryError("no traces recorded for " + spec)
        e = {"VP_PROP": self.pid}
        e.update(env or {})
        best = {}
        lines = [dumps(t) for t in traces]
        start = 0
        while start < len(traces):
            end, size = start, 0
            while end < len(traces) and size < CHUNK:
                size += len(lines[end])
                end += 1
            f = os.path.join(self.tmp, f"{spec}-{len(os.listdir(self.tmp))}.ndjson")
            with open(f, "w") as h:
                h.write("\n".join(lines[start:end]) + "\n")
            e["VP_TRACES"] = f
            res = tlc(spec, cfg, env=e, **kw)
            for m in res.emits:
                if "cal" in m:
                    self.cal.append(m)
                    continue
                i = start + m["tid"] - 1
                if i not in best or len(m["bad"]) < len(best[i]):
                    best[i] = m["bad"]
            self.count(res, end - start)
            if os.environ.get("VP_KEEP") != "1":
                os.remove(f)
            start = end
        missing = [i for i in range(len(traces)) if i not in best]
        if missing:
            raise MachineryError(f"{spec}: {len(missing)} of {len(traces)} traces have no verdict, first {dumps(traces[missing[0]])[:2000]}")
        for i, bad in sorted(best.items()):
            for c in bad:
                k = key(traces[i], c) if key else f"{c[0]}"
                w = describe(traces[i], c) if describe else str(c)
                self.violate(k, w, {"spec": spec, "clause": c, "trace": traces[i]})
        for t in traces[: samples]:
            s = dumps(t)
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + "...")
        return best

    def finish(self):
        known = json.load(open(os.path.join(ROOT, "known_findings.json")))
        listed = {(f["property"], f["key"]): f for f in known["findings"]}
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        new = 0
        for key, (what, replay) in self.violations.items():
            if (self.pid, key) in listed:
                print(f"KNOWN-FINDING: property={self.pid} {listed[(self.pid, key)]['what']} [{key}]")
                continue
            new += 1
            if new > 20:
                continue
            p = os.path.join(rdir, f"{self.pid}-{hashlib.sha256(key.encode()).hexdigest()[:10]}.json")
            with open(p, "w") as h:
                h.write(dumps({"property": self.pid, "key": key, "what": what, "seed": SEED, "tier": TIER, "replay": replay}))
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  {key}: {what}"[:600])
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6]}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        if self.cal:
            worst = {}
            for m in self.cal:
                r = float(m["r"]["$n"]) if isinstance(m["r"], dict) else float(m["r"])
                k = (m["kind"], m["op"], m["cal"])
                worst.setdefault(k, []).append(r)
            for k, v in sorted(worst.items(), key=lambda a: -max(a[1])):
                print("CAL %-70s n=%5d max=%.2e" % (" ".join(k), len(v), max(v)))
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": new}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as h:
            h.write(json.dumps(ev, indent=1))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.pid}: {self.traces} traces validated, {self.states} states, {self.transitions} transitions, "
              f"{len(self.violations)} violations ({new} new), {time.time() - self.t0:.1f} s")
        return 1 if new else 0


def isnan(x):
    try:
        return math.isnan(x)
    except TypeError:
        return False


def dec(v):
    """Python value of an emitted value (numbers as floats)."""
    if isinstance(v, dict):
        if "$n" in v:
            return complex(float(v["$n"]), float(v["$i"])) if "$i" in v else float(v["$n"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


class Capture:
    """Silences what the code under test prints and its warnings."""

    def __enter__(self):
        import io
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.o = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.o
        self.w.__exit__(None, None, None)

    @property
    def text(self):
        return self.buf.getvalue()


def exc_name(e):
    return f"{type(e).__name__}: {str(e)[:120]}"
