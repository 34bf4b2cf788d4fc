"""Runs the check of one property: main.py <property>."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

MODULES = {k: v["module"] for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"))).items()}

LIBRARIES = {"C11": ("jax", "torch", "tensorflow") if core.THOROUGH else ("jax", "torch"), "C12": ("jax", "torch", "tensorflow")}


def main():
    pid = sys.argv[1]
    core.BACKENDS = LIBRARIES.get(pid, ())
    try:
        mod = importlib.import_module(MODULES[pid])
        chk = core.Check(pid)
        mod.run(chk)
        rc = chk.finish()
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
