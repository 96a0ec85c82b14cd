"""Concrete replay: runs a harness on the real, unmodified libraries (numba compiled) with given inputs.

usage: replay.py --server            (JSON lines on stdin/stdout)
       replay.py FILE                (a replay file written by a check)
"""
import importlib
import json
import os
import sys
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def decode(vals):
    return {k: (Fraction(v) if isinstance(v, str) else v) for k, v in vals.items()}


def encode(vals):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}


_cases = {}


def cases_of(prop, tier):
    if (prop, tier) not in _cases:
        mod = importlib.import_module("checks." + prop.lower())
        _cases[(prop, tier)] = {c.name: c for c in mod.cases(tier)}
    return _cases[(prop, tier)]


def run(prop, tier, case, vals):
    import random
    import numpy as np
    from symx.ctx import ConcCtx, AssumeFail, CheckFail
    c = cases_of(prop, tier)[case]
    ctx = ConcCtx(decode(vals))
    random.seed(0)
    np.random.seed(0)
    try:
        with np.errstate(all="ignore"):
            c.fn(ctx, **c.params)
    except AssumeFail as e:
        return dict(status="assume", msg=str(e))
    except CheckFail as e:
        return dict(status="fail", msg=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if "/mizarlabs/" in f.filename]
        f = (own or list(tb))[-1]
        return dict(status="fail", msg=f"raised {type(e).__name__}: {str(e)[:200]} "
                                       f"({os.path.basename(f.filename)}:{f.lineno} {f.name})")
    return dict(status="ok", checks=ctx.checks)


def server():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        q = json.loads(line)
        r = run(q["prop"], q["tier"], q["case"], q["vals"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if sys.argv[1] == "--server":
        server()
    else:
        q = json.load(open(sys.argv[1]))
        r = run(q["property"], q.get("tier", "quick"), q["case"], q["inputs"])
        print(json.dumps(dict(property=q["property"], case=q["case"], **r), indent=1))
        sys.exit(1 if r["status"] == "fail" else 0)
