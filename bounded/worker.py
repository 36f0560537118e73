"""Runs the real code of /repo on concrete inputs.

Started by the checks with the interpreter of the repository (/opt/venv) and the
stand-ins of /verif/stubs on the path.  Reads a list of jobs (a Python literal)
from a file, writes the list of results to another.  A job is
(name, payload); the result is ("ok", value) or ("exc", "Type: message").
"""
import ast
import contextlib
import importlib
import io
import math
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HANDLERS = {}


def handler(f):
    HANDLERS[f.__name__] = f
    return f


def plain(x):
    """value as a Python literal"""
    import numpy as np
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "<nan>"
        if math.isinf(x):
            return "<inf>" if x > 0 else "<-inf>"
        return x
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, np.ndarray)):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return {plain(v) for v in x}
    if hasattr(x, "isoformat"):
        return "<time %s>" % x.isoformat()
    return "<%s>" % type(x).__name__


def main(repo, inp, out):
    with open(inp) as f:
        jobs = ast.literal_eval(f.read())
    # helpers.py imports the packages from the root of the repository, the tests of the model from within
    for d in ("",) if any(n.startswith(("data.", "quantum.")) for n, _ in jobs) else ("railway_solvers", "data_formatting", ""):
        sys.path.insert(0, os.path.join(repo, d))
    os.chdir(repo)
    sys.dont_write_bytecode = True
    res = []
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for name, payload in jobs:
            mod, fun = name.split(".")
            h = getattr(importlib.import_module("bounded.w_" + mod), fun)
            try:
                r = ("ok", plain(h(payload)))
            except Exception as e:  # noqa: BLE001  the exception is the result
                import traceback
                fr = traceback.extract_tb(e.__traceback__)
                inside = [x for x in fr if x.filename.startswith(repo)]
                where = "%s:%s" % (os.path.relpath(inside[-1].filename, repo), inside[-1].name) if inside else "harness"
                last = os.path.abspath(fr[-1].filename)
                stub = last.startswith(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"))
                api = any(w in str(e) for w in ("module 'pulp", "'Lp", "module 'dimod", "module 'pyqubo", "module 'neal", "module 'dwave"))
                # a variable is no container in the real library either
                api = api and not re.search(r"'LpVariable' object has no attribute '(keys|values|items|get|update|append|index)'", str(e))
                if isinstance(e, (AttributeError, ImportError)) and (stub or api) or not inside:
                    where = "harness"
                r = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]), where)
            except SystemExit as e:
                r = ("exc", "SystemExit: %s" % e, "exit")
            res.append(r)
    with open(out, "w") as f:
        f.write(repr(res))


if __name__ == "__main__":
    main(*sys.argv[1:4])
