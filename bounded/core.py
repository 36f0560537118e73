"""running jobs on the real code, and violations"""
import ast
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    """the check itself could not do its work; never a verdict"""


class Finding(Exception):
    """the real code was observed to break the property on a concrete input"""

    def __init__(self, what, job, result=None):
        Exception.__init__(self, what)
        self.what, self.job, self.result = what, job, result


def run_jobs(repo, jobs, timeout=400):
    """jobs: list of (handler, payload); results in the same order"""
    n = min(4, max(1, len(jobs) // 20))
    if n == 1:
        return run_part(repo, jobs, timeout)
    with ThreadPoolExecutor(n) as pool:
        parts = [jobs[k * len(jobs) // n:(k + 1) * len(jobs) // n] for k in range(n)]
        return [r for part in pool.map(lambda p: run_part(repo, p, timeout), parts) for r in part]


def run_part(repo, jobs, timeout):
    with tempfile.TemporaryDirectory(prefix="vjobs") as d:
        inp, out = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "w") as f:
            f.write(repr(jobs))
        env = dict(os.environ, PYTHONPATH=os.path.join(HERE, "stubs"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            r = subprocess.run([PY, os.path.join(HERE, "bounded", "worker.py"), repo, inp, out], env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        except subprocess.TimeoutExpired:
            raise HarnessError("the real code did not finish in %s s" % timeout)
        if r.returncode or not os.path.exists(out):
            raise HarnessError("worker failed: " + r.stdout[-2000:])
        with open(out) as f:
            res = ast.literal_eval(f.read())
    for j, x in zip(jobs, res):
        if x[0] == "exc" and x[2] == "harness":
            raise HarnessError("%s: %s" % (j[0], x[1]))
    return res


def need_ok(job, r):
    """an exception on an input that meets the preconditions breaks the property"""
    if r[0] != "ok":
        raise Finding("raises %s at %s" % (r[1], r[2]), job, r)
    return r[1]


def stats(jobs, nontrivial, bound):
    """coverage of a bounded run"""
    return {"instances": len(jobs), "nontrivial": len(nontrivial), "bound": bound, "samples": [repr(j)[:600] for j in nontrivial[:2]]}
