"""builds /verif/seeded/<id> from a description and confirms it in a scratch copy:
   python3-vt tools/seed.py FILE.py [id ...]

FILE.py defines SEEDS = {id: {property, needs, what, edits: [(file, old, new)], demo: python text, libs: [stub names]}}.
Writes the folder only if the patch applies, the demo passes without and fails with it, and the stable tests pass.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository root
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$d/lib:$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$d/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for sid in sys.argv[2:] or list(m.SEEDS):
        s = m.SEEDS[sid]
        tmp = tempfile.mkdtemp(prefix="seed_")
        work = os.path.join(tmp, "repo")
        run(["cp", "-a", "/repo", work])
        d = os.path.join(tmp, "out")
        os.makedirs(os.path.join(d, "lib"))
        for l in s.get("libs", []):
            src = os.path.join(HERE, "stubs", l)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(d, "lib", l), ignore=shutil.ignore_patterns("__pycache__"))
            else:
                shutil.copy(src + ".py", os.path.join(d, "lib", l + ".py"))
        if not s.get("libs"):
            os.rmdir(os.path.join(d, "lib"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(getattr(m, "COMMON", "") * bool(s.get("common", True)) + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = run(["bash", os.path.join(d, "demo.sh")], cwd=work)
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "NOT UNIQUE", f, t.count(old))
                break
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], cwd=work).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        b = run(["bash", os.path.join(d, "demo.sh")], cwd=work)
        out = os.path.join(tmp, "t.json")
        ok = a.returncode == 0 and b.returncode != 0 and diff
        tests = "-"
        if ok:
            tests = stable(work, out)
            ok = tests == "ok"
        print(sid, "unchanged", a.returncode, "patched", b.returncode, "tests", tests, "KEPT" if ok else "DROPPED")
        print("   ", (b.stdout.strip().splitlines() or [""])[-1][:200])
        if a.returncode:
            print(a.stdout[-1500:])
        if ok:
            dst = os.path.join(HERE, "seeded", sid)
            if os.path.exists(dst):
                shutil.rmtree(dst)
            shutil.copytree(d, dst, ignore=shutil.ignore_patterns("__pycache__"))
        shutil.rmtree(tmp)


def stable(work, out):
    """runs the stable tests in the scratch copy"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("stable") or base.get("tests") or base.get("stable_tests")
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=os.path.join(work, "data_formatting"),
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    return "ok" if "%d passed" % len(names) in tail and "failed" not in tail and "error" not in tail else tail


if __name__ == "__main__":
    main()
