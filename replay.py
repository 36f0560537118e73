#!/usr/bin/env python3-vt
"""python3-vt replay.py FILE: run the recorded input against the real code again"""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bounded.core import run_jobs  # noqa: E402

lines = open(sys.argv[1]).read().split("\n")
job = [l for l in lines if l.startswith("job: ")]
for l in lines:
    if l.startswith(("property:", "observed")):
        print(l)
if not job:
    print("\n".join(lines))
    sys.exit(0)
job = ast.literal_eval(job[0][5:])
print("input:", job)
print("now:", run_jobs(os.environ.get("VERIF_REPO", "/repo"), [job])[0])
