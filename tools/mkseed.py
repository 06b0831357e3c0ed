#!/usr/bin/env python3
"""Creates a planted change: mkseed.py SPEC.json|py  (dict: id, property, edits [[file, old, new]], needs, what, demo)

Confirms in a scratch copy of /repo: the patch applies, the demo passes
without and fails with it. `--tests` also runs the stable tests there.
"""
import os, sys, json, subprocess, shutil, runpy

spec = runpy.run_path(sys.argv[1])["SPEC"]
W = "/tmp/w/seed_" + spec["id"]
out = os.path.join("/verif/seeded", spec["id"])
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", W])
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + spec["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["what"]), open(out + "/meta.json", "w"), indent=1)
    r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=W, capture_output=True, text=True)
    if "--tests" in sys.argv:
        env = dict(os.environ, PYTHONPATH=W, PATH="/opt/venv/bin:" + os.environ["PATH"], MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--ignore=tests/1_verification/flappy_0_6/abl_states", "tests"],
            cwd=W, env=env, capture_output=True, text=True)
        print("stable tests:", t.stdout.strip().splitlines()[-1])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=W, capture_output=True, text=True)
    print(spec["id"], "clean:", r0.returncode, "patched:", r1.returncode)
    if r0.returncode != 0:
        print(r0.stdout[-800:], r0.stderr[-1500:])
    if r1.returncode == 0:
        print("NOT DETECTED", r1.stdout[-800:])
    else:
        print((r1.stdout + r1.stderr)[-300:])
finally:
    shutil.rmtree(W, ignore_errors=True)
