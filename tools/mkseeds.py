#!/usr/bin/env python3
"""Write seeded/<id>/ from seeds.py after confirming each bug in a scratch worktree.
   mkseeds.py [ids...]"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
W = "/tmp/mkseeds"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(s):
    w = f"{W}/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f"git -C /repo archive HEAD | tar x -C {w}; cd {w} && git init -q && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x")
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) < 1:
            return s["id"], "edit does not apply: " + old[:60]
        open(p, "w").write(t.replace(old, new, 1))
    diff = sh(f"git -C {w} diff").stdout
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip())
    shutil.copy(os.path.join(HERE, "seed_run.py"), os.path.join(d, "run.py"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# builds demo.rs against the crate in the current directory, in a scratch directory, and runs it\nexec python3 "$(dirname "$0")/run.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/target")
    out = ""
    for feat in ("", "--features serde-serialize"):
        out += sh(f"cargo test --offline --no-fail-fast {feat}", cwd=w, env=env).stdout
    passed = len(re.findall(r"^test .* \.\.\. ok", out, re.M))
    failed = re.findall(r"^test .* \.\.\. FAILED", out, re.M)
    if failed or "could not compile" in out or passed < 25:
        err = re.findall(r"^error.*(?:\n.*){6}", out, re.M)
        shutil.rmtree(w)
        return s["id"], f"tests: {passed} ok, failed {failed} {err[:2]}"
    r = sh(f"bash {d}/demo.sh", cwd=w)
    c = sh(f"bash {d}/demo.sh", cwd="/repo")
    shutil.rmtree(w)
    if c.returncode != 0:
        return s["id"], "demo fails on the clean tree: " + c.stdout[-1500:]
    if r.returncode == 0:
        return s["id"], "demo passes with the patch"
    if "error[" in r.stdout or "could not compile" in r.stdout:
        return s["id"], "demo does not compile " + r.stdout[-500:]
    return s["id"], "ok"

todo = [s for s in SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:]]
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, todo):
        print(i, m, flush=True)
        if m != "ok":
            shutil.rmtree(os.path.join(OUT, i), ignore_errors=True)
