#!/usr/bin/env python3
"""iso.py NAME SRC_TRANSFORM CHECK...: run checks against a changed copy of /repo, in a private
mount namespace (development tool; no check uses it). SRC_TRANSFORM is a patch
file, '-' or a python file with a function edit(src_dir)."""
import os, shutil, subprocess, sys, importlib.util, concurrent.futures as cf
def prep(name, change, verif="/verif"):
    d = f"/tmp/iso/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude=target", "/repo/", d + "/repo/"] if shutil.which("rsync") else
                   ["sh", "-c", f"mkdir -p {d}/repo && cd /repo && tar c --exclude=./target . | tar x -C {d}/repo"], check=True)
    subprocess.run(["cp", "-a", verif, d + "/verif"], check=True)
    if callable(change):
        change(d + "/repo/src")
    elif change != "-":
        subprocess.run(["git", "apply", change], cwd=d + "/repo", check=True)
    return d
def run(name, change, checks, tail=250):
    d = prep(name, change)
    out = []
    for c in checks:
        r = subprocess.run(["unshare", "-m", "sh", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && timeout 900 python3 check.py {c}"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = [l[:tail] for l in r.stdout.splitlines() if any(w in l for w in ("VIOLATION", "UNDEC", "ERROR", "error", "failed obligation"))]
        out.append((c, r.returncode, ls))
    shutil.rmtree(d, ignore_errors=True)
    return out
if __name__ == "__main__":
    for c, rc, ls in run(sys.argv[1], sys.argv[2], sys.argv[3:]):
        print(c, rc, *ls, sep="\n   ")
