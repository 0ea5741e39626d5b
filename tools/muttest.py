"""Tries small edits of /repo against one check, each in a private copy (mount namespace).
usage: muttest.py EDITS.py PID   where EDITS.py defines MUT = [(name, expect, [(file, old, new), ...])],
expect is 1 (must be reported) or 0 (must stay quiet)."""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
pid = sys.argv[2]
only = sys.argv[3:]
W = "/tmp/mutwork"
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)


def run(i, name, expect, edits):
    w = f"{W}/{i}"
    os.makedirs(w + "/ev")
    subprocess.run(["cp", "-a", os.environ.get("MUTSRC", "/repo"), w + "/repo"], check=True)
    for f, old, new in edits:
        p = f"{w}/repo/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return f"{name}: EDIT DOES NOT APPLY to {f}: {old[:50]!r}"
        open(p, "w").write(s.replace(old, new, 1))
    sc = f"mount --bind {w}/repo /repo && mount --bind {w}/ev {V}/evidence && cd {V} && timeout 900 python3 check.py {pid} quick"
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", sc], capture_output=True, text=True)
    shutil.rmtree(w)
    ok = r.returncode == expect
    lines = [l for l in (r.stdout + r.stderr).strip().split("\n")]
    show = [l.strip()[:230] for l in lines if l.startswith("  ")][:1 if ok else 4] or lines[-2:]
    return f"{'ok  ' if ok else 'FAIL'} {name}: exit {r.returncode} (want {expect}) " + " | ".join(show)


jobs = [(i, *m) for i, m in enumerate(ns["MUT"]) if not only or m[0] in only]
with ThreadPoolExecutor(6) as ex:
    for l in ex.map(lambda j: run(*j), jobs):
        print(l, flush=True)
shutil.rmtree(W, ignore_errors=True)
