"""Validates planted bugs in private copies of /repo (mount namespace), several at a time.
usage: seedtest.py [ID...]   prints one line per bug."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
names = base if isinstance(base, list) else list(base)


def run(i):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/seedwork/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sc = f"""
set -u
cp -a /repo {w}/repo && cp -a {d} {w}/seed && mkdir {w}/ev
mount --bind {w}/repo /repo
mount --bind {w}/ev {V}/evidence
cd /repo
bash /opt/vp/build.sh >{w}/b0 2>&1 || {{ echo BASEBUILD; exit; }}
bash {w}/seed/demo.sh >{w}/d0 2>&1; echo demo0=$?
git apply {w}/seed/patch.diff || {{ echo NOAPPLY; exit; }}
bash /opt/vp/build.sh >{w}/b1 2>&1 || {{ echo BUILDFAIL; tail -5 {w}/b1; exit; }}
bash /opt/vp/test.sh {w}/o.json >{w}/t 2>&1
bash {w}/seed/demo.sh >{w}/d1 2>&1; echo demo1=$?
cd {V}
timeout 900 python3 check.py {meta['property']} quick >{w}/c 2>&1; echo check=$?
"""
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", sc], capture_output=True, text=True)
    out = r.stdout.strip().replace("\n", " ") + " " + r.stderr.strip()[-200:]
    try:
        o = set(json.load(open(w + "/o.json"))["passed"])
        miss = [n for n in names if n not in o]
        out += f" tests_lost={miss[:3]}" if miss else " tests=ok"
    except Exception as e:
        out += f" tests=?{e}"
    det = ""
    for fn in ("d0", "d1", "c"):
        if os.path.exists(f"{w}/{fn}"):
            t = open(f"{w}/{fn}").read().strip().split("\n")
            det += f"\n    {fn}: " + " | ".join(x[:150] for x in (t[-2:] if fn != "c" else t[1:3]))
    shutil.rmtree(w, ignore_errors=True)
    return i, meta["property"], out, det


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for i, p, out, det in ex.map(run, ids):
        print(i, p, out, det if "-v" in sys.argv or not ("demo0=0" in out and "demo1=0" not in out and "check=1" in out and "tests=ok" in out) else "")
        sys.stdout.flush()
