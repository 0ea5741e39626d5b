"""Obtains the resolved program of /repo: builds the extractor, runs tablegen,
parses translation units with the real build's flags, loads the JSON facts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
CACHE = os.environ.get("HV_CACHE", os.path.join(VERIF, ".build"))
LLVM20 = "/usr/lib/llvm-20"
SHIM = "/opt/vp/heir/shim"
KNOWN = "/opt/vp/heir/known_good.txt"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure)."""


def _hash(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def tool():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "heir-extract-" + _hash(src)[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(
            ["clang++-18", "-std=c++17", "-O0", "-w", "-fno-rtti", "-I/usr/lib/llvm-18/include",
             "-D_GNU_SOURCE", src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
             "/usr/lib/llvm-18/lib/libLLVM.so", "-Wl,-rpath,/usr/lib/llvm-18/lib"],
            capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


_gen_lock = threading.Lock()
_gen_dir = None


def gen_dir():
    """Regenerates the tablegen outputs of the current tree into our own cache."""
    global _gen_dir
    with _gen_lock:
        if _gen_dir:
            return _gen_dir
        ninja = os.path.join(REPO, "_build/build.ninja")
        if not os.path.exists(ninja):
            if REPO == "/repo":
                subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
            if not os.path.exists(ninja):
                raise AnalysisBroken("no /repo/_build/build.ninja")
        h = hashlib.sha256()
        for f in sorted(subprocess.check_output(["find", REPO + "/lib", "-name", "*.td"], text=True).split()):
            h.update(f[len(REPO):].encode()); h.update(open(f, "rb").read())
        h.update(open(ninja, "rb").read())
        th = hashlib.sha256()
        for f in sorted(glob.glob(REPO + "/lib/Tablegen/*")):
            if f.endswith((".cpp", ".h")):
                th.update(open(f, "rb").read())
        h.update(th.digest())
        out = os.path.join(CACHE, "gen-" + h.hexdigest()[:16])
        if not os.path.exists(out + "/.done"):
            shutil.rmtree(out, ignore_errors=True)
            jobs = []
            cur = None
            for line in open(ninja):
                m = re.match(r"build gen/(\S+): tblgen (\S+) \|", line)
                if m:
                    cur = [m.group(1), m.group(2)]
                    continue
                m = re.match(r"  (tool|opts|dir) = (.*)", line)
                if m and cur:
                    cur.append(m.group(2).strip())
                    if len(cur) == 5:
                        jobs.append(cur); cur = None

            def one(j):
                o, td, tl, opts, d = j
                td = td.replace("/repo/", REPO + "/", 1); d = d.replace("/repo/", REPO + "/", 1)
                dst = os.path.join(out, o)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                if "heir-tblgen" in tl:
                    old = os.path.join(REPO, "_build/gen", o)
                    exe = generator(th.hexdigest()[:16])
                    if os.path.exists(exe):
                        r = subprocess.run([exe, *opts.split(), "-I" + REPO, "-I" + d, f"-I{LLVM20}/include", td, "-o", dst], capture_output=True, text=True)
                        if r.returncode == 0:
                            return
                    if os.path.exists(old):
                        shutil.copy(old, dst)
                    return
                r = subprocess.run([tl, *opts.split(), "-I" + REPO, "-I" + d, f"-I{LLVM20}/include", td, "-o", dst], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken("tablegen failed on " + td + ": " + r.stderr[-500:])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(one, jobs))
            open(out + "/.done", "w").close()
        _gen_dir = out
        return out


_tg_lock = threading.Lock()


def generator(key):
    """The project's own tablegen backend, built from the current tree."""
    exe = os.path.join(CACHE, "heir-tblgen-" + key)
    with _tg_lock:
        if not os.path.exists(exe):
            srcs = [f for f in sorted(glob.glob(REPO + "/lib/Tablegen/*.cpp"))]
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([LLVM20 + "/bin/clang++", "-std=c++20", "-O0", "-w", "-I" + REPO, "-isystem", SHIM, "-isystem", LLVM20 + "/include",
                                *srcs, "-fuse-ld=lld", "-L" + LLVM20 + "/lib", "-Wl,-rpath," + LLVM20 + "/lib",
                                "-lLLVMTableGen", "-lLLVM-20", "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return os.path.join(REPO, "_build/heir-tblgen")
            os.replace(tmp, exe)
    return exe


def flags():
    return ["-std=c++20", "-w", "-I" + REPO, "-I" + gen_dir(), "-isystem", SHIM, "-isystem", LLVM20 + "/include",
            "-isystem", "/usr/include/eigen3", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


ISL = [f"-D__isl_{k}=__attribute__((annotate(\"isl_{k}\")))" for k in ("take", "give", "keep", "null")]


def extract(src, extra=(), allow_errors=False, gen=()):
    """Facts of one TU (dict). Cached by the content of every repo file it read."""
    exe = tool()
    fl = flags() + list(extra)
    groots = [os.path.join(gen_dir(), g) for g in gen]
    key = hashlib.sha256(("\0".join([exe, src, REPO] + fl + groots)).encode()).hexdigest()[:24]
    cf = os.path.join(CACHE, "tu", key + ".json")
    os.makedirs(os.path.dirname(cf), exist_ok=True)
    df = cf + ".deps"
    if os.path.exists(cf) and os.path.exists(df):
        try:
            deps = json.load(open(df))
            if all(os.path.exists(p) and _hash(p) == h for p, h in deps.items()):
                return json.load(open(cf))
        except Exception:
            pass
    tmp = cf + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    roots = ",".join([REPO + "/", VERIF + "/drivers/"] + groots)
    r = subprocess.run([exe, tmp, src, roots, REPO + "/_build", "--"] + fl, capture_output=True, text=True,
                       cwd=os.path.join(REPO, "_build") if os.path.isdir(os.path.join(REPO, "_build")) else REPO)
    if not os.path.exists(tmp):
        raise AnalysisBroken(f"extractor failed on {src}: {r.stderr[-1500:]}")
    d = json.load(open(tmp))
    if d.get("errors") and not allow_errors:
        os.unlink(tmp)
        raise AnalysisBroken(f"{src} does not parse: {r.stderr[:1500]}")
    d["stderr"] = r.stderr[:2000] if d.get("errors") else ""
    json.dump(d, open(tmp, "w"))
    deps = {p: _hash(p) for p in d["deps"] if os.path.exists(p)}
    deps[src] = _hash(src)
    os.replace(tmp, cf)
    json.dump(deps, open(df, "w"))
    return d


def sources():
    """The C++ sources the build covers, minus the tests and fuzzers."""
    ninja = os.path.join(REPO, "_build/build.ninja")
    gen_dir()
    s = set()
    for line in open(ninja):
        m = re.match(r"build obj/(\S+)\.o: cxx ", line)
        if m:
            s.add(m.group(1))
    s |= {l.strip() for l in open(KNOWN) if l.strip() and not l.startswith("#")} if os.path.exists(KNOWN) else set()
    out = []
    for x in sorted(s):
        b = os.path.basename(x)
        if not x.endswith(".cpp"):
            continue
        if re.search(r"(Test|TestUtil|TestUtils|TestingUtils|Benchmark|_fuzz|_benchmark)\.cpp$", b) or b.startswith("debug_"):
            if b != "TestingUtils.cpp":
                continue
        if os.path.exists(os.path.join(REPO, x)):
            out.append(x)
    return out


def extract_all(srcs, extra=(), gen=()):
    tool(); gen_dir()
    with ThreadPoolExecutor(int(os.environ.get("HV_JOBS", "8"))) as ex:
        return list(ex.map(lambda s: extract(s if s.startswith("/") else os.path.join(REPO, s), extra, False, gen), srcs))
