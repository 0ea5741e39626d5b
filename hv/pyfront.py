"""Common scenario pieces for the properties of the Python front-end."""
import ast, os
from . import facts
from .pyai import *

FE = "frontend/heir/"


def rel(node, ai=None):
    return getattr(node, "lineno", 0)


def fname(p, node):
    """file and line of a node, found through the parsed files"""
    from . import pyai
    for path, t in pyai._trees.items():
        if not hasattr(t, "_ids"): t._ids = {id(n) for n in ast.walk(t)}
        if id(node) in t._ids:
            return "%s:%s" % (os.path.relpath(path, facts.REPO), getattr(node, "lineno", 0))
    return "frontend"


def infn(node):
    """name of the innermost function around a node"""
    from . import pyai
    for path, t in pyai._trees.items():
        if not hasattr(t, "_ids"): t._ids = {id(n) for n in ast.walk(t)}
        if id(node) in t._ids:
            best = "module"
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and any(x is node for x in ast.walk(n)): best = n.name
            return "%s:%s" % (os.path.basename(path), best)
    return "?"


def completed(ai, rc, args):
    """result of subprocess.run"""
    s = Sym(ai.fresh("completed"), truth=True)
    s.attrs["returncode"] = rc
    s.attrs["stdout"] = "\u27e6%s\u27e7" % ai.fresh("stdout")
    s.attrs["stderr"] = "\u27e6%s\u27e7" % ai.fresh("stderr")
    s.attrs["args"] = args
    return s


RUNNERS = ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "os.system", "os.popen")


def runner(ai, name, args, kw, node, rc):
    """outcome of a process-spawning call whose program exits with status rc"""
    ai.event("process", name, args, dict(kw, _rc=rc), node)
    if name in ("subprocess.check_call", "subprocess.check_output") or (name == "subprocess.run" and kw.get("check") not in (None, False)):
        if rc: raise ai.exc(CalledProcessError, node=node)
    if name == "subprocess.run": return (completed(ai, rc, args[0] if args else None),)
    if name in ("subprocess.call", "subprocess.check_call", "os.system"): return (rc,)
    if name == "subprocess.check_output": return ("\u27e6%s\u27e7" % ai.fresh("stdout"),)
    if name == "subprocess.Popen":
        s = Sym(ai.fresh("process"), truth=True); s.attrs["returncode"] = rc
        s.attrs["_rc"] = rc
        return (s,)
    return None


def pmap(fn, n):
    """fn(0..n-1) in parallel processes; fn must return plain data"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1, max(n, 1))) as pool:
        return pool.map(fn, range(n), chunksize=1)


_job = None


def _runjob(i): return _job(i)


def parallel(fn, n):
    global _job
    _job = fn
    return pmap(_runjob, n)


def once(c, key, where, msg):
    if not any(v[0] == key for v in c.viol): c.bad(key, where, msg)
    else: c.obl += 1
