"""C30: the Python front-end leaves its inputs and working directory as it found them."""
from .pyfront import *

QUIET = ("builtins.", "os.path.", "os.environ", "os.getenv", "pathlib.", "colorama", "sysconfig.", "shlex.", "copy.", "typing", "re.", "sys.path",
         "platform.", "functools", "dataclasses", "importlib.invalidate", "traceback", "logging", "operator.", "warnings")
CLEAN = ("shutil.rmtree", "tempfile.", "os.unlink", "os.remove", "os.rmdir")


def faulty(name, args):
    if name == "builtins.open": return True
    return not name.startswith(QUIET + CLEAN)


def mkhook(fixed):
    def hook(ai, name, args, kw, node):
        if name in RUNNERS:
            rc = 0
            if not ai.faults or len(ai.faults) < ai.maxfaults:
                rc = ai.choose(("rc", ai.fresh("rc")), 2, "the external program of line %s exits with a non-zero status" % rel(node))
                if rc: ai.faults.append((name, node))
            return runner(ai, name, args, kw, node, rc)
        if name == "fn:TextualMlirEmitter.__init__": return (None,)
        if name == "fn:TextualMlirEmitter.emit":
            if len(ai.faults) < ai.maxfaults and ai.choose(("fault", "emit"), 2, "the emitter rejects the function"):
                ai.faults.append((name, node))
                raise ai.exc(ExternalFault, "emit", node=node)
            return ("\u27e6mlir text\u27e7",)
        if name == "fn:parse_annotations":
            if len(ai.faults) < ai.maxfaults and ai.choose(("fault", "annotations"), 2, "the annotations are rejected"):
                ai.faults.append((name, node))
                raise ai.exc(TypeError, "annotations", node=node)
            return ((VList([Sym("numba type")]), VList([0]), Sym("return type")),)
        if name == "fn:is_pip_installed": return (ai.choose(("pip",), 2, "heir is installed with pip") == 1,)
        if name == "fn:get_repo_root": return (Sym("repo root", truth=True),)
        if name == "tempfile.mkdtemp":
            s = Sym(ai.fresh("working directory"), truth=True)
            ai.event("mkdir", s.label, [s], {}, node)
            return (s,)
        if name == "tempfile.TemporaryDirectory":
            s = Sym(ai.fresh("tempfile.TemporaryDirectory()"), truth=True)
            w = Sym(ai.fresh("working directory"), truth=True)
            s.attrs["__entered__"] = w; s.attrs["name"] = w
            ai.event("mkdir", w.label, [w, s], dict(kw), node)
            return (s,)
        if name == "builtins.open": return None
        return fixed(ai, name, args, kw, node) if fixed else None
    return hook


def cleaned(p, debug):
    """working directories created on this path that still exist at its end"""
    made, owner = {}, {}
    for kind, lab, args, kw, node in p.ai.events:
        if kind == "mkdir":
            made[lab] = node
            if len(args) > 1: owner[args[1].label] = lab
        elif kind == "call" and lab in ("shutil.rmtree", "os.rmdir") and args: made.pop(core(show(args[0])), None)
        elif kind == "call" and lab.endswith(".cleanup"): made.pop(owner.get(lab[:-8]), None)
        elif kind == "call" and lab.endswith(".rmdir"): made.pop(core(lab[:-6]), None)
        elif kind == "exit" and lab in owner: made.pop(owner[lab], None)
    return made


def core(s):
    """label of the directory inside str(Path(x)), f'{x}' ..."""
    import re
    m = re.search(r"working directory(#\d+)?", s)
    return m.group(0) if m else s


def scenarios(c):
    """(name, debug, run(ai))"""
    lst = lambda owner, *xs: VList(list(xs), owner=owner)

    def world(ai):
        pl = ai.module("heir.pipeline")
        cfg = ai.module("heir.heir_cli.heir_cli_config")
        conf = ai.call(ai.getattr(cfg, "HEIRConfig", None), [], dict(heir_opt_path="\u27e6opt path\u27e7", heir_translate_path="\u27e6translate path\u27e7",
                       techmap_dir_path="\u27e6techmap\u27e7", abc_path="\u27e6abc\u27e7"), None)
        return pl, conf

    def backend(ai, kind):
        if kind == "cleartext":
            m = ai.module("heir.backends.cleartext")
            return ai.call(ai.getattr(m, "CleartextBackend", None), [], {}, None)
        m = ai.module("heir.backends.openfhe.backend")
        oc = ai.module("heir.backends.openfhe.config")
        conf = ai.call(ai.getattr(oc, "OpenFHEConfig", None), [], dict(include_dirs=lst("the backend configuration's include_dirs", "\u27e6inc\u27e7"),
                       include_type="source-relative", lib_dir="\u27e6lib dir\u27e7", link_libs=lst("the backend configuration's link_libs", "\u27e6lib\u27e7")), None)
        conf.owner = "the backend configuration"
        b = ai.call(ai.getattr(m, "OpenFHEBackend", None), [conf], {}, None)
        return b

    def source(ai, form):
        if form == "mlir": return "\u27e6mlir input\u27e7"
        return Sym("function", truth=True, isa={"Callable": True, "str": False})

    out = []
    for form in ("function", "mlir"):
        for be in ("cleartext", "openfhe"):
            for debug in (False, True):
                def run(ai, form=form, be=be, debug=debug):
                    pl, conf = world(ai)
                    opts = lst("the caller's heir_opt_options", "\u27e6option\u27e7")
                    return ai.call(ai.getattr(pl, "run_pipeline", None), [source(ai, form), opts, backend(ai, be), conf, debug], {}, None)
                out.append(("run_pipeline(%s, %s, debug=%s)" % (form, be, debug), debug, run, 1))
    for form in ("function", "mlir"):
        for given in (True, False):
            def run(ai, form=form, given=given):
                pl, conf = world(ai)
                kw = dict(scheme="bgv", backend=backend(ai, "cleartext"), config=conf, debug=False)
                if given: kw["heir_opt_options"] = lst("the caller's heir_opt_options", "\u27e6option\u27e7")
                if form == "mlir": return ai.call(ai.getattr(pl, "compile", None), ["\u27e6mlir input\u27e7"], kw, None)
                d = ai.call(ai.getattr(pl, "compile", None), [], kw, None)
                ai.call(d, [source(ai, form)], {}, None)
                return ai.call(d, [source(ai, form)], {}, None)
            out.append(("compile(%s%s), twice for a decorator" % (form, ", options" if given else ""), False, run, 1))

    def cxx(ai):
        m = ai.module("heir.backends.util.cpp_compiler")
        b = ai.call(ai.getattr(m, "CppCompilerBackend", None), ["\u27e6compiler\u27e7"], {}, None)
        so = Sym("output path", truth=True); so.attrs["suffix"] = ".so"
        for _ in range(2):
            ai.call(ai.getattr(b, "compile_to_shared_object", None), ["\u27e6source\u27e7", so], dict(
                include_paths=lst("the caller's include_paths", "\u27e6i\u27e7"), linker_search_paths=lst("the caller's linker_search_paths", "\u27e6L\u27e7"),
                link_libs=lst("the caller's link_libs", "\u27e6l\u27e7"), linker_args=lst("the caller's linker_args", "\u27e6a\u27e7"),
                abs_link_lib_paths=lst("the caller's abs_link_lib_paths", "\u27e6p\u27e7")), None)
    out.append(("compile_to_shared_object, twice", False, cxx, 1))

    def envconf(which):
        def run(ai):
            m = ai.module("heir.backends.openfhe.config")
            return ai.call(ai.getattr(m, which, None), [], {}, None)
        return run
    for w in ("from_os_env", "get_default_installed_config", "development_openfhe_config"):
        out.append(("openfhe/config.py " + w, False, envconf(w), 0))

    def cliconf(which):
        def run(ai):
            m = ai.module("heir.heir_cli.heir_cli_config")
            return ai.call(ai.getattr(m, which, None), [], {}, None)
        return run
    for w in ("from_os_env", "from_pip_installation", "development_heir_config"):
        out.append(("heir_cli_config.py " + w, False, cliconf(w), 0))
    return out


def check(c):
    c.rule("no path of the front-end reads a local variable that no statement on that path has set")
    c.rule("no path changes a list, dictionary or object that belongs to the caller, to a configuration object or to a default argument")
    c.rule("every working directory that a path creates without debugging is removed before the path ends, normally or by an exception of any stage")
    lst = scenarios(c)

    def job(i):
        name, debug, run, nf = lst[i]
        ps = explore(run, limit=4000 if c.tier == "thorough" else 700, hook=mkhook(None), faulty=faulty if nf else None,
                     maxfaults=2 if c.tier == "thorough" and nf else 1, maxiter=1)
        out = []
        for p in ps:
            if p.kind == "undecided":
                out.append(("und", p.why, fname(p, p.node) if p.node is not None else "")); continue
            n = len(out)
            for var, node, fr in p.ai.unbound[:1]:
                out.append(("bad", "%s:unset:%s" % (infn(node), var), fname(p, node), "variable %s is read although nothing on the path has set it: %s" % (var, p.given())))
            for owner, node, how in p.ai.mut:
                out.append(("bad", "%s:mutates:%s" % (infn(node), owner), fname(p, node), "%s is changed (%s)" % (owner, how)))
            if not debug:
                for lab, node in cleaned(p, debug).items():
                    out.append(("bad", "%s:workdir" % infn(node), fname(p, node), "the working directory created here is still there when the call ends (%s): %s" % (p.kind, p.given())))
            if len(out) == n: out.append(("ok", p.kind))
        return out
    seen = set()
    for (name, _, _, _), res in zip(lst, parallel(job, len(lst))):
        c.count("scenarios")
        for r in res:
            c.count("paths")
            if r[0] == "ok": c.ok("%s: %s" % (name, r[1]))
            elif r[0] == "bad": once(c, *r[1:])
            elif (name, r[1]) not in seen:
                seen.add((name, r[1])); c.undecided(name, "%s (%s)" % r[1:])
    c.need("paths", 20)
    c.assume.append("numba, the emitter and the file system are opaque: each of their calls returns an arbitrary value or fails")
    return c.finish("Path-enumerating abstract interpretation of the front-end's syntax tree; every call that leaves the repository may fail "
                    "(one failure per path, two in the thorough tier)")
