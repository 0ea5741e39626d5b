"""C33: external tools: argument lists, exit statuses, and the data handed from tool to tool."""
import re
from .pyfront import *
from . import c30

ARGV = ["prog", "\u27e6user argument 1\u27e7", "\u27e6user argument 2\u27e7"]
QUOTERS = ("quote", "escape", "list2cmdline", "replace(", "shlex", "lower()", "upper()", "strip(")


def hookfor(env=None, cli=False):
    def fixed(ai, name, args, kw, node):
        if name == "fn:CppCompilerBackend._find_cpp_compiler": return ("\u27e6found compiler\u27e7",)
        if name in ("os.environ.get", "os.getenv") and env is not None and args and isinstance(args[0], str):
            if args[0] in env: return (env[args[0]],)
            return (args[1] if len(args) > 1 else None,)
        if name == "os.execv" or name == "os.execvp":
            ai.event("exec", name, args, kw, node)
            raise ai.exc(SystemExit, 0, node=node)
        return None
    return c30.mkhook(fixed)


def attrhook(ai, o, name, node):
    if isinstance(o, Ext) and o.name == "sys" and name == "argv": return (VList(list(ARGV)),)
    return None


def flat(v):
    if isinstance(v, VList): return [show(x) for x in v.items]
    if isinstance(v, tuple): return [show(x) for x in v]
    return None


class V:
    """collected verdicts of one path"""
    def __init__(self): self.bad, self.okn = [], 0
    def no(self, key, node, msg): self.bad.append((key, node, msg))
    def yes(self): self.okn += 1


def process_rules(p, v):
    """rules for every program run on the path"""
    for kind, lab, args, kw, node in p.ai.events:
        if kind == "exec":
            a = flat(args[1]) if len(args) > 1 else None
            if a is None: continue
            if a[1:] != ARGV[1:]: v.no("%s:argv" % infn(node), node, "the program that replaces this process gets %s instead of the caller's arguments" % a[1:])
            else: v.yes()
        if kind != "process": continue
        if lab in ("os.system", "os.popen") or kw.get("shell") not in (None, False):
            v.no("%s:shell" % infn(node), node, "the command line is interpreted by a shell"); continue
        a = flat(args[0]) if args else None
        if a is None:
            if args and isinstance(args[0], str): v.no("%s:string" % infn(node), node, "the command is one string, not a list of arguments")
            continue
        q = [x for x in a if opaque(x) and any(w in x.split("\u27e6", 1)[1] for w in QUOTERS)]
        if q: v.no("%s:quoted" % infn(node), node, "an argument is changed before it is passed: %s" % q[0][:120])
        else: v.yes()
    failed = [e for e in p.ai.events if e[0] == "process" and e[3].get("_rc")]
    if failed:
        if p.kind == "return":
            v.no("%s:status" % infn(failed[0][4]), failed[0][4], "a non-zero exit status of the program goes unnoticed: the call returns normally")
        elif p.kind == "raise" and isinstance(p.value.cls, BExc) and p.value.cls.c is SystemExit and not any(x for x in p.value.attrs.get("args", ()) if x):
            v.no("%s:status" % infn(failed[0][4]), failed[0][4], "a non-zero exit status of the program ends in a successful exit")
        else: v.yes()


def cli_rules(p, v, want, expect_pair):
    ev = [e for e in p.ai.events if e[0] == "process"]
    if p.kind == "undecided" or not ev: return
    a = flat(ev[0][2][0]) if ev[0][2] else None
    node = ev[0][4]
    if a is not None:
        if a[1:] != ["\u27e6o1\u27e7", "\u27e6o2\u27e7"] or "binary path" not in a[0]:
            v.no("%s:list" % infn(node), node, "the program is run with %s instead of the binary and the given options" % a)
        else: v.yes()
    inp = ev[0][3].get("input")
    if inp is not None and show(inp) != "\u27e6text\u27e7": v.no("%s:input" % infn(node), node, "the program's input is %s instead of the given text" % show(inp))
    if p.kind == "return" and not ev[0][3].get("_rc"):
        r = p.value
        got = [show(x) for x in r] if isinstance(r, tuple) else [show(r)]
        if any("stdout" not in g and "stderr" not in g for g in got): return
        if got != expect_pair: v.no("%s:output" % infn(node), node, "the call returns %s instead of %s" % (got, expect_pair))
        else: v.yes()


def cxx_rules(p, v):
    ev = [e for e in p.ai.events if e[0] == "process"]
    if not ev: return
    a = flat(ev[0][2][0]) if ev[0][2] else None
    if a is None: return
    node = ev[0][4]
    want = {"\u27e6source\u27e7": "", "\u27e6i1\u27e7": "-I", "\u27e6i2\u27e7": "-I", "\u27e6L1\u27e7": "-L", "\u27e6L2\u27e7": "-L", "\u27e6p1\u27e7": "",
            "\u27e6f1\u27e7": "", "\u27e6f2\u27e7": ""}
    for w, pre in want.items():
        n = [x for x in a if w in x]
        if n != [pre + w] and not (pre and n == [w]):
            v.no("%s:arg:%s" % (infn(node), w.strip("\u27e6\u27e7")[0]), node, "%s is passed to the compiler as %s" % (w, n or "nothing"))
        else: v.yes()
        if pre and n == [w] and (a.index(w) == 0 or a[a.index(w) - 1] != pre): v.no("%s:arg:%s" % (infn(node), w.strip("\u27e6\u27e7")[0]), node, "%s is passed without %s" % (w, pre))
    ls = [x for x in a if "\u27e6lib1\u27e7" in x]
    if not ls: v.no("%s:arg:l" % infn(node), node, "a link library is not passed to the compiler")
    if "\u27e6compiler\u27e7" != a[0]: v.no("%s:compiler" % infn(node), node, "the program run is %s, not the chosen compiler" % a[0])
    out = show(Sym("output path"))
    if out not in a or "-o" not in a or a.index("-o") + 1 != a.index(out): v.no("%s:out" % infn(node), node, "the output file does not follow -o")
    else: v.yes()


def chain_rules(p, v, form):
    """optimizer and translator runs of one successful compilation: each gets what the one before produced"""
    if p.kind != "return": return
    ev = [e for e in p.ai.events if e[0] == "process" and flat(e[2][0] if e[2] else None) is not None]
    runs = []
    outs = 0
    for e in ev:
        a = flat(e[2][0])
        runs.append((a, e[3].get("input"), e[4]))
    prev = None
    order = []
    n = 0
    for e in p.ai.events:
        if e[0] == "process":
            n += 1
            a = flat(e[2][0]) if e[2] else None
            if a is None: return
            out = "\u27e6stdout%s\u27e7" % ("" if n == 1 else "#%d" % n)
            order.append((a, e[3].get("input"), e[4], out))
    src = None
    for a, inp, node, out in order:
        has = lambda s: any(x.startswith(s) or x == s for x in a)
        i = show(inp) if inp is not None else None
        if has("--emit-function-info") or has("--mlir-print-op-generic"): continue
        if has("--shape-inference"):
            src = out; continue
        if has("--annotate-secretness"): 
            continue
        if "\u27e6option\u27e7" in a:
            if src is not None and i is not None and i != src: v.no("%s:chain" % infn(node), node, "the optimizer does not get the output of the shape inference run")
            else: v.yes()
            if not "opt path" in a[0]: v.no("%s:tool" % infn(node), node, "the optimizer options are passed to %s" % a[0])
            src = out; continue
        if has("--scheme-to-openfhe"):
            if i is not None and i != src: v.no("%s:chain" % infn(node), node, "the backend's optimizer run does not get the output of the optimizer")
            else: v.yes()
            src = out; continue
        if has("--emit-openfhe-pke"):
            if i is not None and i != src: v.no("%s:chain" % infn(node), node, "the translator does not get the output of the last optimizer run")
            else: v.yes()
            if not "translate path" in a[0]: v.no("%s:tool" % infn(node), node, "the translator options are passed to %s" % a[0])
    if form and not any("\u27e6option\u27e7" in a for a, _, _, _ in order):
        v.no("run_pipeline:option", None, "the caller's optimizer option is not passed to any program")


def scenarios():
    L = lambda *x: VList(list(x))
    out = []
    for cls in ("HeirOptBackend", "HeirTranslateBackend"):
        for m, pair in (("run_binary", ["\u27e6stdout\u27e7"]), ("run_binary_stderr", ["\u27e6stdout\u27e7", "\u27e6stderr\u27e7"])):
            def run(ai, cls=cls, m=m):
                b = ai.call(ai.getattr(ai.module("heir.heir_cli.heir_cli"), cls, None), ["\u27e6binary path\u27e7"], {}, None)
                return ai.call(ai.getattr(b, m, None), [], dict(options=L("\u27e6o1\u27e7", "\u27e6o2\u27e7"), input="\u27e6text\u27e7"), None)
            out.append(("%s.%s" % (cls, m), run, lambda p, v, pair=pair: cli_rules(p, v, None, pair), None))

    def cxx(ai):
        m = ai.module("heir.backends.util.cpp_compiler")
        b = ai.call(ai.getattr(m, "CppCompilerBackend", None), ["\u27e6compiler\u27e7"], {}, None)
        so = Sym("output path", truth=True); so.attrs["suffix"] = ".so"
        ai.call(ai.getattr(b, "compile_to_shared_object", None), ["\u27e6source\u27e7", so], dict(
            include_paths=L("\u27e6i1\u27e7", "\u27e6i2\u27e7"), linker_search_paths=L("\u27e6L1\u27e7", "\u27e6L2\u27e7"), link_libs=L("\u27e6lib1\u27e7"),
            linker_args=L("-rpath", "\u27e6a\u27e7"), abs_link_lib_paths=L("\u27e6p1\u27e7"), compiler_flags=L("\u27e6f1\u27e7", "\u27e6f2\u27e7")), None)
    out.append(("compile_to_shared_object", cxx, cxx_rules, None))
    for e in ("run_heir_opt", "run_heir_translate"):
        def ent(ai, e=e): return ai.call(ai.getattr(ai.module("heir.entrypoints"), e, None), [], {}, None)

        def entrule(p, v, e=e):
            ex = [x for x in p.ai.events if x[0] == "exec"]
            if p.kind == "return" and not ex: v.no("entrypoints:%s" % e, None, "the wrapper returns successfully without running the tool")
            if p.kind == "raise" and not ex and isinstance(p.value.cls, BExc) and p.value.cls.c is SystemExit and not any(x for x in p.value.attrs.get("args", ()) if x):
                v.no("entrypoints:%s" % e, p.node, "the wrapper exits successfully without running the tool")
            for x in ex:
                t = {"run_heir_opt": "heir-opt", "run_heir_translate": "heir-translate"}[e]
                if t not in show(x[2][0]) : v.no("entrypoints:%s:tool" % e, x[4], "the wrapper runs %s instead of %s" % (show(x[2][0]), t))
        out.append(("entrypoints." + e, ent, entrule, None))
    # configuration
    envs = {"HEIR_OPT_PATH": ("heir_opt_path", "\u27e6env opt\u27e7"), "HEIR_TRANSLATE_PATH": ("heir_translate_path", "\u27e6env translate\u27e7"),
            "HEIR_ABC_BINARY": ("abc_path", "\u27e6env abc\u27e7"), "HEIR_YOSYS_SCRIPTS_DIR": ("techmap_dir_path", "\u27e6env yosys\u27e7")}

    def envconf(ai): return ai.call(ai.getattr(ai.module("heir.heir_cli.heir_cli_config"), "from_os_env", None), [], {}, None)

    def envrule(p, v):
        if p.kind != "return" or not isinstance(p.value, VObj): return
        for k, (fld, val) in envs.items():
            got = p.value.attrs.get(fld)
            if got is None: continue
            if show(got) != val: v.no("heir_cli_config:from_os_env:%s" % fld, None, "%s is set but %s becomes %s" % (k, fld, show(got)))
            else: v.yes()
    out.append(("heir_cli_config.from_os_env", envconf, envrule, {k: x[1] for k, x in envs.items()}))
    oenv = {"OPENFHE_INCLUDE_DIR": "/i1:/i2", "OPENFHE_LIB_DIR": "\u27e6env lib dir\u27e7", "OPENFHE_LINK_LIBS": "l1:l2", "OPENFHE_INCLUDE_TYPE": "\u27e6env type\u27e7"}

    def ofhe(ai): return ai.call(ai.getattr(ai.module("heir.backends.openfhe.config"), "from_os_env", None), [], {}, None)

    def ofherule(p, v):
        if p.kind != "return" or not isinstance(p.value, VObj): return
        got = {k: x for k, x in p.value.attrs.items()}
        want = {"include_dirs": ["/i1", "/i2"], "link_libs": ["l1", "l2"], "lib_dir": "\u27e6env lib dir\u27e7", "include_type": "\u27e6env type\u27e7"}
        bazel = any(n == "not (%s in os.environ)" % k and not x or (isinstance(n, str) and "RUNFILES" in n and x == 0) for n, x in p.ai.notes for k in ("RUNFILES_DIR",))
        for k, w in want.items():
            g = got.get(k)
            if g is None: continue
            g2 = flat(g) if not isinstance(g, str) else g
            if isinstance(w, list):
                if g2 is None: continue
                # extra parent directories may be added
                have = [x for x in g2 if x in w] if k == "include_dirs" else g2
                if have != w and not any("os.path.join" in str(x) for x in g2): v.no("openfhe/config:from_os_env:%s" % k, None, "%s is %s instead of %s" % (k, g2, w))
                else: v.yes()
            elif show(g) != w and "os.path.join" not in show(g): v.no("openfhe/config:from_os_env:%s" % k, None, "%s is %s instead of %s" % (k, show(g), w))
            else: v.yes()
    out.append(("openfhe config.from_os_env", ofhe, ofherule, oenv))
    for name, debug, run, nf in c30.scenarios(None):
        if name.startswith("run_pipeline"):
            out.append((name, run, lambda p, v, f=("openfhe" in name): chain_rules(p, v, f), {}))
            if debug: continue

            def envset(p, v):
                for kind, lab, args, kw, node in p.ai.events:
                    if kind == "setitem" and lab == "os.environ":
                        for key, src in (("HEIR_ABC_BINARY", "abc"), ("HEIR_YOSYS_SCRIPTS_DIR", "techmap")):
                            if args[0] == key:
                                if "\u27e6%s\u27e7" % src not in show(args[1]): v.no("run_pipeline:env:%s" % key, node, "%s is set to %s" % (key, show(args[1])))
                                else: v.yes()
            if "cleartext" in name: out.append((name + ", environment", run, envset, {}))
    return out


def check(c):
    c.rule("every program is run from an argument list, without a shell; no element is quoted, escaped or cut on its way from the caller, the configuration or the environment")
    c.rule("on every path on which a program exits with a non-zero status, the call ends with an error (or a non-zero exit status)")
    c.rule("wrappers return the program's output streams in order; each stage of a compilation gets the output of the stage before; tools and options are not exchanged")
    lst = scenarios()

    def job(i):
        name, run, rule, env = lst[i]
        ps = explore(run, limit=2500 if c.tier == "thorough" else 400, hook=hookfor(env), attrhook=attrhook, maxfaults=1, maxiter=1)
        out = []
        for p in ps:
            if p.kind == "undecided":
                out.append(("und", p.why, fname(p, p.node) if p.node is not None else "")); continue
            v = V()
            process_rules(p, v)
            rule(p, v)
            for key, node, msg in v.bad: out.append(("bad", key, fname(p, node) if node is not None else "frontend", msg + (": " + p.given()[:200] if p.given() else "")))
            out.append(("ok", v.okn))
        return out
    seen = set()
    for (name, _, _, _), res in zip(lst, parallel(job, len(lst))):
        c.count("scenarios")
        for r in res:
            if r[0] == "ok":
                c.count("paths"); c.obl += r[1]; c.done += r[1]; c.count("argument lists, statuses and data flows checked", r[1])
            elif r[0] == "bad": once(c, *r[1:])
            elif (name, r[1]) not in seen:
                seen.add((name, r[1])); c.undecided(name, "%s (%s)" % r[1:])
    c.samples.extend(n for n, _, _, _ in lst[:30])
    c.need("paths", 10)
    c.assume.append("subprocess, os.exec* and the file system behave as documented; developer scripts under scripts/ are outside this check")
    return c.finish("Path-enumerating abstract interpretation of the front-end with opaque paths, options and texts; each program exits with zero or non-zero status")
