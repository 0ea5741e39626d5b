"""C31: secret arguments are encrypted with their own routine, plain ones pass unchanged; nothing works before setup."""
import itertools
from .pyfront import *
from . import c30, c33

CC, SK, PK = "cc", "sk", "pk"


def hook_extra(ai, name, args, kw, node):
    if name == "fn:CppCompilerBackend._find_cpp_compiler": return ("\u27e6found compiler\u27e7",)
    if name == "fn:CppCompilerBackend.compile_to_shared_object": return (None,)
    if name in ("fn:pybind11_includes", "fn:pybind11_libs", "fn:python_link_libs"): return (VList([]),)
    if name == "fn:pyconfig_ext_suffix": return (".so",)
    if name == "importlib.import_module": return (ai.world["module"],)
    if name == "typing.get_origin":
        a = args[0]
        return (a.attrs.get("origin") if isinstance(a, VObj) else None,)
    if name == "typing.get_args":
        a = args[0]
        return (a.attrs.get("args", ()) if isinstance(a, VObj) else (),)
    if name.startswith(("numba.core.types.",)) and name.endswith("[]"): return (Sym(ai.fresh("array type"), truth=True),)
    return None


HOOK = c30.mkhook(hook_extra)


def client(ai, be, n, secret):
    """client interface built by the backend for a function f(a0..), with the given secret positions"""
    mod = Sym("module", truth=True)
    ai.world = {"module": mod}
    for g in ["f", "f__decrypt__result0", "f__generate_crypto_context", "f__configure_crypto_context"] + ["f__encrypt__arg%d" % i for i in range(n)]:
        mod.attrs[g] = Ext("module." + g)
    names = VList(["a%d" % i for i in range(n)])
    sec = VList(list(secret))
    if be == "cleartext":
        b = ai.call(ai.getattr(ai.module("heir.backends.cleartext"), "CleartextBackend", None), [], {}, None)
    else:
        oc = ai.module("heir.backends.openfhe.config")
        conf = ai.call(ai.getattr(oc, "OpenFHEConfig", None), [], dict(include_dirs=VList(["/i"]), include_type="t", lib_dir="/l", link_libs=VList(["x"])), None)
        b = ai.call(ai.getattr(ai.module("heir.backends.openfhe.backend"), "OpenFHEBackend", None), [conf], {}, None)
    tool = Sym("tool", truth=True)
    tool.attrs["run_binary_stderr"] = Ext("tool.run_binary_stderr")
    ci = ai.call(ai.getattr(b, "run_backend", None), ["/w", tool, tool, "f", names, sec, "\u27e6ir\u27e7", False], {}, None)
    ai.setattr(ci, "func", Sym("original", truth=True), None)
    ai.events.clear()
    return ci


def toolhook(ai, name, args, kw, node):
    if name == "tool.run_binary_stderr": return (("\u27e6out\u27e7", "\u27e6err\u27e7"),)
    # the compiled module
    if name.startswith("module.f__generate_crypto_context"):
        ai.event("call", name, args, kw, node)
        s = Sym(CC, truth=True); return (s,)
    if name.endswith(".KeyGen"):
        ai.event("call", name, args, kw, node)
        s = Sym("keys", truth=True); s.attrs["publicKey"] = Sym(PK, truth=True); s.attrs["secretKey"] = Sym(SK, truth=True)
        return (s,)
    if name.startswith("module.f__encrypt__arg") or name == "module.f" or name.startswith("module.f__decrypt"):
        ai.event("call", name, args, kw, node)
        return (Sym("%s(%s)" % (name, ", ".join(show(a) for a in list(args) + list(kw.values()))), truth=True),)
    if name == "original":
        ai.event("call", name, args, kw, node)
        return (Sym("original(%s)" % ", ".join(show(a) for a in args), truth=True),)
    return HOOK(ai, name, args, kw, node)


def enc(i, v): return "module.f__encrypt__arg%d(%s, %s, %s)" % (i, show(Sym(CC)), show(Sym(v)), show(Sym(PK)))


def mains(p, fn="module.f"):
    return [e for e in p.ai.events if e[0] == "call" and e[1] == fn]


def lab(v): return v.label if isinstance(v, Sym) else show(v)


def scenarios(maxn):
    out = []
    sigs = [(n, s) for n in range(1, maxn + 1) for k in range(n + 1) for s in itertools.combinations(range(n), k)]

    def add(name, run, rule): out.append((name, run, rule))
    vals = lambda n: [Sym("v%d" % i, truth=True, isa={"EncValue": False}) for i in range(n)]
    want = lambda n, s: [CC] + [enc(i, "v%d" % i) if i in s else "v%d" % i for i in range(n)]

    for n, s in sigs:
        tag = "f(%s)" % ", ".join("secret" if i in s else "plain" for i in range(n))

        def ruleok(p, v, n=n, s=s):
            m = mains(p)
            if p.kind == "raise":
                v.no("call", p.node, "the call of %s fails" % "f"); return
            if len(m) != 1: v.no("call", None, "the compiled function is called %d times" % len(m)); return
            got = [lab(a) for a in m[0][2]] + [lab(x) for x in m[0][3].values()]
            if got != want(n, s):
                v.no("args:" + infn(m[0][4]), m[0][4], "the compiled function receives %s instead of %s" % (got, want(n, s))); return
            v.yes()

        def call(ai, n=n, s=s): return ai.call(client(ai, "openfhe", n, s), vals(n), {}, None)

        def rulecall(p, v, n=n, s=s, ruleok=ruleok):
            ruleok(p, v)
            if v.bad: return
            res = "module.f__decrypt__result0(%s, %s, %s)" % (show(Sym(CC)), show(Sym("module.f(%s)" % ", ".join(show(a) for a in mains(p)[0][2]))), show(Sym(SK)))
            if p.kind == "return" and lab(p.value) != res: v.no("result", None, "the call returns %s instead of %s" % (lab(p.value)[:200], res[:200]))
            else: v.yes()
        add(tag + ": one-step call", call, rulecall)

        def steps(ai, n=n, s=s):
            ci = client(ai, "openfhe", n, s)
            ai.call(ai.getattr(ci, "setup", None), [], {}, None)
            es = [ai.call(ai.getattr(ci, "encrypt_a%d" % i, None), [v], {}, None) if i in s else v for i, v in enumerate(vals(n))]
            return ai.call(ai.getattr(ci, "eval", None), es, {}, None)
        add(tag + ": setup, encrypt, eval", steps, ruleok)
        # wrong kinds of arguments
        for i in range(n):
            def wrong(ai, n=n, s=s, i=i):
                ci = client(ai, "openfhe", n, s)
                ai.call(ai.getattr(ci, "setup", None), [], {}, None)
                es = []
                EV = ai.getattr(ai.module("heir.interfaces"), "EncValue", None)
                for j, v in enumerate(vals(n)):
                    e = ai.call(ai.getattr(ci, "encrypt_a%d" % j, None), [v], {}, None) if j in s else v
                    if j == i: e = v if j in s else ai.call(EV, ["a%d" % j, Sym("ciphertext", truth=True)], {}, None)
                    es.append(e)
                return ai.call(ai.getattr(ci, "eval", None), es, {}, None)

            def rej(p, v, i=i, s=s):
                if p.kind == "return" or mains(p): v.no("mismatch:%s" % ("secret" if i in s else "plain"), None,
                    "argument %d is %s but %s is accepted" % (i, "secret" if i in s else "plain", "an unencrypted value" if i in s else "an encrypted value"))
                else: v.yes()
            add(tag + ": argument %d of the wrong kind" % i, wrong, rej)
            clr = lambda ai, n=n, s=s, i=i: cleartext_wrong(ai, n, s, i)
            def rejc(p, v, i=i, s=s):
                if p.kind == "return" or mains(p, "original"): v.no("cleartext:mismatch:%s" % ("secret" if i in s else "plain"), None,
                    "cleartext backend: argument %d is %s but %s is accepted" % (i, "secret" if i in s else "plain", "an unencrypted value" if i in s else "an encrypted value"))
                else: v.yes()
            add(tag + ": cleartext, argument %d of the wrong kind" % i, clr, rejc)
        for i, j in itertools.permutations(s, 2):
            def swap(ai, n=n, s=s, i=i, j=j):
                ci = client(ai, "openfhe", n, s)
                ai.call(ai.getattr(ci, "setup", None), [], {}, None)
                es = [ai.call(ai.getattr(ci, "encrypt_a%d" % (j if k == i else k), None), [v], {}, None) if k in s else v for k, v in enumerate(vals(n))]
                return ai.call(ai.getattr(ci, "eval", None), es, {}, None)

            def rej2(p, v, i=i, j=j):
                if p.kind == "return" or mains(p): v.no("mismatch:other", None, "a value encrypted for argument %d is accepted for argument %d" % (j, i))
                else: v.yes()
            add(tag + ": value of argument %d for argument %d" % (j, i), swap, rej2)
        for m in (n - 1, n + 1):
            def arity(ai, n=n, s=s, m=m): return ai.call(client(ai, "openfhe", n, s), vals(m), {}, None)

            def rej3(p, v, n=n, m=m):
                if p.kind == "return" or mains(p): v.no("arity", None, "a call with %d of %d arguments is accepted" % (m, n))
                else: v.yes()
            add(tag + ": called with %d arguments" % m, arity, rej3)

        def clear(ai, n=n, s=s):
            ci = client(ai, "cleartext", n, s)
            es = [ai.call(ai.getattr(ci, "encrypt_a%d" % i, None), [v], {}, None) if i in s else v for i, v in enumerate(vals(n))]
            return ai.call(ai.getattr(ci, "eval", None), es, {}, None)

        def rulec(p, v, n=n):
            m = mains(p, "original")
            if p.kind == "raise" or len(m) != 1 or [lab(a) for a in m[0][2]] != ["v%d" % i for i in range(n)]:
                v.no("cleartext:args", p.node, "the cleartext backend does not pass the arguments to the original function in order")
            else: v.yes()
        add(tag + ": cleartext eval", clear, rulec)
    # before setup
    def pre(what):
        def run(ai):
            ci = client(ai, "openfhe", 2, (0,))
            EV = ai.getattr(ai.module("heir.interfaces"), "EncValue", None)
            if what == "eval": return ai.call(ai.getattr(ci, "eval", None), [ai.call(EV, ["a0", Sym("ciphertext", truth=True)], {}, None), Sym("v1", isa={"EncValue": False})], {}, None)
            if what == "encrypt": return ai.call(ai.getattr(ci, "encrypt_a0", None), [Sym("v0")], {}, None)
            return ai.call(ai.getattr(ci, "decrypt_result", None), [Sym("r")], {}, None)

        def rule(p, v):
            did = [e for e in p.ai.events if e[0] == "call" and e[1].startswith("module.f")]
            if p.kind == "return" or did: v.no("presetup:" + what, None, "%s works although setup has never been called" % what)
            else: v.yes()
        return run, rule
    for w in ("eval", "encrypt", "decrypt"): add("before setup: " + w, *pre(w))

    # setup generates, keys, configures
    def setup(ai):
        ci = client(ai, "openfhe", 1, (0,))
        return ai.call(ai.getattr(ci, "setup", None), [], {}, None)

    def rules(p, v):
        conf = [e for e in p.ai.events if e[1] == "module.f__configure_crypto_context"]
        if p.kind == "raise" or len(conf) != 1 or [lab(a) for a in conf[0][2]] != [CC, SK]:
            v.no("setup", None, "setup does not configure the generated context with the generated secret key")
        else: v.yes()
    add("setup", setup, rules)

    # signature parsing
    for n, s in sigs:
        for ret in (False, True):
            def parse(ai, n=n, s=s, ret=ret):
                ai.world = {}
                t = ai.module("heir.mlir.types")
                I = [ai.getattr(t, x, None) for x in ("I8", "I16", "I32", "I64")] * 2
                S = ai.getattr(t, "Secret", None)
                d = VDict()
                for i in range(n):
                    d.d[hk("a%d" % i)] = ("a%d" % i, VObj(None, {"origin": S, "args": (I[i],)}, name="Secret[%s]" % I[i].name) if i in s else I[i])
                if ret: d.d[hk("return")] = ("return", I[3])
                return ai.call(ai.getattr(t, "parse_annotations", None), [d], {}, None)

            def prule(p, v, n=n, s=s, ret=ret):
                if p.kind != "return" or not isinstance(p.value, tuple) or len(p.value) != 3:
                    v.no("signature", p.node, "a legal signature is rejected"); return
                a, b, r = p.value
                if not isinstance(a, VList) or not isinstance(b, VList): return
                ts = ["numba.core.types.int8", "numba.core.types.int16", "numba.core.types.int32", "numba.core.types.int64"] * 2
                if list(b.items) != list(s): v.no("signature:secret", None, "the secret positions of a signature are %s instead of %s" % (b.items, list(s)))
                elif [show(x) for x in a.items] != ts[:n]: v.no("signature:types", None, "the argument types of a signature are %s instead of %s" % ([show(x) for x in a.items], ts[:n]))
                elif (show(r) if r is not None else None) != (ts[3] if ret else None): v.no("signature:return", None, "the return type of a signature is %s" % (show(r),))
                else: v.yes()
            add("signature of %d arguments, secret %s%s" % (n, list(s), ", with return type" if ret else ""), parse, prule)

        def emit(ai, n=n, s=s):
            ai.world = {}
            m = ai.module("heir.mlir_emitter")
            ir = Sym("ssa_ir", truth=True)
            ir.attrs["arg_names"] = VList(["a%d" % i for i in range(n)])
            tm = VDict([("a%d" % i, Sym("type of a%d" % i)) for i in range(n)])
            e = ai.call(ai.getattr(m, "TextualMlirEmitter", None), [ir, VList(list(s)), tm, Sym("result type"), "f"], {}, None)
            return ai.call(ai.getattr(e, "emit", None), [], {}, None)

        def erule(p, v, n=n, s=s):
            if p.kind != "return" or not isinstance(p.value, str): return
            head = p.value.split("{\n")[0]
            pos = [head.find("%%a%d:" % i) for i in range(n)]
            if -1 in pos: v.no("emit:args", None, "an argument is missing from the emitted function"); return
            if pos != sorted(pos): v.no("emit:order", None, "the arguments of the emitted function are out of order"); return
            for i in range(n):
                seg = head[pos[i]:(pos + [len(head)])[i + 1]]
                if ("secret.secret" in seg) != (i in s):
                    v.no("emit:secret", None, "argument %d of the emitted function is %smarked secret" % (i, "" if i not in s else "not ")); return
                if "type of a%d" % i not in seg: v.no("emit:type", None, "argument %d of the emitted function does not have its own type" % i); return
            v.yes()
        add("emitted signature of %d arguments, secret %s" % (n, list(s)), emit, erule)

    # information read back from the optimizer
    for text, names, sec in (("g\na, b, c\n0, 2\n", ["a", "b", "c"], [0, 2]), ("g\nx\n0\n", ["x"], [0]), ("g\na, b\n\n", ["a", "b"], [])):
        def info(ai, text=text):
            ai.world = {}
            ai.info = text
            pl = ai.module("heir.pipeline")
            cfg = ai.module("heir.heir_cli.heir_cli_config")
            conf = ai.call(ai.getattr(cfg, "HEIRConfig", None), [], dict(heir_opt_path="o", heir_translate_path="t", techmap_dir_path="y", abc_path="a"), None)
            b = ai.call(ai.getattr(ai.module("heir.backends.cleartext"), "CleartextBackend", None), [], {}, None)
            return ai.call(ai.getattr(pl, "run_pipeline", None), ["\u27e6mlir input\u27e7", VList(["--x"]), b, conf, False], {}, None)

        def irule(p, v, names=names, sec=sec):
            if p.kind != "return" or not isinstance(p.value, VObj):
                v.no("info", p.node, "the function information of a legal module is rejected"); return
            r = p.value.attrs.get("compilation_result")
            if not isinstance(r, VObj): return
            a, b = r.attrs.get("arg_names"), r.attrs.get("secret_args")
            if not isinstance(a, VList) or not isinstance(b, VList): return
            if a.items != names or b.items != sec or r.attrs.get("func_name") != "g":
                v.no("info", None, "function information is read as %s, secret %s, instead of %s, secret %s" % (a.items, b.items, names, sec))
            else: v.yes()
        add("function information %r" % text, info, irule)
    return out


def cleartext_wrong(ai, n, s, i):
    ci = client(ai, "cleartext", n, s)
    EV = ai.getattr(ai.module("heir.interfaces"), "EncValue", None)
    es = []
    for j in range(n):
        v = Sym("v%d" % j, truth=True, isa={"EncValue": False})
        e = ai.call(ai.getattr(ci, "encrypt_a%d" % j, None), [v], {}, None) if j in s else v
        if j == i: e = v if j in s else ai.call(EV, ["a%d" % j, Sym("ciphertext", truth=True)], {}, None)
        es.append(e)
    return ai.call(ai.getattr(ci, "eval", None), es, {}, None)


def hook(ai, name, args, kw, node):
    if name == "fn:TextualMlirEmitter.get_control_flow": return (Sym("cfa"),)
    if name == "fn:TextualMlirEmitter.emit_blocks": return ("\u27e6body\u27e7",)
    if name == "fn:parse_annotations": return None
    if name == "fn:mlirType": return (show(args[0]),)
    if name == "fn:mlirLoc": return ("loc()",)
    if name.startswith("fn:TextualMlirEmitter"): return None
    if name in RUNNERS and getattr(ai, "info", None):
        s = completed(ai, 0, args[0] if args else None)
        if args and isinstance(args[0], VList) and any(show(x) == "--emit-function-info" for x in args[0].items): s.attrs["stdout"] = ai.info
        return (s,)
    return toolhook(ai, name, args, kw, node)


def check(c):
    c.rule("for every signature with up to four (five in the thorough run) arguments and every subset of secret ones: the compiled function receives, in order, the crypto context, "
           "each secret argument encrypted by its own routine under the public key, and each plain argument as it is; the result is decrypted with the secret key")
    c.rule("a plain value for a secret argument, an encrypted value for a plain one, a value encrypted for another argument and a wrong number of arguments are rejected before the compiled function is called")
    c.rule("evaluation, encryption and decryption fail before setup; setup configures the generated context with the generated secret key")
    c.rule("signature parsing, the emitted function and the information read back from the optimizer keep names, order and secret positions")
    lst = scenarios(5 if c.tier == "thorough" else 4)

    def job(i):
        name, run, rule = lst[i]
        ps = explore(run, limit=200, hook=hook, maxfaults=0, maxiter=1)
        out = []
        for p in ps:
            if p.kind == "undecided":
                out.append(("und", p.why, fname(p, p.node) if p.node is not None else "")); continue
            v = c33.V()
            rule(p, v)
            for key, node, msg in v.bad: out.append(("bad", key, fname(p, node) if node is not None else "frontend", name + ": " + msg))
            out.append(("ok", v.okn))
        return out
    seen = set()
    for (name, _, _), res in zip(lst, parallel(job, len(lst))):
        c.count("scenarios")
        for r in res:
            if r[0] == "ok":
                c.count("paths"); c.obl += r[1]; c.done += r[1]
                if r[1] and len(c.samples) < 40: c.samples.append(name)
            elif r[0] == "bad": once(c, *r[1:])
            elif (name, r[1]) not in seen:
                seen.add((name, r[1])); c.undecided(name, "%s (%s)" % r[1:])
    c.need("scenarios", 20)
    c.assume.append("the compiled module's functions follow the naming scheme of the code generator; keyword arguments are rejected by the front-end")
    return c.finish("Abstract interpretation of the client interfaces over all signatures up to the bound, all secret subsets and the listed call orders, with opaque values")
