"""C27: interface descriptions (metadata, header, debug header, Python bindings, C interface marks) describe exactly
the functions of a module.

The describers are evaluated over described modules; what they print (or return) is compared with the description
the module calls for."""
import re
from .cprop import I, T
from .ceval import conc
from .c20 import VW
from .alg import Alg
from .world import M, Ent, clean, text
from . import prog

H = M + "heir::"
OP = H + "openfhe::"
META = "lib/Target/Metadata/MetadataEmitter.cpp"
HEAD = "lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.cpp"
DEBUG = "lib/Target/OpenFhePke/OpenFhePkeDebugHeaderEmitter.cpp"
PYB = "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.cpp"
CI = "lib/Transforms/EmitCInterface/EmitCInterface.cpp"
UNROLL = "lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp"
PKE = [HEAD, DEBUG, PYB]
FAIL = ("fail",)
OK = T("success")
SCHEMES = ("BGV", "BFV", "CKKS")


class EW(VW):
    """JSON values are maps and lists; the declaration helpers and prelude of the OpenFHE backend are named pieces."""

    def __init__(self, P, **kw):
        kw.setdefault("record", lambda e: e[0] in ("o", "failpass", "mark"))
        super().__init__(P, **kw)
        self.plan = {}
        self.helper = []
        self.undescribed = set()

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        args = [a for a in n.args or [] if a.k != "DefArg"]
        if cls == "llvm::json::Object" and not n.copy and not n.move:
            if not args:
                return T("map", ()), s
            if len(args) == 1 and args[0].k in ("StdInit", "InitList"):
                il = args[0].e if args[0].k == "StdInit" else args[0]
                out = T("map", ())
                for kv in il.args or []:
                    vs, s = self.evs(kv.args or [], s)
                    if s is None or len(vs) != 2 or vs[0] is None:
                        return None, s
                    if self.mget(out, vs[0], False) is False:
                        out = self.mset(out, vs[0], vs[1])
                return out, s
        if cls == "llvm::json::Array" and not n.copy and not n.move:
            if not args:
                return ("l", ()), s
            if len(args) == 1 and args[0].k == "StdInit":
                vs, s = self.evs(args[0].e.args or [], s)
                return ("l", tuple(vs)), s
            if len(args) == 1:
                v, s = self.ev(args[0], s)
                return (v if v is not None and v[0] == "l" else None), s
        if cls in ("llvm::json::Value", "llvm::json::ObjectKey") and len(args) == 1:
            return self.ev(args[0], s)
        if cls in (H + "SelectVariableNames", H + "ConstQualifierAnalysis") and len(args) == 1:
            v, s = self.ev(args[0], s)
            return (T(cls.split("::")[-1], v) if v is not None else None), s
        f = self.P.callee(n)
        if f is not None and not n.copy and not n.move and cls.startswith(H) and cls.endswith("Emitter") and f.rel.startswith("lib/Target/"):
            vs, s = self.evs(args, s)
            return self.build(f, vs, s) if s is not None else (None, None)
        return super().ctor(n, s)

    build = Alg.build

    def ev(self, n, s):
        if n is not None and n.k == "DefInit":
            return self.ev(n.e, s)
        return super().ev(n, s)

    def model(self, n, name, q, ov, vals, s):
        short = q.split("::")[-1] if q else name
        if short in ("failed", "succeeded") and len(vals) == 1 and vals[0] is not None and (vals[0][:2] == ("t", "map") or vals[0][0] == "l"):
            return I(int(short == "succeeded")), s
        if short == "formatv" and any(v is not None and (v[:2] == ("t", "map") or v[0] == "l") for v in vals):
            f = vals[0][1] if vals[0] is not None and vals[0][0] == "s" else None
            return (T("json", vals[1]) if f is not None and re.fullmatch(r"\{0(:\d+)?\}", f) and len(vals) == 2 else None), s
        m = re.fullmatch(r"moduleIs(BGV|BFV|CKKS|BGVOrBFV)", short)
        if m and len(vals) == 1:
            return I(int(self.plan.get("scheme") in m.group(1).split("Or"))), s
        if short == "getModulePrelude" and len(vals) == 2:
            ok = all(v is not None for v in vals)
            return (("s", f"<prelude {vals[0][-1] if vals[0][0] == 'e' else conc(vals[0])} {vals[1][-1]}>") if ok else None), s
        if short == "convertType" and vals and self.ent(vals[0]) is not None:
            t = self.ent(vals[0])
            k = conc(vals[2]) if len(vals) > 2 else 1
            return (FAIL if t.d["text"] in self.undescribed else None if k is None else ("s", f"{'const ' if k else ''}T<{t.d['text']}>")), s
        if short in ("funcDeclarationHelper", "emitDebugHelperSignature") and vals:
            f = self.ent(vals[0])
            if f is None:
                return None, s
            self.helper.append((short, f, n, vals, s))
            if f.id in self.plan.get("undescribable", ()):
                return FAIL, s
            os = n.args[1]
            return OK, self.event(("o", self.sname(os, s), ("s", f"<{'decl' if short[0] == 'f' else 'sig'} {f.acc['getName']}>")), s)
        if short == "loopUnrollFull":
            e = self.ent(vals[0]) if vals else None
            if e is None:
                return None, s
            s = self.event(("mark", "unroll", e.id), s)
            return (FAIL if e.id in self.plan.get("undescribable", ()) else OK), s
        if name == "setAttr" and n.k == "MCall" and self.ent(ov) is not None and vals and vals[0] is not None:
            return None, self.event(("mark", vals[0][1] if vals[0][0] == "s" else None, self.ent(ov).id), s)
        if short == "get" and (n.cls or "").endswith("UnitAttr"):
            return T("unit"), s
        if name in ("indent", "unindent") and n.k == "MCall":
            return ov, s
        if name == "getOperation" and n.k == "MCall" and "Pass" in (n.cls or "") and getattr(self, "top", None) is not None:
            return self.top.v, s
        if n.k == "MCall" and ov is not None and ov[0] == "s" and name in ("find", "rfind") and vals and vals[0] is not None and vals[0][0] == "s":
            k = conc(vals[1]) if len(vals) > 1 and vals[1] is not None else None
            if len(vals) == 1 or k is not None:
                a = [vals[0][1]] + ([] if k is None or k >= 2 ** 32 - 1 or k < 0 else [k] if name == "find" else [0, k + len(vals[0][1])])
                i = getattr(ov[1], name)(*a)
                return I(i if i >= 0 else 2 ** 64 - 1), s
        return super().model(n, name, q, ov, vals, s)

    def func(self, name, args, res, decl=False, public=True):
        av = [self.arg(f"x{i}", t, i) for i, t in enumerate(args)]
        for i, a in enumerate(av):
            a.d["acc"] = dict(getArgNumber=i)
        o = self.op(M + "func::FuncOp", [], [], regions=[[]], opname="func", acc=dict(
            getName=name, getSymName=name, getArguments=av, getNumArguments=len(args), getNumResults=len(res), getResultTypes=list(res),
            getArgumentTypes=list(args), isDeclaration=decl, isExternal=decl, isPrivate=not public, isPublic=public, isNested=False))
        ft = self.ty(M + "FunctionType", text=f"func{o.id}", acc=None)
        ft.d["acc"] = dict(getInputs=list(args), getResults=list(res), getNumInputs=len(args), getNumResults=len(res))
        o.acc["getFunctionType"] = ft
        o.acc["getArgument"] = lambda w, vals, s: w.lift(av[conc(vals[0])]) if vals and conc(vals[0]) is not None and conc(vals[0]) < len(av) else None
        o.blocks[0].d["args"] = av
        return o

    def other(self, ops=()):
        return self.op(M + "memref::GlobalOp", [], [], regions=[list(ops)] if ops else [], opname="memref.global")

    def module(self, ops):
        m = self.op(M + "ModuleOp", [], [], regions=[list(ops)], opname="module")
        m.acc["getBody"] = m.blocks[0]
        m.acc["getOps"] = [o for o in ops if o.cls.endswith("FuncOp")]
        return m

    def iterable(self, v):
        e = self.ent(v)
        if e is not None and e.cls == M + "ModuleOp":
            return ("l", tuple(o.v for o in e.blocks[0].ops))
        return super().iterable(v)


def events(w, s):
    """Events of a single path, or None."""
    tr = s.get("tr", ())
    if any(e[0] in ("alt", "loop") for e in tr):
        return None
    return tr


def named(P, suffix, rel):
    g = [f for f in P.all if f.full.endswith(suffix) and f.rel == rel and f.body is not None and not f.dep]
    return g[0] if len(g) == 1 else None


# -- metadata --------------------------------------------------------------------
def jty(t):
    if t.cls == M + "IntegerType":
        return {"integer": {"width": t.width, "is_signed": int(t.sign == "s")}}
    if t.cls == M + "MemRefType":
        e = jty(t.elt)
        return None if e is None else {"memref": {"shape": list(t.shape), "element_type": e}}
    return None


def jfunc(f):
    a = [jty(t) for t in f.acc["getArgumentTypes"]]
    r = [jty(t) for t in f.acc["getResultTypes"]]
    if None in a or None in r or len(r) > 1:
        return None
    return {"name": f.acc["getName"], "return_types": r, "params": [{"index": i, "type": t} for i, t in enumerate(a)]}


def plain(v):
    """Python value of an abstract JSON value; unknown pieces are ..."""
    if v is None:
        return ...
    if v[:2] == ("t", "map"):
        return {(k[1] if k is not None and k[0] == "s" else ...): plain(x) for k, x in v[2]}
    if v[0] == "l":
        return [plain(x) for x in v[1]]
    if v[0] == "s":
        return v[1]
    if conc(v) is not None:
        return conc(v)
    return ...


def holes(x):
    return x is ... or isinstance(x, dict) and any(holes(k) or holes(v) for k, v in x.items()) or isinstance(x, list) and any(map(holes, x))


def metadata(c, P):
    f = named(P, "::emitMetadata", META)
    if f is None:
        c.undecided("emitMetadata", "the function was not found")
        return
    w0 = EW(P)
    ity = lambda w: [w.int(1), w.int(8), w.int(16, "s"), w.int(64, "u"), w.memref([2, 3], w.int(16, "s")), w.memref([4], w.memref([5], w.int(8))), w.memref([], w.int(4))]
    bad = lambda w: [w.idx(), w.flt(32), w.tensor([4], w.int(8)), w.memref([3], w.flt(32)), w.memref([3], w.memref([2], w.idx()))]
    progs = []

    def case(label):
        def d(b):
            progs.append((label, b))
        return d
    for i in range(len(ity(w0))):
        case(f"result {ity(w0)[i].text}")(lambda w, i=i: w.func("f", [], [ity(w)[i]]))
        case(f"argument {ity(w0)[i].text}")(lambda w, i=i: w.func("f", [ity(w)[i]], []))
        case(f"second argument {ity(w0)[i].text}")(lambda w, i=i: w.func("f", [w.int(8), ity(w)[i], w.int(32, "s")], [w.int(2)]))
        case(f"module, argument {ity(w0)[i].text}")(lambda w, i=i: w.module([w.func("g", [w.int(3)], [w.int(7)]), w.func("f", [ity(w)[i]], [ity(w)[-1 - i]])]))
    for i in range(len(bad(w0))):
        case(f"result {bad(w0)[i].text}")(lambda w, i=i: w.func("f", [w.int(8)], [bad(w)[i]]))
        for k in range(3):
            case(f"argument {k} {bad(w0)[i].text}")(lambda w, i=i, k=k: w.func("f", [bad(w)[i] if j == k else w.int(8) for j in range(3)], [w.int(8)]))
        for k in range(3):
            case(f"function {k} of a module with {bad(w0)[i].text}")(lambda w, i=i, k=k: w.module([w.func(f"f{j}", [bad(w)[i] if j == k else w.int(8)], []) for j in range(3)]))
    for n in range(0, 5):
        case(f"module of {n} function(s)")(lambda w, n=n: w.module([w.func(f"f{j}", [w.int(8 + k) for k in range(j)], [w.int(4 + j)] if j % 2 else []) for j in range(n)]))
        case(f"module of {n} function(s) among other operations")(lambda w, n=n: w.module(sum([[w.other(), w.func(f"f{j}", [w.int(9)], [w.int(4 + j)])] for j in range(n)], []) + [w.other()]))
    case("two results")(lambda w: w.func("f", [], [w.int(8), w.int(16)]))
    case("two results in a module")(lambda w: w.module([w.func("g", [], []), w.func("f", [], [w.int(8), w.int(16)])]))
    case("a private declaration")(lambda w: w.module([w.func("g", [w.int(5)], [w.int(6)], decl=True, public=False), w.func("f", [], [w.int(8)])]))
    case("an unsupported operation")(lambda w: w.other())
    case("functions of one shape")(lambda w: w.module([w.func("f", [w.int(8), w.int(8)], []), w.func("f2", [w.int(8), w.int(8)], [])]))
    seen = set()
    for label, b in progs:
        c.count("metadata emitted for")
        w = EW(P)
        o = b(w)
        if o.cls == M + "ModuleOp":
            fs = [jfunc(x) for x in o.blocks[0].ops if x.cls.endswith("FuncOp")]
            want = None if None in fs else {"functions": fs}
        else:
            want = jfunc(o) if o.cls.endswith("FuncOp") else {}
        r = w.run(f, {0: o.v})
        tr = events(w, r[1]) if r[1] is not None else None
        out = [e[2] for e in tr if e[0] == "o" and e[1] == (f.params[1].n or "os")] if tr is not None else None
        judge(c, f, seen, "metadata of " + label, r[0], [plain(v[2]) if v is not None and v[:2] == ("t", "json") else v[1] if v is not None and v[0] == "s" else ... for v in out] if out is not None else None,
              None if want is None else [want])


def judge(c, f, seen, what, status, got, want):
    """want: what must have been emitted, or None if the describer must fail."""
    if status not in (FAIL, OK) or got is None:
        c.undecided(what, "the status or the output is not known")
    elif want is None:
        if status == OK:
            say(c, f, seen, what, f"{what} succeeds although it cannot be described")
        else:
            c.ok(what)
    elif status == FAIL:
        say(c, f, seen, what, f"{what} fails")
    elif holes(got):
        c.undecided(what, f"the output is not known: {str(got)[:90]}")
    elif got == want:
        c.ok(what)
    else:
        say(c, f, seen, what, f"{what}: {diff(got, want)}")


def diff(a, b, at=""):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} entries{at}, expected {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{at}[{i}]")
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"keys {sorted(map(str, a))}{at}, expected {sorted(b)}"
        for k in b:
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{at}.{k}")
    return f"{str(a)[:100]!r}{at}, expected {str(b)[:100]!r}"


def say(c, f, seen, what, msg):
    k = re.sub(r"\d+", "#", what.split(" of ")[0] + msg.split(":")[-1])
    if k not in seen:
        seen.add(k)
        c.bad(f"{f.full.split('::')[-2]}::{f.name}:{what}", f.where(), msg)


# -- OpenFHE header, debug header and bindings ---------------------------------------
def toks(t):
    return re.findall(r"<[a-z]+ [^<>]*>|\w+|\"[^\"]*\"|\S", t)


def emit(P, f, build, *settings):
    """(status, tokens, world, top operation) of describing what build gives."""
    w = EW(P)
    top = build(w)
    r = w.run(f, {0: top.v, **{i + 2: v for i, v in enumerate(settings)}}, {})
    if r[1] is None:
        return None, None, w, top
    tr = events(w, r[1])
    if tr is None:
        return r[0], None, w, top
    t, unk = text(w, tr)
    return r[0], (toks(t) if not unk else None), w, top


IMPORTS = [("e", "OpenfheImportType", x) for x in ("SOURCE_RELATIVE", "INSTALL_RELATIVE")]


def lists(w, key):
    i8, t = w.int(8), w.tensor([4], w.int(8))
    return {
        "no": lambda: [],
        "one": lambda: [w.func("f", [i8], [i8])],
        "three": lambda: [w.func("c", [i8], [i8]), w.func("a", [], []), w.func("b", [i8, t], [t])],
        "declared": lambda: [w.func("d", [i8], [], decl=True, public=False), w.func("a", [i8], [i8])],
        "wide": lambda: [w.func("f", [i8], [i8, t]), w.func("g", [i8], [t, t, i8]), w.func("h", [], [i8])],
        "debug": lambda: [w.func("__heir_debug_1", [i8, i8, i8], [], decl=True, public=False), w.func("f", [i8], [i8])],
        "debugs": lambda: [w.func("f", [i8], [i8]), w.func("__heir_debug_1", [i8, i8, i8], [], decl=True, public=False), w.func("__heir_debug_2", [i8, i8, t], [], decl=True, public=False),
                           w.func("__heir_debug_3", [i8, i8, t], [], decl=True, public=False), w.func("__heir_debug_4", [i8, i8, i8], [], decl=True, public=False), w.func("g", [], [])],
        "vector": lambda: [w.func("__heir_debug_7", [i8, i8, t], [], decl=True, public=False), w.func("f", [i8], [i8])],
        "short": lambda: [w.func("__heir_debug", [i8, i8], [], decl=True, public=False), w.func("__heir_debug_2", [i8, i8, t], [], decl=True, public=False)],
        "foreign": lambda: [w.func("f", [i8], [i8]), w.other(), w.func("g", [], [])],
    }[key]()


KEYS = ("no", "one", "three", "declared", "wide", "debug", "debugs", "vector", "short", "foreign")


def header(c, P):
    f = named(P, "::translateToOpenFhePkeHeader", HEAD)
    if f is None:
        c.undecided("translateToOpenFhePkeHeader", "the function was not found")
        return
    seen = set()
    for scheme in SCHEMES + (None,):
        for key in KEYS:
            for path in ("", "debug/helper.h"):
                for broken in (None, 0, 1, 2) if key == "three" else (None,):
                    c.count("header emitted for")

                    def build(w):
                        ops = lists(w, key)
                        w.plan = dict(scheme=scheme, undescribable={ops[broken].id} if broken is not None else ())
                        return w.module(ops)
                    imp = IMPORTS[bool(path)]
                    status, got, w, top = emit(P, f, build, imp, ("s", path))
                    fs = top.blocks[0].ops
                    want = None
                    if scheme is not None and broken is None and all(o.cls.endswith("FuncOp") for o in fs):
                        want = toks((f'# include "{path}" ' if path else "") + f"<prelude {scheme} {imp[2]}> " + " ".join(f"<decl {o.acc['getName']}> ;" for o in fs))
                    what = f"header of a module ({scheme or 'no scheme'}, {key}{', function %d undescribable' % broken if broken is not None else ''}{', debug import' if path else ''})"
                    judge(c, f, seen, what, status, got if status == OK or status == FAIL else None, want)
                    if key == "three" and broken is None and not path:
                        helpers(c, f, seen, w, what, top)


def helpers(c, f, seen, w, what, top):
    """The declaration helper is handed this function, this stream and describers that pass on what they are given."""
    for h in [h for h in w.helper if h[0] == "funcDeclarationHelper"]:
        _, fn, n, vals, s = h
        if len(vals) != 6:
            c.undecided(what, "arguments of funcDeclarationHelper are not known")
            return
        if vals[2] is None or vals[3] is None:
            c.undecided(what, "the names or const qualifiers handed over are not known")
        elif (vals[2], vals[3]) != (T("SelectVariableNames", top.v), T("ConstQualifierAnalysis", top.v)):
            say(c, f, seen, "arguments of the declaration helper", "the declaration helper is not given the names and const qualifiers of the whole module")
        for t, good in ((w.int(32), True), (w.tensor([7], w.int(32)), True), (w.int(33), False)):
            w.undescribed = {"i33"}
            r = w.apply(vals[4], [t.v, T("loc")], {**s, "tr": ()})
            if r is None or r[1] is None:
                c.undecided(what, "the type describer handed over is not known")
                continue
            tr = events(w, r[1])
            got = [e[2] for e in tr if e[0] == "o"] if tr is not None else None
            if r[0] not in (OK, FAIL) or got is None or None in got:
                c.undecided(what, "what the type describer prints is not known")
            elif good and (r[0], got) != (OK, [("s", f"T<{t.text}>")]) or not good and r[0] != FAIL:
                say(c, f, seen, "type describer", f"the type describer of the header, given {t.text}, {'prints ' + str([x[1] for x in got]) if r[0] == OK else 'fails'}")
            else:
                c.ok(what)


def debugheader(c, P):
    f = named(P, "::translateToOpenFhePkeDebugHeaderEmitter", DEBUG)
    if f is None:
        c.undecided("translateToOpenFhePkeDebugHeaderEmitter", "the function was not found")
        return
    seen = set()
    for scheme in SCHEMES + (None,):
        for key in KEYS:
            for broken in (False, True):
                c.count("debug header emitted for")

                def build(w):
                    ops = lists(w, key)
                    w.plan = dict(scheme=scheme, undescribable={o.id for o in ops} if broken else ())
                    return w.module(ops)
                status, got, w, top = emit(P, f, build, IMPORTS[not broken])
                fs = top.blocks[0].ops
                dbg = [o for o in fs if o.cls.endswith("FuncOp") and o.acc["getName"].startswith("__heir_debug")]
                want = None
                if scheme is not None and all(o.cls.endswith("FuncOp") for o in fs) and not (broken and dbg):
                    want = toks("# include <map> # include <string> " + f"<prelude {scheme} {IMPORTS[not broken][2]}> " + (f"<sig {dbg[0].acc['getName']}> ;" if dbg else ""))
                judge(c, f, seen, f"debug header of a module ({scheme or 'no scheme'}, {key}{', undescribable' if broken else ''})", status, got, want)


def bindings(c, P):
    f = named(P, "::translateToOpenFhePkePybind", PYB)
    if f is None:
        c.undecided("translateToOpenFhePkePybind", "the function was not found")
        return
    seen = set()
    for key in KEYS:
        c.count("bindings emitted for")
        status, got, w, top = emit(P, f, lambda w: w.module(lists(w, key)), ("s", "my/header.h"), ("s", "mymod"))
        fs = top.blocks[0].ops
        what = f"bindings of a module ({key})"
        if not all(o.cls.endswith("FuncOp") for o in fs):
            judge(c, f, seen, what, status, got, None)
            continue
        if status != OK or got is None:
            judge(c, f, seen, what, status, got, [])
            continue
        probs = bound(" ".join(got), fs)
        if probs:
            for p in probs:
                say(c, f, seen, what, f"{what}: {p}")
        else:
            c.ok(what)


def bound(t, fs):
    """What is wrong with the bindings printed for functions fs."""
    t = re.sub(r"\s*([^\w\s]|_)\s*", r"\1", t)
    probs = []
    m = re.search(r"PYBIND11_MODULE\(mymod,m\)\{", t)
    if not m:
        return ["the Python module definition is missing"]
    if '#include"my/header.h"' not in t[:m.start()]:
        probs.append("the header is not included before the bindings")
    body = t[m.end():]
    if body.count("{") + 1 != body.count("}"):
        probs.append("the module definition is not closed exactly once")
    defs = re.findall(r'm\.def\("(\w+)",(.*?),py::call_guard<py::gil_scoped_release>\(\)\);', body)
    alldefs = re.findall(r"m\.def\(", body)
    if len(defs) != len(alldefs):
        probs.append("a binding does not release the interpreter lock")
        return probs
    want = []
    single = vector = False
    for o in fs:
        nm = o.acc["getName"]
        if not nm.startswith("__heir_debug"):
            want.append((nm, f"&{nm}"))
            continue
        a = o.acc["getArgumentTypes"]
        vec = len(a) >= 3 and a[2].cls == M + "RankedTensorType"
        if vec and vector or not vec and single:
            continue
        vector |= vec
        single |= not vec
        want.append(("__heir_debug", "vector" if vec else "single"))
    got = []
    for nm, e in defs:
        if nm == "__heir_debug":
            mm = re.search(r"py::overload_cast<(.*)>\(&__heir_debug\)$", e)
            tys = mm.group(1) if mm else ""
            got.append((nm, "vector" if "vector<CiphertextT>" in tys else "single" if re.search(r"(^|,)CiphertextT,", tys) else e))
        else:
            got.append((nm, e))
    if got != want:
        probs.append(f"binds {', '.join(a + ' to ' + b for a, b in got) or 'nothing'}; expected {', '.join(a + ' to ' + b for a, b in want) or 'nothing'}")
    for o in fs:
        nm, k = o.acc["getName"], o.acc["getNumResults"]
        cls = list(re.finditer(r"py::class_<(%sStruct)>\(m,\"%sStruct\"(.*?);" % (nm, nm), body))
        if k > 1:
            if len(cls) != 1:
                probs.append(f"{len(cls)} class bindings for the {k} results of {nm}")
                continue
            fl = re.findall(r'\.def_readwrite\("(\w+)",&(\w+)::(\w+)\)', cls[0].group(0))
            w = [(f"arg{i}", f"{nm}Struct", f"arg{i}") for i in range(k)]
            if fl != w:
                probs.append(f"binds fields {fl} of {nm}Struct; expected {w}")
            d = re.search(r'm\.def\("%s"' % nm, body)
            if d and d.start() < cls[0].start():
                pass
        elif cls:
            probs.append(f"a class binding for {nm}, which has {k} result(s)")
    return probs


# -- passes over all functions or loops -------------------------------------------------
def cinterface(c, P):
    f = named(P, "EmitCInterface::runOnOperation", CI)
    if f is None:
        c.undecided("EmitCInterface::runOnOperation", "the function was not found")
        return
    seen = set()
    for pub in [(), (1,), (0,), (1, 1), (1, 0, 1), (0, 1, 0, 1), (0, 0)]:
        for decl in (False, True):
            c.count("modules marked")
            w = EW(P)
            fs = [w.func(f"f{i}", [], [], decl=decl, public=bool(p)) for i, p in enumerate(pub)]
            top = w.module(sum([[x, w.other()] for x in fs], []))
            w.top = top
            r = w.run(f, {}, {})
            passjudge(c, f, seen, w, r, top, "C interface marks", [("llvm.emit_c_interface", x.id) for x, p in zip(fs, pub) if p], False, lambda e: (e[1], e[2]))


def unroll(c, P):
    f = named(P, "FullLoopUnroll::runOnOperation", UNROLL)
    if f is None:
        c.undecided("FullLoopUnroll::runOnOperation", "the function was not found")
        return
    seen = set()
    for shape in ([], [[]], [[], []], [[[]]], [[[], []], []]):
        w0 = []

        def loops(w, sh, acc):
            out = []
            for x in sh:
                kids = loops(w, x, acc)
                o = w.op(M + "affine::AffineForOp", [], [], regions=[kids + [w.other()]], opname="affine.for")
                acc.append(o)
                out.append(o)
            return out
        n = len(loops(EW(P), shape, w0) and w0)
        for broken in [None] + list(range(n)):
            c.count("modules unrolled")
            w = EW(P)
            acc = []
            fn = w.func("f", [], [])
            top = w.op(M + "ModuleOp", [], [], regions=[[w.op(M + "func::FuncOp", [], [], regions=[loops(w, shape, acc)], opname="func")]], opname="module")
            w.top = top
            w.plan = dict(undescribable={acc[broken].id} if broken is not None else ())
            r = w.run(f, {}, {})
            passjudge(c, f, seen, w, r, top, "full unrolling", [("unroll", o.id) for o in acc] if broken is None else None, broken is not None, lambda e: (e[1], e[2]))


def passjudge(c, f, seen, w, r, top, what, want, fails, key):
    tr = events(w, r[1]) if r[1] is not None else None
    if tr is None or any(None in e[:3] for e in tr if e[0] == "mark"):
        c.undecided(what, "the effects of the pass are not known")
        return
    got = [key(e) for e in tr if e[0] == "mark"]
    if fails != any(e[0] == "failpass" for e in tr):
        say(c, f, seen, what, f"{what}: the pass {'does not fail although a loop could not be unrolled' if fails else 'fails'}")
    elif want is not None and sorted(got, key=str) != sorted(want, key=str):
        say(c, f, seen, what, f"{what}: applied to {len(got)} operation(s), expected exactly the {len(want)} required ones")
    else:
        c.ok(what)


def check(c):
    c.rule("The metadata lists every function of the module once and in order, with its name, every argument in order with its index and type, and its result; it fails for a function it cannot describe")
    c.rule("The header declares every function in order through the declaration helper, after the prelude of the module's scheme; a missing scheme, an undescribable function or a foreign operation is a failure")
    c.rule("The debug header declares one debug helper exactly if the module has one; the bindings bind every function once, each overload of the debug helper once, and every field of a multi-result struct")
    c.rule("Exactly the public functions are marked for a C interface; full unrolling visits every loop and fails if a loop cannot be unrolled")
    P = prog.load([META] + PKE + [CI, UNROLL])
    metadata(c, P)
    header(c, P)
    debugheader(c, P)
    bindings(c, P)
    cinterface(c, P)
    unroll(c, P)
    c.assume.append("the OpenFHE helpers outside the built sources (prelude, type names, declaration helper) behave as their names say; LLVM's JSON, formatv and stream classes behave as documented")
    return c.finish(EXPLANATION)


EXPLANATION = "Every describer evaluated abstractly on described modules; the text or JSON it produces compared with the functions of the module."
