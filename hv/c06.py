"""C06: names and the things they name correspond one to one."""
import os, re
from .cprop import Interp, I, T, flat, paths, compare, atoms
from . import prog, facts

EXTRA = ("-I" + os.path.join(facts.VERIF, "drivers", "shim"),)
FRESH = "no such name\x01"


def mentions(v, t):
    return v == t or (isinstance(v, tuple) and any(mentions(x, t) for x in v))


def enumerators(P, q):
    for k, vs in P.enums.items():
        if k == q or k.endswith("::" + q):
            return k, vs
    return None, []


def printed(P, f, pidx, enum, name):
    """Constant text f yields or streams for an enumerator, or None."""
    it = Interp(P)
    v, st = it.run(f, {pidx: ("e", enum, name)})
    if v is not None and v[0] == "s":
        return v[1], it
    if st is None:
        return ("noret" if v == ("noret",) else None), it
    out = None
    for p in paths(st["tr"]):
        t = ""
        for e in p:
            if e[0] == "o":
                if e[2] is None or e[2][0] not in ("s", "i"):
                    return None, it
                t += str(e[2][1]) if e[2][0] == "s" else chr(e[2][1]) if e[2][1] is not None and 0 < e[2][1] < 256 else "?"
        if out is not None and out != t:
            return None, it
        out = t
    return out, it


class ParseInput:
    """Binds what the parser reads (a local string filled by parseString/parseKeyword, or a string parameter)."""

    def __init__(self, P, f, text):
        self.P, self.f, self.text = P, f, text
        self.hit = 0
        it = self.it = Interp(P)
        it.callhook = self.call

    def call(self, n, name, q, ov, vals, s):
        if name in ("parseString", "parseKeyword", "parseKeywordOrString", "parseOptionalString", "parseOptionalKeyword") and n.args:
            a = n.args[0]
            while a.k == "Cast":
                a = a.e
            p = self.it.place(a.a if a.k == "Un" and a.op == "&" else a, s)
            if p is None:
                return None
            self.hit += 1
            return I(0), self.it.setp(p, ("s", self.text), s)
        return None

    def result(self):
        f = self.f
        args = {}
        for i, p in enumerate(f.params):
            if re.search(r"StringRef|std::string|string_view|basic_string", p.type) and "vector" not in p.type:
                args[i] = ("s", self.text); self.hit += 1
        v, st = self.it.run(f, args)
        return v if self.hit else None


def literals(P, f, depth=2):
    out = set()
    todo, seen = [(f, depth)], set()
    while todo:
        g, d = todo.pop()
        if g.usr in seen:
            continue
        seen.add(g.usr)
        for n in g.walk():
            if n.k == "Str":
                out.add(n.v)
            elif d and n.k in ("Call", "MCall"):
                h = P.callee(n)
                if h is not None:
                    todo.append((h, d - 1))
            elif n.k == "Ref" and n.dk == "global" and n.q in P.globals and P.globals[n.q].init is not None:
                for m in P.globals[n.q].init.walk():
                    if m.k == "Str":
                        out.add(m.v)
    return out


def codec(P, enum, printers, parser, note, skip=(), none=None):
    """printers: list of (fn, param index); parser: fn or None; note(kind, key, where, msg)."""
    eq, vals = enumerators(P, enum)
    if not vals:
        return note("undecided", enum, "", "enumeration not found")
    invalid = "\x00invalid"
    text_of = {}
    for f, i in printers:
        inv, _ = printed(P, f, i, eq, invalid)
        texts = {}
        for name, num in vals:
            t, _ = printed(P, f, i, eq, name)
            if t is None:
                note("undecided", f"{f.full}:{name}", f.where(), "text not constant")
                continue
            if t == "noret":
                note("bad", f"{f.name}:{name}", f.where(), f"{name} has no text: the printer does not return")
                continue
            texts[name] = t
        for name, t in texts.items():
            same = [x for x in texts if texts[x] == t and x != name]
            if same:
                note("bad", f"{f.name}:{name}", f.where(), f"{name} and {same[0]} are both printed as {t!r}")
            elif t == "" or (inv is not None and inv != "noret" and t == inv and name != none):
                note("bad", f"{f.name}:{name}", f.where(), f"{name} is printed as {t!r}, the text of an invalid value")
            else:
                note("ok", f"{f.name}:{name}", f.where(), f"{name} -> {t!r}")
        text_of[f] = texts
    if parser is None:
        return
    lits = literals(P, parser)
    base = next(iter(text_of.values())) if text_of else {}
    for f, texts in text_of.items():
        for name, t in texts.items():
            if name == none:
                continue
            r = ParseInput(P, parser, t.strip('"')).result()
            if r is None:
                note("undecided", f"{parser.full}:{name}", parser.where(), "parse result not constant")
            elif r == ("fail",) or r[0] == "e" and r[2] != name:
                got = "nothing" if r == ("fail",) else r[2]
                note("bad", f"parse:{f.name}:{name}", parser.where(), f"the text {t!r} printed for {name} is read back as {got}")
            elif r[0] == "e":
                note("ok", f"parse:{name}", parser.where(), f"{t!r} -> {name}")
            else:
                note("undecided", f"{parser.full}:{name}", parser.where(), f"parse result {r[0]}")
    for t in sorted(lits | {FRESH, ""}):
        r = ParseInput(P, parser, t).result()
        if r is None or r[0] not in ("e", "fail"):
            if t == FRESH:
                note("undecided", f"{parser.full}:unknown", parser.where(), "result for an unknown text not constant")
            continue
        if r == ("fail",) or r[2] == none:
            if t == FRESH:
                note("ok", f"parse:unknown", parser.where(), "unknown text rejected")
            continue
        if t in (FRESH, ""):
            note("bad", "parse:unknown", parser.where(), f"{'an unknown' if t else 'the empty'} text is read as {r[2]}")
        elif base and base.get(r[2]) is not None and base[r[2]].strip('"') != t:
            note("bad", f"parse:{t}", parser.where(), f"the text {t!r} is read as {r[2]}, which is printed as {base[r[2]]!r}")


OPS = {"LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "EQ": "==", "NE": "!="}
REL = {"LT": (1, 0, 0), "LE": (1, 1, 0), "GT": (0, 0, 1), "GE": (0, 1, 1), "EQ": (0, 1, 0), "NE": (1, 0, 1)}


def cmp_printer(P, f, note):
    eq, vals = enumerators(P, "ComparisonPredicate")
    seen = {}
    for name, _ in vals:
        it = Interp(P, inputs=lambda n, s: side(n, name, eq))
        v, st = it.run(f, {})
        if v is None or v[0] != "s":
            note("undecided", f"{f.full}:{name}", f.where(), "text not constant")
            continue
        t = v[1].replace(" ", "")
        l, r = t.find("\x01L"), t.find("\x01R")
        tok = t[l + 2:r] if 0 <= l < r else None
        back = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        if tok is None and 0 <= r < l:
            tok = back.get(t[r + 2:l])
        if name in OPS and tok in OPS.values() and tok != OPS[name]:
            note("bad", f"PrintVisitor:{name}", f.where(), f"{name} is printed as {tok}")
        elif l < 0 or r < 0:
            note("bad", f"PrintVisitor:{name}", f.where(), f"the text of {name} omits an operand")
        elif tok in seen:
            note("bad", f"PrintVisitor:{name}", f.where(), f"{name} and {seen[tok]} are printed alike")
        else:
            seen[tok] = name
            note("ok", f"PrintVisitor:{name}", f.where(), f"{name} -> {tok}")


def side(n, name, eq):
    if n.k == "MCall" and n.n == "process" and n.args:
        a = n.args[0]
        while a.k in ("Cast", "Ctor") and (a.e is not None or a.args):
            a = a.e if a.k == "Cast" else a.args[0]
        if a.k == "Mem" and a.n in ("left", "right"):
            return ("s", "\x01L" if a.n == "left" else "\x01R")
    if n.k == "Mem" and n.n == "predicate":
        return ("e", eq, name)
    return None


def cmp_eval(P, f, note):
    eq, vals = enumerators(P, "ComparisonPredicate")
    L, R = T("side", "L"), T("side", "R")

    def inp(n, s):
        v = side(n, cur[0], eq)
        if v is not None and v[0] == "s":
            return L if v[1] == "\x01L" else R
        return v
    cur = [None]
    for name, _ in vals:
        if name not in REL:
            continue
        res = []
        for i in range(3):
            cur[0] = name
            it = Interp(P, inputs=inp)
            it.cmphook = lambda op, a, b: rel_truth(op, a, b, L, R, i)
            v, st = it.run(f, {})
            while v is not None and v[0] == "l" and len(v[1]) == 1:
                v = v[1][0]
            res.append(v[1] if v is not None and v[0] == "i" and v[1] == v[2] else None)
        if None in res:
            note("undecided", f"{f.full}:{name}", f.where(), "result not constant")
        elif tuple(int(bool(x)) for x in res) != REL[name]:
            note("bad", f"EvalVisitor:{name}", f.where(), f"{name} evaluates to {res} for left below, equal to, above right")
        else:
            note("ok", f"EvalVisitor:{name}", f.where(), f"{name} -> {res}")


def rel_truth(op, a, b, L, R, i):
    """i = 0: left < right, 1: equal, 2: left > right."""
    la, lb = mentions(a, L), mentions(b, L)
    ra, rb = mentions(a, R), mentions(b, R)
    if la and rb and not lb and not ra:
        d = i - 1
    elif ra and lb and not la and not rb:
        d = 1 - i
    else:
        return None
    return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]


def check(c):
    c.rule("each printer is evaluated abstractly on every enumerator, each parser on every text printed, every literal it mentions and a fresh text: "
           "printing is injective and total, parsing is its inverse, unknown texts are rejected")
    c.rule("each comparison predicate is printed and evaluated as the operator it names, on the left and right operand in that order, for every ordering of the operands")
    c.rule("the marker annotate-module sets for a backend text is 'backend.' + that text, and that marker is read back as the same backend")

    def note(kind, key, where, msg):
        c.count("name obligations")
        if kind == "ok":
            c.ok(f"{key}: {msg}")
        elif kind == "bad":
            c.bad(key, where, msg)
        else:
            c.undecided(key, msg)

    P = prog.load(["lib/Kernel/Kernel.cpp"], EXTRA)
    pr = [(f, len(f.params) - 1) for f in P.all if not f.dep and f.params and "KernelName" in f.params[-1].type and f.rel.startswith("lib/Kernel/Kernel")
          and (f.name.startswith("operator<<") or f.ret.endswith(("string", "StringRef", "std::string")) or "basic_string" in f.ret)]
    pr.sort(key=lambda x: x[0].line)
    ps = [f for f in P.all if f.name == "parse" and "FieldParser" in (f.cls or f.full) and "KernelName" in (f.full + f.ret)]
    if not pr or not ps:
        note("undecided", "KernelName", "", "printer or parser not found")
    for f in ps:
        codec(P, "KernelName", pr, f, note)
    backend(c, note)
    for src, nm, fn in (("lib/Kernel/TestingUtils.cpp", "PrintVisitor", cmp_printer), ("lib/Kernel/EvalVisitor.cpp", "EvalVisitor", cmp_eval)):
        Q = prog.load([src], EXTRA)
        fs = [f for f in Q.all if f.name == "operator()" and nm in (f.cls or "") and not f.dep and any("ComparisonNode" in p.type for p in f.params)
              and f.rel == src]
        if not fs:
            note("undecided", nm, "", "comparison visitor not found")
        for f in fs:
            fn(Q, f, note)
    c.need("name obligations", 1)
    selftest(c)
    return c.finish("Printers, parsers and predicate visitors are evaluated abstractly on every enumerator and every relevant text (constants flow through "
                    "switches, comparisons, streams and helpers); results are compared for injectivity, totality and mutual inversion.")


def backend(c, note):
    P = prog.load(["lib/Target/CompilationTarget/CompilationTarget.cpp"], gen=("lib/Target/",))
    to = [f for f in P.all if f.name == "toString" and f.params and "BackendName" in f.params[0].type]
    pa = [f for f in P.all if f.name == "parseBackendName"]
    if not to or not pa:
        return note("undecided", "BackendName", "", "generated name table not found")
    codec(P, "BackendName", [(to[0], 0)], pa[0], note, none="None")
    # markers <-> backends
    eq, vals = enumerators(P, "BackendName")
    fb = [f for f in P.all if f.name == "findBackend" and not f.dep]
    from . import c14
    A = prog.load([c14.SRC, c14.ANN], gen=("lib/Target/",))
    run = [f for f in A.all if f.rel == c14.ANN and f.name == "runOnOperation" and not f.dep]
    texts = {n: printed(P, to[0], 0, eq, n)[0] for n, _ in vals}
    for n, t in texts.items():
        if n == "None" or not t or not run:
            continue
        w = {"unrelated": 2}
        for x in texts.values():
            if x:
                w["backend." + x] = 0
        it, v, st = c14.run(A, run[0], w, {"scheme": ("s", ""), "backend": ("s", t), "<registered>": ("st", ())})
        got = {k[1] for k in (st or {}) if isinstance(k, tuple) and k[0] == "attr" and len(k) == 2 and st[k] == I(1)} if st is not None and st.get("known") else None
        if got is None:
            note("undecided", f"marker:{n}", run[0].where(), "marker not resolved")
        elif got != {"backend." + t}:
            note("bad", f"marker:{n}", run[0].where(), f"backend={t} marks the module {sorted(got)}")
        else:
            note("ok", f"marker:{n}", run[0].where(), f"{t} -> backend.{t}")
        for f in fb:
            r = find_backend(P, f, "backend." + t)
            if r is None or r[0] not in ("e", "fail"):
                note("undecided", f"findBackend:{n}", f.where(), "result not constant")
            elif r == ("fail",) or r[2] != n:
                note("bad", f"findBackend:{n}", f.where(), f"a module marked backend.{t} is taken for {'no backend' if r == ('fail',) else r[2]}")
            else:
                note("ok", f"findBackend:{n}", f.where(), f"backend.{t} -> {n}")


def find_backend(P, f, marker):
    """findBackend on a module whose only attribute is the given marker."""
    ATTR = ("st", (("<attr>", ("s", marker)),))

    def call(n, name, q, ov, vals, s):
        if name in ("getAttrs", "getDiscardableAttrs", "getAttrDictionary"):
            return ("l", (ATTR,)), s
        if ov == ATTR and name in ("getName", "getNameAttr"):
            return ("s", marker), s
        if ov == ATTR and name == "getValue":
            return T("unit"), s
        if re.search(r"::isa(_and_nonnull|_and_present)?$", q) and vals and vals[0] == T("unit"):
            return I(1), s
        if name == "consume_front" and ov is not None and ov[0] == "s" and vals and vals[0] is not None and vals[0][0] == "s":
            p = it.place(n.obj, s)
            if p is None:
                return None
            if ov[1].startswith(vals[0][1]):
                return I(1), it.setp(p, ("s", ov[1][len(vals[0][1]):]), s)
            return I(0), s
        if name == "emitError":
            return ("fail",), s
        return None
    it = Interp(P)
    it.callhook = call
    v, st = it.run(f, {})
    return v


def selftest(c):
    p = prog.Program([facts.extract(os.path.join(facts.VERIF, "drivers", "c06_positive.cpp"), EXTRA)])
    groups = {}
    for f in p.all:
        m = re.match(r"(good|bad)(\d+)_(print|parse)$", f.name)
        if m:
            groups.setdefault((m.group(1), m.group(2)), {})[m.group(3)] = f
    for (kind, n), d in groups.items():
        res = []
        codec(p, "Fruit", [(d["print"], 0)], d.get("parse"), lambda k, *a: res.append(k), none="Nothing")
        c.count("self-test examples")
        if ("bad" in res) != (kind == "bad") or (kind == "good" and "undecided" in res):
            raise facts.AnalysisBroken(f"C06: self test {kind}{n}: {res}")
    if len(groups) < 4:
        raise facts.AnalysisBroken("C06: self test examples not found")
