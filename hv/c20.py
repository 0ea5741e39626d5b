"""C20: verifiers and validation passes, evaluated over enumerated descriptions and compared with the stated rules."""
import itertools, math, re
from .cprop import I, T
from .ceval import conc
from .rewrite import RW
from .world import M, apint, sval
from . import prog
from .c16 import run_pass

H = M + "heir::"


def accepted(v):
    """True/False/None: the verdict of a verifier."""
    if v == T("success"):
        return True
    if v is not None and (v == ("fail",) or v[0] == "t" and v[1] in ("diag", "emit", "failure", "error")):
        return False
    return None


def find(P, cls, name):
    return [f for f in P.all if f.name == name and f.body is not None and not f.dep and f.full.endswith(f"{cls}::{name}")]


def mapped(t):
    """Default value of a map's elements, from the map's type."""
    m = re.match(r"^(?:const )?(?:\w+::)*(?:map|unordered_map|DenseMap|MapVector|SmallDenseMap|SmallMapVector)<[^,<]+,\s*(.*)$", t or "")
    if m is None:
        return None
    x = m.group(1)
    if re.match(r"(\w+::)*(SmallVector|vector|set|DenseSet|SetVector|SmallVectorImpl)<", x):
        return ("l", ())
    return I(0) if re.match(r"(bool|int|long|unsigned|double|short|size_t|u?int\d+_t)\b", x) else ("fail",) if "*" in x else None


WIDTHS = {}
for _n, _w in (("8", 8), ("16", 16), ("32", 32)):
    WIDTHS[f"int{_n}_t"] = WIDTHS[f"std::int{_n}_t"] = (_w, True)
    WIDTHS[f"uint{_n}_t"] = WIDTHS[f"std::uint{_n}_t"] = (_w, False)
WIDTHS.update({"int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "short": (16, True), "unsigned short": (16, False)})


class VW(RW):
    """Evaluates verifiers; diagnostics are failures."""

    def __init__(self, P, **kw):
        kw.setdefault("record", lambda e: e[0] in ("failpass",))
        super().__init__(P, **kw)
        self.rel = {}
        self.extra = 0

    def irmodel(self, n, name, q, op, ov, vals, s):
        r = printing(self, n, name, q, op, ov, vals, s)
        if r is not False:
            return r
        if name in ("failed", "succeeded") and (vals and vals[0] == T("holdsnull") or ov == T("holdsnull")):
            return I(int(name == "succeeded")), s
        if name == "signalPassFailure":
            return None, self.event(("failpass",), s)
        return super().irmodel(n, name, q, op, ov, vals, s)

    def cast(self, n, v):
        if n.d.get("ck") == "IntegralCast" and conc(v) is not None and v[0] == "i":
            t = WIDTHS.get(re.sub(r"^const ", "", n.type or ""))
            if t is not None:
                x = conc(v) & ((1 << t[0]) - 1)
                return I(x - (1 << t[0]) if t[1] and x >> (t[0] - 1) else x)
        return super().cast(n, v)

    def nullctor(self, n, s):
        if not (n.args or []) and re.search(r"\b(Attribute|Type|Mod\w+(Attr|Type))$", str(n.type or n.d.get("cls") or n.d.get("q") or "")):
            return ("fail",), s        # a null attribute or type
        if re.match(r"^(const )?(\w+::)*FailureOr<", str(n.type or n.d.get("cls") or "")) and len(n.args or []) == 1 and re.search(
                r"(Interface|Type|Attr|Attribute|Op|Value)$", (n.args[0].type or "").replace("const ", "").rstrip("& ")):
            v, s1 = self.ev(n.args[0], s)
            if v == ("fail",) and s1 is not None:
                return T("holdsnull"), s1          # a present result that is null
            return v, s1
        return super().ctor(n, s)

    # elements of maps and lists as places
    def place(self, n, s):
        if n is not None and n.k == "OpCall" and n.op == "[]" and len(n.args or []) == 2:
            b = self.place(n.args[0], s)
            m = self.getp(b, s) if b is not None else None
            if m is not None and (m[:2] == ("t", "map") or m[0] == "l"):
                k, s1 = self.ev(n.args[1], s)
                if k is not None and s1 is not None:
                    return ("el", b, k, mapped(n.args[0].type))
            return None
        return super().place(n, s)

    def getp(self, p, s):
        if p is not None and p[0] == "el":
            m = self.getp(p[1], s)
            if m is not None and m[:2] == ("t", "map"):
                return self.mget(m, p[2], p[3])
            k = conc(p[2])
            return m[1][k] if m is not None and m[0] == "l" and k is not None and 0 <= k < len(m[1]) else None
        if p is not None and p[0] == "m" and p not in s:
            b = self.getp(p[1], s)
            if b is not None and b[0] == "l" and len(b[1]) == 2 and p[2] in ("first", "second"):
                return b[1][p[2] == "second"]
            if b is not None and b[:2] == ("t", "iter") and b[2][0] == "l":
                x = b[2][1][b[3]] if 0 <= b[3] < len(b[2][1]) else None
                return dict(x[1]).get(p[2]) if x is not None and x[0] == "st" else None
        return super().getp(p, s)

    def setp(self, p, v, s):
        if p is not None and p[0] == "el":
            m = self.getp(p[1], s)
            if m is not None and m[:2] == ("t", "map"):
                return self.setp(p[1], self.mset(m, p[2], v), s)
            k = conc(p[2])
            if m is not None and m[0] == "l" and k is not None and 0 <= k < len(m[1]):
                return self.setp(p[1], ("l", m[1][:k] + (v,) + m[1][k + 1:]), s)
            return self.setp(p[1], None, s)
        return super().setp(p, v, s)

    def mapmethod(self, n, name, op, ov, obj, vals, s):
        if op == "[]":
            i = self.mfind([x[0] for x in ov[2]], vals[0])
            if i is not None and i < 0:
                d = mapped(obj.type if obj is not None else "")
                p = self.place(obj, s) if obj is not None else None
                return d, (self.setp(p, self.mset(ov, vals[0], d), s) if p is not None else s)
        if name in ("find", "begin", "end") and (name == "find") == (len(vals) == 1):
            i = self.mfind([x[0] for x in ov[2]], vals[0]) if vals else 0 if name == "begin" else -1
            if i is None:
                return None, s
            l = ("l", tuple(("st", (("first", k), ("second", v))) for k, v in ov[2]))
            return T("iter", l, i if i >= 0 else len(l[1])), s
        return super().mapmethod(n, name, op, ov, obj, vals, s)

    def iterable(self, v):
        if v is not None and v[:2] == ("t", "map"):
            return ("l", tuple(("l", (k, x)) for k, x in v[2]))
        return super().iterable(v)

    def ctor(self, n, s):
        if re.match(r"^(const )?(\w+::)*(ArrayRef|SmallVector|vector|StringSet)\b", n.d.get("cls") or "") and not [a for a in n.args or [] if a.k != "DefArg"]:
            return ("l", ()), s
        return self.nullctor(n, s)

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "op" and name == "getOps" and len(e.blocks) == 1 and self.targs(n):
            return self.lift([o for o in e.blocks[0].ops if self.isa(o, self.targs(n)[0])]), s
        if name == "isCompatibleWith" and len(vals) == 1 and self.rel:
            o = self.ent(vals[0])
            if o is not None and (e.id, o.id) in self.rel:
                return I(int(self.rel[e.id, o.id])), s
        return super().entmodel(n, e, name, vals, s)


DIAG = T("emitErrorFn")


def this(me):
    return {} if me is None else {("al", "this"): ("v", "me"), ("v", "me"): me.v}


def verdict(c, w, f, args, me, want, key, text, seen):
    v, s = w.run(f, args, this(me))
    tr = s["tr"] if s is not None else ()
    got = None if any(e[0] in ("alt", "loop") for e in tr) else accepted(v)
    c.count("descriptions evaluated", 1)
    name = f.full.split("::")[-2]
    if got is None:
        c.undecided(f"{name}::{f.name}", text); return
    if got != want:
        k = f"{name}:{key}:{'accepted' if got else 'rejected'}"
        if k not in seen:
            seen[k] = 1
            c.bad(k, f.where(), f"{name}::{f.name} {'accepts' if got else 'rejects'} {text}")
        return
    c.ok(f"{name}::{f.name} {'accepts' if got else 'rejects'} {text}")


def rns(c, P, tier, seen):
    for f in find(P, "RNSType", "verify"):
        c.count("verifiers", 1)
        top = 4 if tier == "quick" else 5
        for n in range(1, top + 1):
            for has in itertools.product((True, False), repeat=n):
                pairs = list(itertools.combinations(range(n), 2))
                masks = range(1 << len(pairs)) if all(has) and len(pairs) <= 6 else [0, (1 << len(pairs)) - 1] + [((1 << len(pairs)) - 1) ^ (1 << b) for b in range(len(pairs))]
                for m in sorted(set(masks)):
                    w = VW(P)
                    B = H + "rns::RNSBasisTypeInterface"
                    ts = [w.ty(H + f"x::Basis{i}Type", isa=(B,) if h else (), text=f"b{i}") for i, h in enumerate(has)]
                    bad = None
                    for b, (i, j) in enumerate(pairs):
                        ok = bool(m >> b & 1)
                        w.rel[ts[i].id, ts[j].id] = w.rel[ts[j].id, ts[i].id] = ok
                        if not ok and bad is None:
                            bad = (i, j)
                    for t in ts:
                        w.rel[t.id, t.id] = False
                    want = all(has) and bad is None
                    text = f"a basis of {n} type{'s' if n > 1 else ''}" + (", all of them pairwise compatible" if want else f" whose element {has.index(False)} is not a basis type" if not all(has) else f" whose elements {bad[0]} and {bad[1]} are incompatible")
                    verdict(c, w, f, {0: DIAG, 1: w.lift(ts)}, None, want, "interface" if not all(has) else "pair", text, seen)


def modarith(c, P, tier, seen):
    for f in find(P, "ModArithType", "verify"):
        c.count("verifiers", 1)
        for wd in (1, 2, 3, 4, 5, 8, 32, 33, 64, 128, 256):
            vals = range(1 << wd) if wd <= 5 else {1, 2, 3, (1 << (wd - 2)) - 1, 1 << (wd - 2), (1 << (wd - 1)) - 1, 1 << (wd - 1), (1 << wd) - 1, (1 << (wd - 1)) + 1}
            for x in sorted(vals):
                if x == 0:
                    continue
                w = VW(P)
                m = w.intattr(x, w.int(wd))
                want = x < 1 << (wd - 1)
                verdict(c, w, f, {0: DIAG, 1: m.v}, None, want, "width", f"modulus {x} of type i{wd}", seen)
    for f in find(P, "ModArithType", "isCompatibleWith"):
        c.count("verifiers", 1)
        ms = [1, 2, 3, 4, 5, 6, 7, 9, 15, 35, 77, 7681, 65537, 65537 * 3]
        for a, b in itertools.product(ms, repeat=2):
            for wa, wb in ((32, 32), (32, 64), (64, 32)) if a <= 7 and b <= 7 else ((32, 32),):
                w = VW(P)

                def ty(x, wd):
                    return w.ty(H + "mod_arith::ModArithType", modulus=x, acc=None, wd=wd)
                t = []
                for x, wd in ((a, wa), (b, wb)):
                    e = w.mk(H + "mod_arith::ModArithType", text=f"!{x}:{wd}")
                    e.d["acc"] = dict(getModulus=w.intattr(x, w.int(wd)))
                    t.append(e)
                want = wa == wb and math.gcd(a, b) == 1
                boolean(c, w, f, {0: t[1].v}, t[0], want, "coprime", f"moduli {a} (i{wa}) and {b} (i{wb})", seen)
        w = VW(P)
        e = w.mk(H + "mod_arith::ModArithType", text="!7:32"); e.d["acc"] = dict(getModulus=w.intattr(7, w.int(32)))
        boolean(c, w, f, {0: w.int(32).v}, e, False, "other", "a modulus and a type of another kind", seen)


def boolean(c, w, f, args, me, want, key, text, seen):
    v, s = w.run(f, args, this(me))
    got = conc(v) if v is not None else None
    name = f.full.split("::")[-2]
    c.count("descriptions evaluated", 1)
    if got is None:
        c.undecided(f"{name}::{f.name}", text); return
    if bool(got) != want:
        k = f"{name}:{f.name}:{key}:{got}"
        if k not in seen:
            seen[k] = 1
            c.bad(k, f.where(), f"{name}::{f.name} is {'true' if got else 'false'} for {text}")
        return
    c.ok(f"{name}::{f.name}: {text}")



def roundtrip(c, P, tier, seen):
    """What print writes for an attribute, parse reads back."""
    prints, parses = find(P, "ModArithAttr", "print"), find(P, "ModArithAttr", "parse")
    for pr, pa in zip(prints, parses):
        c.count("verifiers", 1)
        for wd, mod in ((4, 7), (5, 13), (32, 7681), (64, (1 << 62) + 1), (128, (1 << 100) + 7)):
            for x in sorted({0, 1, 2, 3, mod // 2, mod // 2 + 1, mod - 1, -1, -mod + 1}):
                for extra in (0, 1, 7, 60):
                    w = VW(P)
                    it = w.int(wd)
                    ty = w.mk(H + "mod_arith::ModArithType", text=f"!{mod}:{wd}")
                    ty.d["acc"] = dict(getModulus=w.intattr(mod, it))
                    me = w.attr(H + "mod_arith::ModArithAttr", acc=dict(getType=ty, getValue=w.intattr(x, it)))
                    text = f"{x} modulo {mod} of type i{wd}"
                    c.count("descriptions evaluated", 1)
                    w.out, w.inp = [], None
                    v, s = w.run(pr, {0: T("printer")}, this(me))
                    toks = s.get(("out",)) if s is not None else None
                    if toks is None or None in toks[1] or any(e[0] in ("alt", "loop") for e in s["tr"]):
                        c.undecided("ModArithAttr::print", text); continue
                    toks = tokens(toks[1])
                    if toks is None:
                        c.undecided("ModArithAttr::print", text); continue
                    w.extra = extra
                    v, s = w.run(pa, {0: T("parser")}, {("in",): ("l", tuple(toks))})
                    if v in (("l", ()), ("st", ())):
                        v = ("fail",)
                    if v is None or s is None or any(e[0] in ("alt", "loop") for e in s["tr"]) or v != ("fail",) and v[:2] != ("t", "mattr"):
                        c.undecided("ModArithAttr::parse", text); continue
                    left = s.get(("in",))
                    if v == ("fail",) or left != ("l", ()):
                        say(c, pa, seen, "rejected", f"ModArithAttr::parse does not read what print writes for {text}"); continue
                    if v[2] != ty.v or v[3] != T("intattr", it.v, apint(wd, x)):
                        say(c, pa, seen, "sign" if x < 0 else "value", f"ModArithAttr::parse reads another value than print wrote for {text}"); continue
                    c.ok(f"ModArithAttr round trip: {text}")


def say(c, f, seen, key, msg):
    k = f"{f.full.split('::')[-2]}:{f.name}:{key}"
    if k not in seen:
        seen[k] = 1
        c.bad(k, f.where(), msg)


def tokens(parts):
    """Tokens of printed pieces: texts are split, integers and types are single tokens."""
    out = []
    for x in parts:
        if x[0] == "s":
            for ch in x[1]:
                if not ch.isspace():
                    out.append(("s", ch))
        elif x[0] == "i" and conc(x) is not None:
            out.append(T("int", conc(x)))
        elif x[:2] == ("t", "apint"):
            out.append(T("int", sval(x)))      # operator<< prints an APInt as a signed number
        elif x[:2] == ("t", "ir"):
            out.append(x)
        else:
            return None
    return out


PUNCT = dict(parseLess="<", parseGreater=">", parseColon=":", parseComma=",", parseEqual="=", parseLParen="(", parseRParen=")", parseLSquare="[", parseRSquare="]")


def printing(w, n, name, q, op, ov, vals, s):
    if op == "<<" and vals and vals[0] == T("printer"):
        old = s.get(("out",)) or ("l", ())
        x = vals[1]
        if x is not None and x[0] == "i" and re.search(r"\bchar\b", str(n.args[1].type if n.args else "")) and conc(x) is not None:
            x = ("s", chr(conc(x)))
        return T("printer"), {**s, ("out",): ("l", old[1] + (x,))}
    if n.k == "MCall" and ov == T("printer"):
        return None, {**s, ("out",): ("l", (None,))}
    if n.k == "MCall" and ov == T("parser"):
        if name == "getContext":
            return T("ctx"), s
        if name in ("getCurrentLocation", "getNameLoc"):
            return T("loc"), s
        if name == "emitError":
            return ("fail",), s
        toks = (s.get(("in",)) or ("l", ()))[1]
        opt = "Optional" in name
        base = name.replace("Optional", "")
        if base in PUNCT:
            if toks[:1] == (("s", PUNCT[base]),):
                return T("success"), {**s, ("in",): ("l", toks[1:])}
            return ("fail",), s
        if base in ("parseInteger", "parseDecimalInteger") and n.args:
            t = toks[0] if toks else None
            p = w.place(n.args[0], s)
            if p is None or opt:
                return None, {**s, ("in",): None}
            if t is None or t[:2] != ("t", "int"):
                return ("fail",), s
            wide = "APInt" in str(n.args[0].type)
            x = t[2]
            v = apint(max(abs(x).bit_length(), 1) + 1 + w.extra, x) if wide else I(x)
            return T("success"), w.setp(p, v, {**s, ("in",): ("l", toks[1:])})
        if base in ("parseType", "parseAttribute") and n.args:
            t = toks[0] if toks else None
            p = w.place(n.args[0], s)
            if p is None or opt:
                return None, {**s, ("in",): None}
            e = w.ent(t)
            want = re.sub(r"[&*]|const", "", str(n.args[0].type)).strip()
            if e is None or e.kind != base[5:].lower()[:4].replace("attr", "attr"):
                return ("fail",), s
            if not want.split("::")[-1] in ("Type", "Attribute") and not w.isa(e, want if "::" in want else e.cls if e.cls.endswith("::" + want) else want):
                return ("fail",), s
            return T("success"), w.setp(p, t, {**s, ("in",): ("l", toks[1:])})
        return None, {**s, ("in",): None}
    if name == "operator bool" and n.k == "MCall" and re.search(r"\b(ParseResult|InFlightDiagnostic)$", n.cls or ""):
        t = accepted(ov)
        return (None if t is None else I(int(not t)) if (n.cls or "").endswith("ParseResult") else None), s
    if name == "getType" and ov is not None and ov[:2] == ("t", "intattr"):
        return ov[2], s
    short = q.split("::")[-1] if q else name
    if q.endswith("IntegerAttr::get") and len(vals) == 2:
        x = vals[1]
        e = w.ent(vals[0])
        if x is not None and conc(x) is not None and e is not None and e.d.get("width"):
            x = apint(e.width, conc(x))
        return (T("intattr", vals[0], x) if None not in (vals[0], x) else None), s
    if q.endswith("ModArithAttr::get") and len(vals) >= 2:
        return (T("mattr", vals[-2], vals[-1]) if None not in vals[-2:] else None), s
    return False


def ranges(c, P, tier, seen):
    for f in find(P, "DiscreteUniformDistributionOp", "verify"):
        c.count("verifiers", 1)
        big = (1 << 31) - 1, -(1 << 31), 1 << 40, -(1 << 40)
        for a, b in itertools.product((-3, -1, 0, 1, 2, 7) + big, repeat=2):
            w = VW(P)
            o = w.op(H + "random::DiscreteUniformDistributionOp", [], [], acc=dict(getMin=w.intattr(a, w.int(64)), getMax=w.intattr(b, w.int(64))))
            verdict(c, w, f, {}, o, a < b, "range", f"a range with min {a} and max {b}", seen)


def preprocessing(c, P, tier, seen):
    PP = H + "preprocessing::"
    for cls in ("StoreOp", "LoadOp"):
        for f in find(P, "preprocessing::" + cls, "verify"):
            c.count("verifiers", 1)
            for n in range(0, 4):
                for vt in range(n + 1):
                    for et in range(n + 1):
                        w = VW(P)
                        ts = [w.int(8 * (i + 1)) for i in range(n + 1)]        # the last one is not in the storage
                        st = w.mk(PP + "PreprocessingStorageType", text=f"storage{n}")
                        st.d["acc"] = dict(getElementTypes=ts[:n])
                        sv_ = w.arg("storage", st)
                        val = w.arg("v", ts[vt])
                        acc = dict(getElementType=ts[et], getElementTypeAttr=ts[et], getStorage=sv_, getIndices=[])
                        if cls == "StoreOp":
                            o = w.op(PP + cls, [val, sv_], [], acc=dict(acc, getValue=val))
                        else:
                            o = w.op(PP + cls, [sv_], [("r", ts[vt])], acc=acc)
                            o.acc["getResult"] = o.res[0]
                        want = vt == et and et < n
                        verdict(c, w, f, {}, o, want, "value" if vt != et else "member", f"an element type ({et} of {n} stored types) and a value of type {vt}", seen)
    for f in find(P, "preprocessing::LoadResourceOp", "verify"):
        c.count("verifiers", 1)
        for shape in [(), (4,), (None,), (4, None), (None, 4), (4, 3, None), (2, 2)]:
            w = VW(P)
            t = w.tensor(tuple(-1 if d is None else d for d in shape), w.int(8))
            t.d["static"] = None not in shape
            o = w.op(PP + "LoadResourceOp", [], [("r", t)])
            o.acc["getResult"] = o.res[0]
            verdict(c, w, f, {}, o, None not in shape, "static", f"a result of shape {shape}", seen)


def sites(c, P, tier, seen):
    """ValidatePreprocessing over small modules of stores and loads."""
    PP = H + "preprocessing::"
    for f in [f for f in P.all if f.name == "runOnOperation" and f.body is not None and f.rel.endswith("ValidatePreprocessing.cpp")]:
        c.count("verifiers", 1)
        name = f.full.split("::")[-2]
        kinds = [(k, site) for k in "sl" for site in (0, 1)]
        progs = []
        for n in range(0, 5):
            for m in itertools.combinations_with_replacement(kinds, n):
                progs.append([dict(k=k, site=site, idx=0, elt=0, st=0) for k, site in m])
        pair = lambda a, b: [dict(k="s", **a), dict(k="l", **b)]
        for d in itertools.product((0, 1), (0, 1), (0, 1)):
            a, b = dict(site=0, idx=0, elt=0, st=0), dict(site=0, idx=d[0], elt=d[1], st=d[2])
            ok = pair(dict(site=1, idx=0, elt=0, st=0), dict(site=1, idx=0, elt=0, st=0))
            progs += [pair(a, b), pair(b, a), list(reversed(pair(a, b))), pair(a, b) + ok, ok + pair(a, b)]
            b1 = dict(b, site=2)
            progs += [ok + pair(dict(a, site=2), b1)]
        lays = ("one", "two", "loop")
        for p in progs:
            for lay in lays if len(p) <= 3 or tier != "quick" else lays[:1]:
                for empties in ((0, 1, 2, 3) if len(p) == 2 else (0,)):
                    site(c, P, f, name, PP, p, lay, empties, seen)


def site(c, P, f, name, PP, p, lay, empties, seen):
    w = VW(P)
    elts = [w.int(8), w.int(16)]
    sts = [w.mk(PP + "PreprocessingStorageType", text="st0"), w.mk(PP + "PreprocessingStorageType", text="st1")]
    for t in sts:
        t.d["acc"] = dict(getElementTypes=elts)
    stores = [w.arg(f"storage{i}", t) for i, t in enumerate(sts)]
    ops = []
    for x in p:
        ix = [w.arg("i", w.idx())] * x["idx"]
        acc = dict(getSiteId=x["site"], getIndices=ix, getElementType=elts[x["elt"]], getStorage=stores[x["st"]])
        o = w.op(PP + ("StoreOp" if x["k"] == "s" else "LoadOp"), [stores[x["st"]]] + ix, [], acc=acc, opname="op")
        ops.append(o)
    es = [w.op(PP + "EmptyOp", [], [], acc={}, opname="empty") for _ in range(empties)]
    func = lambda n, body: w.op(M + "func::FuncOp", [], [], regions=[body], opname=n, acc=dict(getName=n, getSymName=n))
    if lay == "two":
        h = len(ops) // 2
        m = [func("f", es + ops[:h]), func("g", ops[h:])]
    elif lay == "loop":
        m = [func("f", es + [w.op(M + "affine::AffineForOp", [], [], regions=[ops], opname="for")])]
    else:
        m = [func("f", es + ops)]
    mod = w.op(M + "ModuleOp", [], [], regions=[m], opname="module")
    want = empties <= 1
    why = "more than one allocation in a function" if not want else ""
    for k in sorted({x["site"] for x in p}):
        st = [x for x in p if x["site"] == k and x["k"] == "s"]
        ld = [x for x in p if x["site"] == k and x["k"] == "l"]
        if len(st) != 1 or len(ld) != 1:
            want, why = False, f"site {k} with {len(st)} store(s) and {len(ld)} load(s)"
        else:
            for q, t in (("idx", "numbers of indices"), ("elt", "element types"), ("st", "storage types")):
                if st[0][q] != ld[0][q]:
                    want, why = False, why or f"site {k} whose store and load have different {t}"
    v, s = run_pass(w, f, mod)
    tr = s["tr"] if s is not None else ()
    c.count("descriptions evaluated", 1)
    text = "; ".join(f"{'store' if x['k'] == 's' else 'load'} {x['site']}" for x in p) + (f" in {lay}" if lay != "one" else "") + (f", {empties} allocations" if empties else "")
    if s is None or any(e[0] in ("alt", "loop") for e in tr):
        c.undecided(name, text); return
    got = not any(e[0] == "failpass" for e in tr)
    if got != want:
        k = f"{name}:{re.sub(chr(92) + 'd+', '#', why) or 'valid'}"
        if k not in seen:
            seen[k] = 1
            c.bad(k, f.where(), f"{name} {'accepts' if got else 'rejects'} a module with {why or 'one store and one load per site'}: \"{text}\"")
        return
    c.ok(f"{name}: {text}")


def names(c, P, tier, seen):
    for f in [f for f in P.all if f.name == "runOnOperation" and f.body is not None and f.rel.endswith("Debug/Transforms/ValidateNames.cpp")]:
        c.count("verifiers", 1)
        name = f.full.split("::")[-2]
        for n in range(0, 5):
            for ns in itertools.product("ab", repeat=n) if n <= 2 else itertools.product("abc" if n == 3 else "abcd", repeat=n):
                for lay in ("one", "two", "loop"):
                    w = VW(P)
                    ops = [w.op(H + "debug::ValidateOp", [], [], acc=dict(getName=x, getNameAttr=("s", x)), opname="v") for x in ns]
                    func = lambda q, body: w.op(M + "func::FuncOp", [], [], regions=[body], opname=q, acc=dict(getName=q))
                    if lay == "two":
                        m = [func("f", ops[:1]), func("g", ops[1:])]
                    elif lay == "loop":
                        m = [func("f", ops[:1] + [w.op(M + "affine::AffineForOp", [], [], regions=[ops[1:]], opname="for")])]
                    else:
                        m = [func("f", ops)]
                    mod = w.op(M + "ModuleOp", [], [], regions=[m], opname="module")
                    v, s = run_pass(w, f, mod)
                    tr = s["tr"] if s is not None else ()
                    c.count("descriptions evaluated", 1)
                    if s is None or any(e[0] in ("alt", "loop") for e in tr):
                        c.undecided(name, f"{ns} {lay}"); continue
                    got = not any(e[0] == "failpass" for e in tr)
                    want = len(set(ns)) == len(ns)
                    if got != want:
                        say(c, f, seen, "dup" if got else "valid", f"{name} {'accepts' if got else 'rejects'} a module with the names {', '.join(ns)}")
                    else:
                        c.ok(f"{name}: {ns} {lay}")


def check(c):
    P = prog.load()
    c.rule("a verifier accepts a description exactly if every stated rule holds for all of its elements")
    seen = {}
    rns(c, P, c.tier, seen)
    modarith(c, P, c.tier, seen)
    roundtrip(c, P, c.tier, seen)
    ranges(c, P, c.tier, seen)
    preprocessing(c, P, c.tier, seen)
    sites(c, P, c.tier, seen)
    names(c, P, c.tier, seen)
    c.need("verifiers", 9)
    c.need("descriptions evaluated", 1500)
    return c.finish("Each verifier is evaluated on every enumerated description; its verdict is compared with the rules it states.")
