"""C18: element positions are row-major, in 64 bits."""
import os, re
from .cprop import I, T, paths
from .ceval import conc
from .poly import PolyEval, mk, of, op, norm
from .taint import Taint
from . import prog, facts

TU, TG, AM, MU = "lib/Utils/TensorUtils.cpp", "lib/Utils/TargetUtils.cpp", "lib/Utils/AffineMapUtils.cpp", "lib/Transforms/MemrefToArith/Utils.cpp"
LINT = [TU, TG, AM, MU, "lib/Utils/Layout/Convolution.cpp", "lib/Utils/Layout/IslConversion.cpp", "lib/Utils/Layout/Hoisting.cpp",
        "lib/Utils/Layout/Evaluate.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp", "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp",
        "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp", "lib/Target/TfheRust/TfheRustEmitter.cpp",
        "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp"]
RANKS = range(0, 5)


def rowmajor(idx, dims):
    v = I(0)
    for i, x in enumerate(idx):
        v = x if i == 0 else P_("+", P_("*", v, dims[i]), x)
    return norm(v)


def P_(o, a, b):
    return mk(op(o, of(a), of(b)))


def dims(tag, r):
    return [T("dim", tag, i) for i in range(r)]


def idxs(r, tag="idx"):
    return [T(tag, i) for i in range(r)]


class Ev(PolyEval):
    """Knows shaped types T("type", tag, rank), fold results T("ofr", const?, i), functions T("fn", name)."""

    def __init__(self, P, const=True, names=None):
        super().__init__(P)
        self.const = const
        self.names = names or {}
        self.callhook = self.hook

    def apply(self, fv, vals, s, nodes=None):
        if fv is not None and fv[:2] == ("t", "fn") and fv[2] in self.names and None not in vals:
            return self.names[fv[2]](*vals), s
        return super().apply(fv, vals, s, nodes)

    def hook(self, n, name, q, ov, vals, s):
        if ov is not None and ov[:2] == ("t", "type"):
            tag, r = ov[2], ov[3]
            if name == "getRank":
                return I(r), s
            if name == "getShape":
                return ("l", tuple(dims(tag, r))), s
            if name == "getDimSize" and conc(vals[0]) is not None:
                return T("dim", tag, conc(vals[0])), s
            if name == "getNumElements":
                v = I(1)
                for d in dims(tag, r):
                    v = P_("*", v, d)
                return v, s
            if name == "hasStaticShape":
                return I(1), s
            if name == "getStridesAndOffset" and not vals:
                return ("st", (("first", ("l", tuple(idxs(r, "stride")))), ("second", T("offset")))), s
            if name == "getContext":
                return T("ctx"), s
        a = vals[0] if vals else None
        if name in ("getConstantIntValues", "getConstantIntValue", "getConstantIndexValue") and a is not None:
            if not self.const:
                return ("fail",), s
            if a[0] == "l":
                return ("l", tuple(T("idx", x[2]) if x is not None and x[:2] == ("t", "ofr") else None for x in a[1])), s
            if a[:2] == ("t", "ofr"):
                return T("idx", a[2]), s
        if name in ("has_value", "succeeded") and ov is not None and ov[0] in ("l", "t"):
            return I(1), s
        if name in ("failed", "succeeded") and q in ("llvm::failed", "llvm::succeeded", "mlir::failed", "mlir::succeeded") and a is not None and (a[0] in ("l", "t", "i")):
            return I(int(name == "succeeded")), s
        if name == "has_value" and ov == ("fail",):
            return I(0), s
        if name in ("value", "getValue", "str") and not vals and ov is not None and ov[0] in ("l",):
            return ov, s
        if name in ("value",) and not vals and ov is not None and ov[0] in ("t", "i"):
            return ov, s
        if q in ("mlir::getAffineDimExpr",) and conc(a) is not None:
            return T("idx", conc(a)), s
        if name.startswith("operator ") and "bool" in name and ov is not None and ov[0] in ("t", "i"):
            return I(1), s
        if name == "floorDiv" and ov is not None and a is not None:
            return self.arith("/", ov, a), s
        if q == "mlir::simplifyAffineMap":
            return a, s
        if q == "mlir::AffineMap::get" and len(vals) >= 3 and None not in (vals[0], vals[2]):
            return T("map", vals[0], vals[2]), s
        if ov is not None and ov[:2] == ("t", "access"):
            if name == "getRank":
                return I(ov[2]), s
        if name == "getResult" and conc(a) is not None and n.obj is not None and "AffineValueMap" in (n.obj.type or ""):
            return T("res", conc(a)), s
        if ov is not None and ov[:2] == ("t", "res"):
            if name == "getKind":
                return ("e", n.type.replace("const ", ""), "Constant" if self.const else "SymbolId"), s
            if name == "getValue":
                return T("idx", ov[2]), s
        if a is not None and a[:2] == ("t", "res"):
            short = q.split("::")[-1]
            if short in ("dyn_cast", "cast", "dyn_cast_or_null", "dyn_cast_if_present"):
                return (a if self.const or "dyn" not in short else ("fail",)), s
            if short.startswith("isa"):
                return I(int(self.const)), s
        if name == "str" and ov is not None and ov[0] == "s":
            return ov, s
        return None


    def ctor(self, n, s):
        if re.search(r"\b(AffineExpr|AffineMap)$", n.d.get("cls") or "") and not [x for x in n.args or [] if x.k != "DefArg"]:
            return ("fail",), s
        return super().ctor(n, s)


def formula(c, P, rel, name, pick, run, undecided_ok=True):
    fs = [f for f in P.all if f.name == name and not f.dep and f.body is not None and f.rel in (rel, rel[:-3] + "h") and pick([p.type for p in f.params])]
    if not fs:
        c.undecided(name, "function not found in " + rel)
        return
    for f in fs:
        sig = ", ".join(re.sub(r".*::|<.*", "", p.type.replace("const ", "").replace("&", "").strip()) or p.type for p in f.params)
        c.count("index functions")
        for r in RANKS:
            c.count("formula instances")
            try:
                got = run(P, f, r)
            except (IndexError, KeyError, TypeError) as e:
                got = ("?", f"{type(e).__name__}")
            if got is None:
                continue
            kind, msg = got[0], got[1]
            if kind == "ok":
                c.ok(f"{name}({sig}) rank {r}: {msg}")
            elif kind == "bad":
                c.bad(f"{f.rel}:{name}:{len(f.params)}:{msg[:40]}", f.where(), f"{name} for rank {r}: {msg}")
            else:
                c.undecided(f"{name}({sig}) rank {r}", msg)


def pure(v):
    """Does a term consist only of our symbols (so that comparing normal forms is conclusive)?"""
    if not isinstance(v, tuple):
        return isinstance(v, (int, str))
    if v and v[0] == "set":
        return False
    if v and v[0] == "t":
        if v[1] in ("poly", "div"):
            return all(pure(x) for x in v[2:])
        return v[1] in ("dim", "idx", "stride", "offset", "flat", "S", "name", "o", "z", "st", "iv")
    if v and v[0] == "i":
        return conc(v) is not None
    return all(pure(x) for x in v)


def same(got, want):
    got = norm(got)
    want = norm(want)
    if got == want:
        return "ok", show(want)
    if got is None:
        return "?", "result not resolved"
    if got == ("fail",):
        return "bad", "reports failure for constant positions"
    if not pure(got):
        return "?", "result contains unmodelled parts"
    return "bad", f"position is {show(got)}, not {show(want)}"


def show(v):
    if v is None:
        return "?"
    if conc(v) is not None:
        return str(conc(v))
    if v[0] == "l":
        return "(" + ", ".join(show(x) for x in v[1]) + ")"
    if v[:2] == ("t", "poly"):
        return " + ".join("*".join(([str(k)] if k != 1 or not m else []) + [show(x) for x in m]) for m, k in v[2])
    if v[:2] == ("t", "div"):
        return f"({show(v[2])})/({show(v[3])})"
    if v[0] == "t":
        return "".join(str(x) if not isinstance(x, tuple) else show(x) for x in v[1:])
    return str(v[1] if len(v) > 1 else v)


def samelist(got, want):
    if got is None or got[0] != "l":
        return "?", "result not resolved"
    if len(got[1]) != len(want):
        return "bad", f"{len(got[1])} positions instead of {len(want)}"
    res = [same(g, w) for g, w in zip(got[1], want)]
    for k, m in res:
        if k == "?":
            return k, m
    for i, (k, m) in enumerate(res):
        if k == "bad":
            return k, f"component {i}: {m}"
    return "ok", show(("l", tuple(want)))


def r_flat(P, f, r):
    if any("OpFoldResult" in p.type for p in f.params):
        it = Ev(P)
        v, st = it.run(f, {0: T("type", "in", r), 1: ("l", tuple(idxs(r, "ofr")))})
        k = same(v, rowmajor(idxs(r), dims("in", r)))
        if k[0] == "ok":
            it = Ev(P, const=False)
            v, st = it.run(f, {0: T("type", "in", r), 1: ("l", tuple(idxs(r, "ofr")))})
            if v is None or v != ("fail",) and not pure(v):
                return "?", "result for non-constant positions not resolved"
            if v != ("fail",):
                return "bad", "a position that is not constant does not lead to failure"
        return k
    v, st = Ev(P).run(f, {0: T("type", "in", r), 1: ("l", tuple(idxs(r)))})
    return same(v, rowmajor(idxs(r), dims("in", r)))


def r_unflat(P, f, r):
    v, st = Ev(P).run(f, {0: T("flat"), 1: ("l", tuple(dims("in", r)))})
    want, x = [], T("flat")
    ds = dims("in", r)
    for i in range(r):
        m = I(1)
        for d in ds[i + 1:]:
            m = P_("*", m, d)
        q = P_("/", x, m)
        want.append(q)
        x = P_("-", x, P_("*", q, m))
    return samelist(v, want)


def r_flattened(P, f, r):
    it = Ev(P, names={"toInt": lambda v: v})
    v, st = it.run(f, {0: T("type", "in", r), 1: ("l", tuple(idxs(r))), 2: T("fn", "toInt")})
    if "MemRefType" in f.params[0].type:
        w = T("offset")
        for i in range(r):
            w = P_("+", w, P_("*", T("stride", i), T("idx", i)))
        return same(v, w)
    return same(v, rowmajor(idxs(r), dims("in", r)))


def text(it, v, want):
    if v is None or v[0] != "s":
        return "?", "text not resolved"
    g = it.parse(v[1])
    if g is None:
        return "?", f"text {v[1]!r} not understood"
    k, m = same(g, want)
    return (k, m) if k != "bad" else (k, f"text '{pretty(it, v[1])}' denotes " + m)


def pretty(it, s):
    for k, x in it.syms.items():
        s = s.replace(k, show(x))
    return s


def r_expr(P, f, r):
    composite = "ShapedType" not in f.params[0].type and "MemRefType" not in f.params[0].type and "Shaped" not in f.params[0].type

    def sym(it, i):
        return it.name_of(T("idx", i)) + (" + " + it.name_of(T("o", i)) + " * " + it.name_of(T("iv", i)) if composite else "")

    def val(i):
        x = T("idx", i)
        return P_("+", x, P_("*", T("o", i), T("iv", i))) if composite else x
    it = Ev(P)
    it.names = {"vts": lambda v: ("s", sym(it, v[2]))}
    if composite:
        a1 = ("l", tuple(("s", sym(it, i)) for i in range(r)))
        a0 = ("l", tuple(("s", it.name_of(d)) for d in dims("in", r))) if "string" in f.params[0].type else ("l", tuple(dims("in", r)))
        v, st = it.run(f, {0: a0, 1: a1})
    else:
        v, st = it.run(f, {0: T("type", "in", r), 1: ("l", tuple(idxs(r))), 2: T("fn", "vts")})
    if "MemRefType" in f.params[0].type:
        w = T("offset")
        for i in range(r):
            w = P_("+", w, P_("*", T("stride", i), T("idx", i)))
        return text(it, v, w)
    return text(it, v, rowmajor([val(i) for i in range(r)], dims("in", r)))


def r_slice(P, f, r):
    if r == 0 or "int64_t" in f.params[5].type or "long" in f.params[5].type:
        return None
    it = Ev(P)
    tagn = {"o": "o", "z": "z", "st": "st"}
    it.names = {"ots": lambda v: ("s", it.name_of(v)),
                "iv": lambda v: ("s", it.name_of(T("iv", conc(v)))),
                "open": lambda *a: None}
    opened = []

    def opener(os, iv, size):
        opened.append((it.syms.get(iv[1]) if iv is not None and iv[0] == "s" else None, size))
        return None
    it.names["open"] = opener
    args = {0: T("type", "res", r), 1: T("type", "in", r), 2: ("s", "res"), 3: ("s", "src")}
    for i, p in enumerate(f.params):
        if p.n == "offsets":
            args[i] = ("l", tuple(idxs(r, "o")))
        elif p.n == "sizes":
            args[i] = ("l", tuple(idxs(r, "z")))
        elif p.n == "strides":
            args[i] = ("l", tuple(idxs(r, "st")))
        elif "OffsetToString" in p.type or p.n == "offsetToString":
            args[i] = T("fn", "ots")
        elif p.n == "getInductionVarName":
            args[i] = T("fn", "iv")
        elif p.n == "loopOpener":
            args[i] = T("fn", "open")
    v, st = it.run(f, args)
    if st is None:
        return "?", "not resolved"
    out = None
    for p in paths(st["tr"]):
        t = ""
        for e in p:
            if e[0] == "o":
                if e[2] is None or e[2][0] != "s":
                    return "?", "emitted text not resolved"
                t += e[2][1]
        if out is not None and out != t:
            return "?", "several emitted texts"
        out = t
    m = re.match(r"\s*res\[(.*)\] = src\[(.*)\];", out or "")
    if not m:
        return "?", f"emitted text {out!r} not understood"
    want = [rowmajor(idxs(r, "iv"), idxs(r, "z")),
            rowmajor([P_("+", T("o", i), P_("*", T("iv", i), T("st", i))) for i in range(r)], dims("in", r))]
    for k, (t, w) in enumerate(zip(m.groups(), want)):
        kind, msg = text(it, ("s", t), w)
        if kind != "ok":
            return kind, f"{'target' if k == 0 else 'source'} " + msg
    if [x for x in opened] != [(T("iv", i), T("z", i)) for i in range(r)]:
        if any(a is None or b is None for a, b in opened) or not opened:
            return "?", "loop headers not resolved"
        return "bad", f"loops run over {[(show(a), show(b)) for a, b in opened]}"
    return "ok", pretty(it, out.strip().split("\n")[0])


def r_map(P, f, r):
    if r == 0:
        return None
    res = None
    for ro in (1, 2, 3):
        v, st = Ev(P).run(f, {0: T("type", "in", r), 1: T("type", "out", ro)})
        if v is None or v[:2] != ("t", "map") or v[3] is None or v[3][0] != "l":
            return "?", "map not resolved"
        if conc(v[2]) != r:
            return ("bad", "number of input dimensions is not the rank of the input") if conc(v[2]) is not None else ("?", "number of dimensions not resolved")
        x = rowmajor(idxs(r), dims("in", r))
        want = []
        for d in reversed(dims("out", ro)):
            want.insert(0, P_("%", x, d))
            x = P_("/", x, d)
        k = samelist(v[3], want)
        if k[0] != "ok":
            return k
        res = k
    return res


def r_unflatten(P, f, r):
    v, st = Ev(P).run(f, {0: T("flat"), 1: ("l", tuple(idxs(r, "stride"))), 2: T("offset")})
    x = P_("-", T("flat"), T("offset"))
    want = []
    for i in range(r):
        want.append(P_("/", x, T("stride", i)))
        x = P_("%", x, T("stride", i))
    return samelist(v, want)


def r_flatten(P, f, r):
    v, st = Ev(P).run(f, {0: ("l", tuple(idxs(r))), 1: ("l", tuple(idxs(r, "stride"))), 2: T("offset")})
    w = T("offset")
    for i in range(r):
        w = P_("+", w, P_("*", T("stride", i), T("idx", i)))
    return same(v, w)


def r_mat(P, f, r):
    v, st = Ev(P).run(f, {0: T("access", r)})
    k = samelist(v, idxs(r))
    if k[0] == "ok" and r:
        v, st = Ev(P, const=False).run(f, {0: T("access", r)})
        if v is None or v != ("fail",) and not (v[0] == "l" and pure(v)):
            return "?", "result for a variable access not resolved"
        if v != ("fail",):
            return "bad", "a variable index does not make the access unknown"
    return k


# -- width lint ---------------------------------------------------------------
W = {"long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16,
     "char": 8, "unsigned char": 8, "signed char": 8, "__int128": 128, "unsigned __int128": 128}
BOUNDED = re.compile(r"^(getRank|size|getNum\w*|getVarKindOffset|length|count|getKind|getDimPosition|getOffset|numel|getIntOrFloatBitWidth|getWidth|"
                     r"getBitWidth|getActiveBits|isl_\w+|bit_width|countr_zero|log2|Log2_\w+|sqrt|distance|getIndexFrom\w*|getOutPosition|getInPosition|index|getResultNumber|getArgNumber)$")


def bare(t):
    return (t or "").replace("const ", "").replace("&", "").strip()


def source(n):
    """Leaves that carry a position, an extent or an unbounded 64-bit integer."""
    if n.k in ("Call", "MCall", "OpCall") and W.get(bare(n.type)) == 64 and not (n.op in ("[]",) or n.n in ("operator[]",)):
        if n.k == "OpCall" or BOUNDED.match(n.n or ""):
            return None
        return "wide"
    if n.k in ("OpCall", "Idx") and (n.k == "Idx" or n.op == "[]") and W.get(bare(n.type)) == 64:
        return "wide"
    if n.k == "Ref" and n.dk == "param" and W.get(bare(n.type)) == 64 and bare(n.type) in ("long", "long long"):
        return "wide" if not re.search(r"[rR]ank|num|[nN]um|dim$|pos", n.n or "") else None
    return None


def width(P, f):
    """(node, message, key) for each narrowing of a wide value."""
    elems = set()
    for n in f.walk():
        if n.k == "RFor" and n.var is not None and bare(n.var.type) in ("long", "long long") and \
                not any(x.k in ("Call", "Ctor") and re.search(r"seq|iota|indices|enumerate|SmallSet|unused", (x.n or "")) for x in (n.range.walk() if n.range is not None else ())) and \
                any(re.search(r"[sS]hape|[sS]ize|[eE]xtent|[sS]tride|[iI]nd(ices|exes)|[oO]ffset", x.n or "") for x in n.range.walk()):
            elems.add(n.var.d["id"])

    t = Taint(f, lambda n: "wide" if n.k == "Ref" and n.d.get("id") in elems else source(n))
    out, seen = [], 0
    for n in f.walk():
        a = b = None
        e = None
        if n.k == "Cast" and n.ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral") and n.e is not None and n.e.cv is None:
            a, b, e = bare(n.e.type), bare(n.type), n.e
            if n.ck == "FloatingToIntegral":
                continue
            if n.ck == "IntegralToFloating" and b != "float":
                continue
            if n.ck == "IntegralCast" and not W.get(a, 0) > W.get(b, 99):
                continue
        elif n.k == "CAssign" and n.b is not None and n.b.cv is None:
            l = bare(n.a.type)
            x = n.b
            wide = max((W.get(bare(y.type), 0) for y in [x] + ([x.e] if x.k == "Cast" and x.e is not None else [])), default=0)
            if not W.get(l) or wide <= W[l]:
                continue
            a, b, e = "64-bit", l, x
        if e is None:
            continue
        seen += 1
        if "wide" in t.dep(e):
            out.append((n, f"a {a} position or extent is narrowed to {b}"))
    return out, seen


def check(c):
    c.rule("the value of every index helper is computed in a polynomial domain (normal forms of +, -, *, / and % over symbolic dimensions and positions) "
           "for ranks 0 to 4 and must equal the row-major (or strided) position; positions that are not constant lead to failure")
    c.rule("text emitted for a position is parsed and must denote the same polynomial, also when the index strings are themselves sums and products")
    c.rule("in the index-computing files no value derived from a 64-bit position, extent or table entry is converted to a narrower integer or to float")
    P = prog.load([TU, TG, AM, MU])
    any_ = lambda ts: True
    two = lambda ts: len(ts) == 2
    formula(c, P, TU, "getFlattenedIndex", two, r_flat)
    formula(c, P, TU, "getIndicesFromRowMajorShape", two, r_unflat)
    formula(c, P, TG, "flattenedIndex", any_, r_flattened)
    formula(c, P, TG, "flattenIndexExpression", any_, r_expr)
    formula(c, P, TG, "flattenIndexExpressionSOP", any_, r_expr)
    formula(c, P, TG, "emitFlattenedExtractSlice", any_, r_slice)
    formula(c, P, AM, "getRowMajorLayoutMap", two, r_map)
    formula(c, P, MU, "unflattenIndex", lambda ts: len(ts) == 3, r_unflatten)
    formula(c, P, MU, "flattenIndex", lambda ts: len(ts) == 3, r_flatten)
    formula(c, P, MU, "materialize", lambda ts: len(ts) == 1, r_mat)
    have = [s for s in facts.sources() if s in LINT]
    Q = prog.load(have, gen=("lib/Target/",))
    files = set(have) | {s[:-3] + "h" for s in have} | {"lib/Utils/Layout/Evaluate.h"}
    done = set()
    for f in Q.all:
        if f.dep or f.body is None or "ash" in f.name and f.name.lower().startswith(("gethash", "hash")) or f.rel not in files or (f.rel, f.line, f.full) in done:
            continue
        done.add((f.rel, f.line, f.full))
        c.count("functions linted")
        out, seen = width(Q, f)
        c.count("narrowing sites", seen)
        for n, msg in out:
            c.bad(f"{f.rel}:{f.name}:{msg}", f"{f.rel}:{n.line}", f"{f.name}: {msg}")
        if not out:
            c.ok()
    selftest(c)
    c.need("index functions", 3)
    c.need("functions linted", 20)
    return c.finish("Index helpers are evaluated in a polynomial value domain per rank and compared with the row-major formula; narrowing conversions of positions are "
                    "found by a typed cast lint with data-dependence filtering.")


def selftest(c):
    p = prog.Program([facts.extract(os.path.join(facts.VERIF, "drivers", "c18_positive.cpp"))])
    for f in p.all:
        m = re.match(r"(good|bad)", f.name)
        if not m:
            continue
        bad = bool(width(p, f)[0]) if "_w" in f.name else r_unflatten(p, f, 3)[0]
        c.count("self-test examples")
        if bad not in ((True, "bad") if m.group(1) == "bad" else (False, "ok")):
            raise facts.AnalysisBroken(f"C18: self test {f.name}: {bad}")
    if c.counts.get("self-test examples", 0) < 7:
        raise facts.AnalysisBroken("C18: self test examples not found")
