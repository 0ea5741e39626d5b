"""C11: the text a generator emits for an operation contains every operand and attribute in its role.

Each generator's translate() is evaluated over a description of one operation at a time (opaque operand names,
all the operand and attribute combinations listed here); the resulting text is compared, token by token and
up to borrowing (&, .clone(), mut), with what the operation means in the target language."""
import re, sys
from .cprop import I, T
from .world import World, text
from . import prog
sys.setrecursionlimit(20000)

FAIL = "FAIL"
ENC = "mlir::heir::tfhe_rust::"
ENB = "mlir::heir::tfhe_rust_bool::"
TOK = re.compile(r'[A-Za-z_]\w*|\d\w*|"[^"]*"|::|->|=>|\.\.|==|!=|<<|>>|&&|\|\||\S')


def norm(s):
    """Tokens of Rust text without borrows, clones, mut, block indentation and trailing commas."""
    ts = TOK.findall(s)
    out = []
    i = 0
    while i < len(ts):
        t = ts[i]
        if t == "&" and not (out and re.match(r"[\w\])\"]", out[-1][-1]) and out[-1] not in ("in", "return", "as")):
            i += 1; continue
        if t == "mut":
            i += 1; continue
        if ts[i:i + 4] == [".", "clone", "(", ")"]:
            i += 4; continue
        if t in ("]", ")") and out and out[-1] == ",":
            out.pop()
        out.append(t)
        i += 1
    return out


class Gen:
    def __init__(self, P, kind, cfg=()):
        self.P, self.kind = P, kind
        self.cfg = dict(cfg)
        self.cls = {"rs": "TfheRustEmitter", "bool": "TfheRustBoolEmitter", "hl": "TfheRustHLEmitter"}[kind]
        f = [f for f in P.all if f.full.endswith("::" + self.cls + "::translate") and f.body is not None]
        self.f = f[0] if f else None
        self.label = self.cls + "".join(f" ({k})" for k, v in sorted(self.cfg.items()) if v)

    def state(self, w):
        st = {("g", "mlir::heir::tfhe_rust::DefaultTfheRustHLBitWidth"): I(8), ("m", ("this",), "serverKeyArg"): ("s", "")}
        for k in {"rs": ("useLevels",), "bool": ("packedAPI",), "hl": ()}[self.kind]:
            st[("m", ("this",), k)] = I(int(self.cfg.get(k, 0)))
        return st

    def emit(self, build, entry=None):
        w = World(self.P)
        w.enc, w.gen = (ENB if self.kind == "bool" else ENC), self
        o, exp = build(w, self)
        ops = o if isinstance(o, list) else [o]
        st = self.state(w)
        out, unk = "", []
        for x in ops:
            st["tr"] = ()
            w.failures.clear()
            r = w.run(self.f, {0: x.v}, {k: v for k, v in st.items() if k != "tr"})
            if r[1] is None:
                return w, exp, None, "", ["no normal return"]
            v, s = r
            if v == ("fail",):
                return w, exp, ("fail",), "", []
            if v != T("success"):
                return w, exp, None, "", ["status unknown: " + str(v)[:60]]
            t, u = text(w, s["tr"])
            out += t
            unk += u
            st.update({k: z for k, z in s.items() if k[0] == "m" or k[0] == "g"})
        return w, exp, T("success"), out, unk


# -- descriptions -------------------------------------------------------------
def ct(w, bits=8):
    if w.gen.kind == "bool":
        return w.mk(ENB + "EncryptedBoolType", traits=("PassByReference",), text="!eb", bits=1)
    return w.mk(ENC + f"EncryptedUInt{bits}Type", traits=("EncryptedInteger", "PassByReference"), text=f"!eui{bits}", bits=bits)


def sint(w, bits):
    return w.mk(ENC + f"EncryptedInt{bits}Type", traits=("EncryptedInteger", "PassByReference"), text=f"!ei{bits}", bits=bits)


def key(w, packed=False):
    if w.gen.kind == "bool":
        return w.mk(ENB + ("PackedServerKeyType" if packed else "ServerKeyType"), traits=("PassByReference",), text="!sk")
    return w.mk(ENC + "ServerKeyType", traits=("PassByReference",), text="!sk")


def made(w, name, ty, by="AddOp", **d):
    """A value that is the result of another operation."""
    cls = by if "::" in by else (ENB + ("AndOp" if by == "AddOp" else by) if w.gen.kind == "bool" else ENC + by)
    return w.op(cls, [], [(name, ty)], **d).res[0]


def tid(v):
    return 7000 + v.id


def width(n):
    for c in (8, 16, 32, 64, 128):
        if n <= c:
            return c


def rty(w, t, default=8):
    """The Rust type of a type; None if it has none."""
    k = w.gen.kind
    if "bits" in t.d:
        if k != "hl" or t.bits == default:
            return "Ciphertext"
        return f"tfhe::FheUint<tfhe::FheUint{t.bits}Id>"
    if "shape" in t.d:
        e = rty(w, t.elt, default)
        if e is None:
            return None
        if k == "bool":
            return f"Vec<{e}>"
        for d in reversed(t.shape):
            e = f"[{e}; {d}]"
        return e
    if "width" in t.d:
        if t.width == 1:
            return "bool"
        if width(t.width) is None:
            return None
        s = ("i" if t.sign == "s" else "u") if k == "hl" else ("u" if t.sign == "u" else "i")
        return s + str(width(t.width))
    if t.text == "index":
        return "usize" if k == "hl" else None
    if t.text == "!sk":
        return ("ServerKeyEnum" if "Packed" in t.cls else "ServerKey") if k != "hl" else None
    if t.text == "!lut":
        return "LookupTableOwned" if k != "bool" else None
    return None


def nest(shape, el):
    layer = list(el)
    for d in reversed(shape):
        layer = ["[" + ", ".join(layer[i:i + d]) + "]" for i in range(0, len(layer), d)]
    return layer[0]


def lin(shape, ix):
    e = ix[0]
    for d, i in zip(shape[1:], ix[1:]):
        e = f"{i} + {d} * ({e})"
    return e


def sop(shape, ix):
    st, a = [], 1
    for d in reversed(shape):
        st.insert(0, a); a *= d
    e = "0"
    for s_, i in zip(st, ix):
        e = f"{e} + {i} * {s_}"
    return e


def binary(w, cls, a, b, res, **acc):
    return w.op(cls, [a, b], [res], acc=dict(getLhs=a, getRhs=b, **acc))


def sks(w, cls, k, a, b, res):
    return w.op(w.enc + cls, [k, a, b], [res], acc=dict(getServerKey=k, getLhs=a, getRhs=b))


def const(w, name, val, ty):
    at = w.intattr(val, ty)
    return w.op("mlir::arith::ConstantOp", [], [(name, ty)], acc=dict(getValue=at, getValueAttr=at))


def cases(kind, cfg):
    """(label, build) pairs; build(w, gen) -> (operation(s), expected text(s) or FAIL or predicate)."""
    out = []

    def case(label):
        def deco(f):
            out.append((label, f))
            return f
        return deco
    lv = bool(cfg.get("useLevels"))
    packed = bool(cfg.get("packedAPI"))

    # ---- integer operations, shared -----------------------------------------
    for c, sym in (("ShLIOp", "<<"), ("AndIOp", "&"), ("ShRSIOp", ">>")):
        for sign in ("", ):
            for wd in (8, 32, 64):
                @case(f"arith {c} i{wd}")
                def _(w, g, c=c, sym=sym, wd=wd):
                    t = w.int(wd)
                    return binary(w, "mlir::arith::" + c, w.arg("qa", t), w.arg("qb", t), ("qr", t)), f"let qr = qa {sym} qb;"
        if kind != "hl":
            @case(f"arith {c}, constant right operand")
            def _(w, g, c=c, sym=sym):
                t = w.int(32)
                k = const(w, "kc", 3, t)
                return binary(w, "mlir::arith::" + c, w.arg("qa", t), k.res[0], ("qr", t)), f"let qr = qa {sym} kc;"
        else:
            for wd, v, lit in ((32, 3, "3u32"), (8, -1, "255u8"), (5, 3, "3u8"), (1, 1, "true"), (1, 0, "false"), (64, -2, "18446744073709551614u64")):
                @case(f"arith {c}, constant right operand {v} : i{wd}")
                def _(w, g, c=c, sym=sym, wd=wd, v=v, lit=lit):
                    t = w.int(wd)
                    k = const(w, "kc", v, t)
                    return binary(w, "mlir::arith::" + c, w.arg("qa", t), k.res[0], ("qr", t)), [f"let qr = qa {sym} {lit};", f"let qr = qa {sym} kc;"]
        @case(f"arith {c}, constant left operand")
        def _(w, g, c=c, sym=sym):
            t = w.int(32)
            k = const(w, "kc", 3, t)
            return binary(w, "mlir::arith::" + c, k.res[0], w.arg("qb", t), ("qr", t)), [f"let qr = kc {sym} qb;"] + ([f"let qr = 3u32 {sym} qb;"] if kind == "hl" else [])
    for wd, v in ((8, 7), (8, -5), (16, -32768), (32, 123456), (64, -1), (12, 5), (128, 1 << 100)):
        @case(f"arith constant {v} : i{wd}")
        def _(w, g, wd=wd, v=v):
            lit = str(v) if kind != "hl" else f"{v & ((1 << wd) - 1)}u{width(wd)}"
            return const(w, "kc", v, w.int(wd)), f"let kc = {lit};"
    for v in (0, 1):
        @case(f"arith constant {v} : i1")
        def _(w, g, v=v):
            return const(w, "kc", v, w.int(1)), f"let kc : bool = {'true' if v else 'false'};"
    @case("arith constant index")
    def _(w, g):
        return const(w, "kc", 4, w.idx()), ["let kc = 4;", "let kc = 4usize;"]
    @case("arith constant float")
    def _(w, g):
        return w.op("mlir::arith::ConstantOp", [], [("kc", w.flt(32))], acc=dict(getValue=w.attr("mlir::FloatAttr", ty=w.flt(32)))), FAIL
    for dst in (("", 8), ("", 32), ("u", 16), ("", 64), ("", 12), ("", 256)):
        @case(f"index cast to i{dst[1]}{dst[0]}")
        def _(w, g, dst=dst):
            t = w.int(dst[1], dst[0])
            x = w.arg("qi", w.idx())
            r = rty(w, t)
            return w.op("mlir::arith::IndexCastOp", [x], [("qr", t)], acc=dict(getIn=x, getOut=lambda w_, v, s: w_.lift(o_.res[0]))) if False else idxcast(w, x, "qr", t), (f"let qr = qi as {r};" if r else FAIL)
    @case("index cast to index")
    def _(w, g):
        x = w.arg("qi", w.int(32))
        return idxcast(w, x, "qr", w.idx()), ("let qr = qi as usize;" if kind == "hl" else FAIL)
    for wd in (8, 16, 32, 256):
        @case(f"truncation to i{wd}")
        def _(w, g, wd=wd):
            x = w.arg("qi", w.int(64))
            t = w.int(wd)
            r = rty(w, t)
            return w.op("mlir::arith::TruncIOp", [x], [("qr", t)], acc=dict(getIn=x)), (f"let qr = qi as {r};" if r else FAIL)
    @case("truncation to i1")
    def _(w, g):
        x = w.arg("qi", w.int(64))
        return w.op("mlir::arith::TruncIOp", [x], [("qr", w.int(1))], acc=dict(getIn=x)), ["let qr = qi & 1 != 0;", "let qr = (qi & 1) != 0;", "let qr = qi & 1 == 1;", "let qr = (qi & 1) == 1;"]

    # ---- loops -------------------------------------------------------------
    def loop(w, lo, hi, step, body, iv="qi", inits=(), iters=(), res=(), const_=True):
        i = w.arg(iv, w.idx())
        it = [w.arg(n, t) for n, t in iters]
        o = w.op("mlir::affine::AffineForOp", list(inits), list(res), acc=dict(
            getInductionVar=i, getConstantLowerBound=lo, getConstantUpperBound=hi, getStepAsInt=step,
            getInits=list(inits), getInitArgs=list(inits), getRegionIterArgs=it, hasConstantBounds=const_,
            hasConstantLowerBound=const_, hasConstantUpperBound=const_, getNumIterOperands=len(inits)), regions=[body(i, it)])
        o.acc["getBody"] = o.blocks[0]
        return o

    def yld(w, vals=()):
        return w.op("mlir::affine::AffineYieldOp", list(vals), [], acc=dict(getOperands=list(vals)))

    def two(w, i):
        t = w.int(32)
        x, y = w.arg("qa", t), w.arg("qb", t)
        return [binary(w, "mlir::arith::ShLIOp", x, y, ("r1", t)), binary(w, "mlir::arith::AndIOp", y, x, ("r2", t))]
    for lo, hi in ((0, 4), (3, 7), (0, 0), (1, 1000)):
        @case(f"loop from {lo} to {hi}")
        def _(w, g, lo=lo, hi=hi):
            return loop(w, lo, hi, 1, lambda i, it: two(w, i) + [yld(w)]), f"for qi in {lo}..{hi} {{ let r1 = qa << qb; let r2 = qb & qa; }}"
    @case("loop nest")
    def _(w, g):
        return (loop(w, 0, 4, 1, lambda i, it: [loop(w, 2, 5, 1, lambda j, it2: two(w, j) + [yld(w)], iv="qj"), yld(w)]),
                "for qi in 0..4 { for qj in 2..5 { let r1 = qa << qb; let r2 = qb & qa; } }")
    for st in (2, 3):
        @case(f"loop with step {st}")
        def _(w, g, st=st):
            return loop(w, 0, 8, st, lambda i, it: two(w, i) + [yld(w)]), [FAIL, f"for qi in (0..8).step_by({st}) {{ let r1 = qa << qb; let r2 = qb & qa; }}"]
    @case("loop whose bounds are not constants")
    def _(w, g):
        return loop(w, T("ub"), T("ub"), 1, lambda i, it: two(w, i) + [yld(w)], const_=False), FAIL
    for n in (1, 2, 3):
        @case(f"loop carrying {n} value(s)")
        def _(w, g, n=n):
            t = ct(w)
            ini = [made(w, f"n{i}", t) for i in range(n)]
            names = [f"t{i}" for i in range(n)]
            res = [(f"r{i}", t) for i in range(n)]

            def body(i, it):
                return [yld(w, list(reversed(it)))]
            o = loop(w, 1, 6, 1, body, inits=ini, iters=[(x, t) for x in names], res=res)

            def tup(l):
                return l[0] if len(l) == 1 else "(" + ", ".join(l) + ")"
            return o, (FAIL if kind != "hl" else f"let {tup([r for r, _ in res])} = (1..6).fold({tup([x.name for x in ini])}, |{tup(names)}, qi| {{ {tup(list(reversed(names)))} }});")

    # ---- memory --------------------------------------------------------------
    def alloc(w, name, shape, elt):
        m = w.memref(shape, elt)
        o = w.op("mlir::memref::AllocOp", [], [(name, m)], acc=dict(getType=m))
        o.acc["getMemref"] = o.acc["getResult"] = o.res[0]
        return o

    def load(w, m, ix, res, cls="mlir::memref::LoadOp"):
        return w.op(cls, [m] + ix, [(res, m.ty.elt)], acc=dict(getMemref=m, getMemRef=m, getIndices=ix, getMemRefType=m.ty))

    def store(w, m, ix, v):
        return w.op("mlir::memref::StoreOp", [v, m] + ix, [], acc=dict(getMemref=m, getMemRef=m, getIndices=ix, getMemRefType=m.ty, getValueToStore=v, getValue=v))

    def idx(w, n):
        return [w.arg(f"x{i}", w.idx()) for i in range(n)]
    shapes = ((5,), (2, 3), (4, 2, 3))
    mapk = "HashMap" if kind == "rs" else "BTreeMap"
    for sh in shapes:
        @case(f"alloc {sh}")
        def _(w, g, sh=sh):
            k = ", ".join(["usize"] * len(sh))
            return alloc(w, "qm", sh, ct(w)), [f"let qm : {mapk}<({k}), Ciphertext> = {mapk}::new();", f"let qm : {mapk}<{k}, Ciphertext> = {mapk}::new();" if len(sh) == 1 else f"let qm : {mapk}<({k}), Ciphertext> = {mapk}::new();"]

        @case(f"load from an allocation {sh}")
        def _(w, g, sh=sh):
            m = alloc(w, "qm", sh, ct(w)).res[0]
            ix = idx(w, len(sh))
            o = load(w, m, ix, "qr")
            user(w, o)
            return o, "let qr = qm.get((" + ", ".join(i.name + " as usize" for i in ix) + ")).unwrap();"

        @case(f"load from an argument {sh}")
        def _(w, g, sh=sh):
            m = w.arg("qm", w.memref(sh, ct(w)))
            ix = idx(w, len(sh))
            o = load(w, m, ix, "qr")
            user(w, o)
            return o, "let qr = qm[" + (lin(sh, [i.name for i in ix]) if kind == "bool" else "][".join(i.name for i in ix)) + "];"

        @case(f"store to an allocation {sh}")
        def _(w, g, sh=sh):
            m = alloc(w, "qm", sh, ct(w)).res[0]
            ix = idx(w, len(sh))
            k = ", ".join(i.name + " as usize" for i in ix)
            v = made(w, "qv", ct(w), by="BitAndOp" if kind != "bool" else "XorOp")
            return store(w, m, ix, v), [f"qm.insert(({k}), qv);"] + ([f"qm.insert({k}, qv);"] if len(sh) == 1 else [])

        @case(f"store an argument to an allocation {sh}")
        def _(w, g, sh=sh):
            m = alloc(w, "qm", sh, ct(w)).res[0]
            ix = idx(w, len(sh))
            k = ", ".join(i.name + " as usize" for i in ix)
            return store(w, m, ix, w.arg("qv", ct(w))), [f"qm.insert(({k}), qv);"] + ([f"qm.insert({k}, qv);"] if len(sh) == 1 else [])

        @case(f"extract from a tensor {sh}")
        def _(w, g, sh=sh):
            m = w.arg("qt", w.tensor(sh, ct(w)))
            ix = idx(w, len(sh))
            o = w.op("mlir::tensor::ExtractOp", [m] + ix, [("qr", ct(w))], acc=dict(getTensor=m, getIndices=ix))
            user(w, o)
            n = [i.name for i in ix]
            return o, "let qr = qt[" + (lin(sh, n) if kind == "bool" else "][".join(n)) + "];"

        @case(f"tensor from elements {sh}")
        def _(w, g, sh=sh):
            k = 1
            for d in sh:
                k *= d
            el = [w.arg(f"e{i}", ct(w)) for i in range(k)]
            t = w.tensor(sh, ct(w))
            o = w.op("mlir::tensor::FromElementsOp", el, [("qr", t)], acc=dict(getElements=el))
            ns = [e.name for e in el]
            if kind == "bool":
                return o, "let qr = vec![" + ", ".join(ns) + "];"
            if kind == "rs":
                return o, [f"let qr : {rty(w, t)} = {nest(sh, ns)};", f"let qr = {nest(sh, ns)};"]
            return o, [f"let qr = {nest(sh, ns)};", f"let qr : {rty(w, t)} = {nest(sh, ns)};"]
    @case("alloc of rank 0")
    def _(w, g):
        return alloc(w, "qm", (), ct(w)), FAIL
    @case("alloc of an inexpressible element type")
    def _(w, g):
        return alloc(w, "qm", (4,), w.int(256)), FAIL

    # ---- functions ---------------------------------------------------------------
    def func(w, name, args, res, body):
        o = w.op("mlir::func::FuncOp", [], [], regions=[body], opname="func", acc=dict(
            getName=name, getSymName=name, getArguments=args, getNumArguments=len(args), getNumResults=len(res), getResultTypes=res,
            getArgumentTypes=[a.ty for a in args], isDeclaration=False, isExternal=False, isPrivate=False))
        o.blocks[0].d["args"] = args
        o.acc["getBlocks"] = [o.blocks[0]]
        o.acc["getBody"] = o.blocks[0]
        return o

    def ret(w, vals):
        return w.op("mlir::func::ReturnOp", list(vals), [], acc=dict(getOperands=list(vals)))

    def sig(w, name, args, res):
        a = "".join(f"{x.name}: {rty(w, x.ty)}, " for x in args if kind != "hl" or x.ty.text != "!sk")
        r = [rty(w, t) for t in res]
        rs = "" if not res and kind == "rs" else " -> " + (r[0] if len(r) == 1 else "(" + ", ".join(r) + ")")
        return f"pub fn {name}({a}){rs} "
    if not lv:
        for n in (1, 2, 3):
            @case(f"function of {n} argument(s) returning them in reverse")
            def _(w, g, n=n):
                k = w.arg("sk", key(w, packed))
                args = [w.arg(f"a{i}", ct(w)) for i in range(n)]
                vals = list(reversed(args))
                names = [v.name for v in vals]
                tail = names[0] if n == 1 else "(" + ", ".join(names) + ")"
                return (func(w, "fq", [k] + args, [v.ty for v in vals], [ret(w, vals)]),
                        sig(w, "fq", [k] + args, [v.ty for v in vals]) + "{ " + tail + " }")

        @case("function of mixed types")
        def _(w, g):
            k = w.arg("sk", key(w, packed))
            a = w.arg("a0", w.tensor((2, 3), ct(w)))
            b = w.arg("b0", w.int(16, "u"))
            m = w.arg("c0", w.memref((4,), ct(w)))
            d = w.arg("d0", w.int(1))
            e = w.arg("e0", w.int(40))
            args = [a, b, k, m, d, e]
            return func(w, "fq", args, [m.ty, a.ty], [ret(w, [m, a])]), sig(w, "fq", args, [m.ty, a.ty]) + "{ (c0, a0) }"

        @case("function with an inexpressible argument type")
        def _(w, g):
            a = w.arg("a0", w.flt(64))
            b = w.arg("b0", ct(w))
            return func(w, "fq", [a, b], [b.ty], [ret(w, [b])]), FAIL

        for n in (1, 2):
            @case(f"function with an inexpressible result type ({n} results)")
            def _(w, g, n=n):
                b = w.arg("b0", ct(w))
                x = w.op("mlir::arith::ShLIOp", [], [("z", w.flt(64))]).res[0]
                return func(w, "fq", [b], [b.ty, x.ty][2 - n:], [ret(w, [b, x][2 - n:])]), FAIL

        @case("function body in order")
        def _(w, g):
            t = w.int(32)
            x, y = w.arg("qa", t), w.arg("qb", t)
            c = w.arg("qc", ct(w))
            b1 = binary(w, "mlir::arith::ShLIOp", x, y, ("r1", t))
            b2 = binary(w, "mlir::arith::AndIOp", y, b1.res[0], ("r2", t))
            return func(w, "fq", [x, y, c], [c.ty], [b1, b2, ret(w, [c])]), sig(w, "fq", [x, y, c], [c.ty]) + "{ let r1 = qa << qb; let r2 = qb & r1; qc }"

        @case("function whose last operation has no translation")
        def _(w, g):
            c = w.arg("qc", ct(w))
            return func(w, "fq", [c], [c.ty], [w.op("mlir::heir::cggi::CompletelyUnknownOp", [c], []), ret(w, [c])]), [FAIL, ""]

        @case("module of two functions")
        def _(w, g):
            def one(n, a):
                c = w.arg(a, ct(w))
                return func(w, n, [c], [c.ty], [ret(w, [c])]), sig(w, n, [c], [c.ty]) + "{ " + a + " }"
            (f1, t1), (f2, t2) = one("fa", "ca"), one("fb", "cb")
            m = w.op("mlir::ModuleOp", [], [], regions=[[f1, f2]], opname="module")
            m.acc["getBody"] = m.blocks[0]
            return m, ("ends", t1 + t2)

        for i, sh in enumerate(shapes[:2] if kind != "bool" else shapes):
            @case(f"return an allocation {sh}")
            def _(w, g, sh=sh):
                m = alloc(w, "qm", sh, ct(w)).res[0]
                if kind == "bool":
                    return ret(w, [m]), "qm.into_values().collect()"
                e = "qm.get((" + ", ".join(f"i{j}" for j in range(len(sh))) + ")).unwrap()"
                for j in reversed(range(len(sh))):
                    e = f"core::array::from_fn(|i{j}| {e})"
                return ret(w, [m]), e
        @case("return several values")
        def _(w, g):
            vs = [made(w, "v0", ct(w), by="BitAndOp" if kind != "bool" else "XorOp"), w.arg("v1", ct(w)), made(w, "v2", ct(w), by="CreateTrivialOp")]
            return ret(w, vs), "(v0, v1, v2)"
        @case("return tensor built from elements")
        def _(w, g):
            v = made(w, "v0", w.tensor((3,), ct(w)), by="mlir::tensor::FromElementsOp")
            return ret(w, [v]), "v0.into_iter().cloned().collect()" if kind == "bool" else "v0"

    # ---- operations on ciphertexts -------------------------------------------------
    if kind == "rs":
        for c, m in (("AddOp", "unchecked_add"), ("BitAndOp", "bitand")):
            if lv and c == "AddOp":
                continue
            @case(c)
            def _(w, g, c=c, m=m):
                o = sks(w, c, w.arg("sk", key(w)), w.arg("qa", ct(w, 3)), made(w, "qb", ct(w, 3)), ("qr", ct(w, 3)))
                return o, f"let qr = sk.{m}(qa, qb);"
        lut = lambda w: w.mk(ENC + "LookupTableType", traits=("PassByReference",), text="!lut")
        for tt in (0, 8, 150, 255, 1 << 40):
            @case(f"lookup table {tt}")
            def _(w, g, tt=tt):
                k = w.arg("sk", key(w))
                at = w.intattr(tt, w.int(64, "u"))
                o = w.op(ENC + "GenerateLookupTableOp", [k], [("qr", lut(w))], acc=dict(getServerKey=k, getTruthTable=at, getTruthTableAttr=at))
                e = f"sk.generate_lookup_table(|x| ({tt} >> x) & 1)"
                return o, f'luts.insert("qr", {e});' if lv else f"let qr = {e};"
        if not lv:
            @case("apply lookup table")
            def _(w, g):
                k = w.arg("sk", key(w)); x = w.arg("qx", ct(w, 3)); l = made(w, "ql", lut(w), by="GenerateLookupTableOp")
                return w.op(ENC + "ApplyLookupTableOp", [k, x, l], [("qr", ct(w, 3))], acc=dict(getServerKey=k, getInput=x, getLookupTable=l)), "let qr = sk.apply_lookup_table(qx, ql);"
            for n in (0, 1, 2, 7):
                @case(f"left shift by {n}")
                def _(w, g, n=n):
                    k = w.arg("sk", key(w)); x = made(w, "qx", ct(w, 3))
                    at = w.intattr(n, w.idx())
                    return w.op(ENC + "ScalarLeftShiftOp", [k, x], [("qr", ct(w, 3))], acc=dict(getServerKey=k, getCiphertext=x, getShiftAmount=at.apint, getShiftAmountAttr=at)), [f"let qr = sk.scalar_left_shift(qx, {n} as u8);", f"let qr = sk.scalar_left_shift(qx, {n});", f"let qr = sk.scalar_left_shift(qx, {n}u8);"]
        for used in (False, True):
            @case("trivial encryption" + (" used by a levelled operation" if used else ""))
            def _(w, g, used=used):
                k = w.arg("sk", key(w)); x = w.arg("qx", w.int(1))
                o = w.op(ENC + "CreateTrivialOp", [k, x], [("qr", ct(w, 3))], acc=dict(getServerKey=k, getValue=x, getValueAttr=None))
                if used:
                    u = sks(w, "AddOp", k, o.res[0], o.res[0], ("u", ct(w, 3)))
                return o, "let qr = sk.create_trivial(qx as u64);" + (f"temp_nodes.insert({tid(o.res[0])}, qr);" if used and lv else "")
        @case("trivial encryption of an attribute")
        def _(w, g):
            k = w.arg("sk", key(w))
            return w.op(ENC + "CreateTrivialOp", [k], [("qr", ct(w, 3))], acc=dict(getServerKey=k, getValue=None, getValueAttr=w.intattr(3, w.int(8)))), [FAIL, "let qr = sk.create_trivial(3 as u64);"]
    if kind in ("rs", "hl"):
        def glob(w, name, sh, elt, vals, sym="gsym", present=True, dense=True):
            m = w.memref(sh, elt)
            at = w.attr("mlir::DenseIntElementsAttr" if dense else "mlir::UnitAttr", items=[("t", "apint", elt.width, v & ((1 << elt.width) - 1)) for v in vals])
            gop = w.op("mlir::memref::GlobalOp", [], [], acc=dict(getConstantInitValue=at, getInitialValue=at, getSymName=sym, getName=sym))
            o = w.op("mlir::memref::GetGlobalOp", [], [(name, m)], acc=dict(getName=sym, getNameAttr=sym))
            o.acc["getResult"] = o.res[0]
            other = w.op("mlir::memref::GlobalOp", [], [], acc=dict(getConstantInitValue=None, getSymName="other"))
            mod = w.op("mlir::ModuleOp", [], [], regions=[[other, gop, o]], acc=dict(lookupSymbol=lambda w_, vals_, s: w_.lift(gop if present and vals_ and vals_[-1] == ("s", sym) else None)))
            return o
        for sh, elt, vals in (((4,), 8, (1, -2, 3, 127)), ((2, 3), 32, (1, 2, 3, 4, 5, 6)), ((1,), 16, (-300,)), ((2, 2, 2), 64, tuple(range(8)))):
            @case(f"global data {sh} of i{elt}")
            def _(w, g, sh=sh, elt=elt, vals=vals):
                e = w.int(elt)
                if kind == "hl":
                    lits = [str(v) for v in vals]
                    if any(v < 0 for v in vals):
                        lits = [str(v & ((1 << elt) - 1)) for v in vals]
                else:
                    lits = [str(v) for v in vals]
                return glob(w, "qg", sh, e, vals), f"static qg : [{rty(w, e)}; {len(vals)}] = [{', '.join(lits)}];"
        @case("global data that is missing")
        def _(w, g):
            return glob(w, "qg", (2,), w.int(8), (1, 2), present=False), FAIL
        @case("global data that is not a list of integers")
        def _(w, g):
            return glob(w, "qg", (2,), w.int(8), (1, 2), dense=False), FAIL
        for sh in shapes:
            @case(f"load from global data {sh}")
            def _(w, g, sh=sh):
                m = made(w, "qg", w.memref(sh, w.int(32)), by="mlir::memref::GetGlobalOp")
                ix = idx(w, len(sh))
                o = load(w, m, ix, "qr")
                user(w, o)
                n = [i.name for i in ix]
                return o, [f"let qr = qg[{sop(sh, n)}];", f"let qr = qg[{lin(sh, n)}];"]
    if kind == "rs":
        for sh, elt, path in (((4,), 8, "data/w.bin"), ((2, 3), 32, "x y.bin")):
            for tens in (True, False):
                @case(f"external data {sh} of i{elt}" + (" as tensor" if tens else ""))
                def _(w, g, sh=sh, elt=elt, path=path, tens=tens):
                    e = w.int(elt)
                    t = (w.tensor if tens else w.memref)(sh, e)
                    n = 1
                    for d in sh:
                        n *= d
                    o = w.op("mlir::heir::preprocessing::LoadResourceOp", [], [("qr", t)], acc=dict(getPath=path))
                    o.acc["getResult"] = o.res[0]
                    r = rty(w, e)
                    return o, f'static DATA_qr: OnceLock<Vec<{r}>> = OnceLock::new(); let qr = DATA_qr.get_or_init(|| load_resource::<{r}>("{path}", {n}));'
        @case("load from external data")
        def _(w, g):
            m = made(w, "qg", w.memref((3, 4), w.int(32)), by="mlir::heir::preprocessing::LoadResourceOp")
            ix = idx(w, 2)
            o = load(w, m, ix, "qr"); user(w, o)
            return o, ["let qr = qg[0 + x0 * 4 + x1 * 1];", "let qr = qg[x1 + 4 * (x0)];"]
        @case("external data of an inexpressible type")
        def _(w, g):
            return w.op("mlir::heir::preprocessing::LoadResourceOp", [], [("qr", w.tensor((3,), w.flt(32)))], acc=dict(getPath="p")), FAIL

    if kind == "bool":
        gates = (("AndOp", "and"), ("NandOp", "nand"), ("OrOp", "or"), ("NorOp", "nor"), ("XorOp", "xor"), ("XnorOp", "xnor"))
        for c, m in gates:
            for org in ("arg", "op", "extract", "load"):
                @case(f"{c} on scalars from {org}")
                def _(w, g, c=c, m=m, org=org):
                    def v(n):
                        return w.arg(n, ct(w)) if org == "arg" else made(w, n, ct(w), by={"op": "AndOp", "extract": "mlir::tensor::ExtractOp", "load": "mlir::memref::LoadOp"}[org])
                    o = sks(w, c, w.arg("sk", key(w, packed)), v("qa"), v("qb"), ("qr", ct(w)))
                    if packed:
                        return o, f"let qr = sk.packed_gates(vec![Gate::{m.upper()}], vec![qa], vec![qb])[0];"
                    return o, f"let qr = sk.{m}(qa, qb);"
            for sh in ((1,), (4,), (2, 2)):
                @case(f"{c} on tensors {sh}")
                def _(w, g, c=c, m=m, sh=sh):
                    t = w.tensor(sh, ct(w))
                    n = 1
                    for d in sh:
                        n *= d
                    o = sks(w, c, w.arg("sk", key(w, packed)), made(w, "qa", t, by="mlir::tensor::FromElementsOp"), made(w, "qb", t, by="PackedOp"), ("qr", t))
                    return o, (f"let qr = sk.packed_gates(vec![{', '.join(['Gate::' + m.upper()] * n)}], qa, qb);" if packed else FAIL)
                @case(f"{c} on tensor arguments {sh}")
                def _(w, g, c=c, m=m, sh=sh):
                    t = w.tensor(sh, ct(w))
                    n = 1
                    for d in sh:
                        n *= d
                    o = sks(w, c, w.arg("sk", key(w, packed)), w.arg("qa", t), w.arg("qb", t), ("qr", t))
                    body = f"let qr = sk.packed_gates(vec![{', '.join(['Gate::' + m.upper()] * n)}], qa_ref, qb_ref);"
                    pre = "".join(f"let {x}_ref = {x}; let {x}_ref: Vec<Ciphertext> = {x}.iter().collect();" for x in ("qa", "qb"))
                    pre2 = "".join(f"let {x}_ref: Vec<Ciphertext> = {x}.iter().collect();" for x in ("qa", "qb"))
                    return o, ([pre + body, pre2 + body] if packed else FAIL)
        @case("NotOp")
        def _(w, g):
            k = w.arg("sk", key(w, packed)); x = made(w, "qx", ct(w))
            o = w.op(ENB + "NotOp", [k, x], [("qr", ct(w))], acc=dict(getServerKey=k, getInput=x))
            return o, "let qr = sk.packed_not(vec![qx])[0];" if packed else "let qr = sk.not(qx);"
        for v in (8, 1):
            @case(f"trivial encryption of i{v}")
            def _(w, g, v=v):
                k = w.arg("sk", key(w, packed)); x = made(w, "qx", w.int(v), by="mlir::arith::ConstantOp")
                return w.op(ENB + "CreateTrivialOp", [k, x], [("qr", ct(w))], acc=dict(getServerKey=k, getValue=x)), ["let qr = sk.trivial_encrypt(qx as bool);"] + (["let qr = sk.trivial_encrypt(qx);"] if v == 1 else [])
        names = ("AND", "NAND", "OR", "NOR", "XOR", "XNOR")
        for gs in (("AND", "XOR"), ("XNOR", "OR", "NAND", "NOR")):
            @case(f"packed gates {gs}")
            def _(w, g, gs=gs):
                t = w.tensor((len(gs),), ct(w))
                k = w.arg("sk", key(w, True)); a = made(w, "qa", t, by="mlir::tensor::FromElementsOp"); b = made(w, "qb", t, by="PackedOp")
                items = [w.attr(ENB + "TfheRustBoolGateEnumAttr", acc=dict(getValue=("e", "TfheRustBoolGateEnum", x))) for x in gs]
                ga = w.attr(ENB + "TfheRustBoolGatesAttr", acc=dict(getGates=items), items=items)
                return w.op(ENB + "PackedOp", [k, a, b], [("qr", t)], acc=dict(getServerKey=k, getLhs=a, getRhs=b, getGates=ga)), f"let qr = sk.packed_gates(vec![{', '.join('Gate::' + x for x in gs)}], qa, qb);"

    if kind == "hl":
        for c, sym in (("AddOp", "+"), ("SubOp", "-"), ("MulOp", "*"), ("BitAndOp", "&"), ("BitOrOp", "|"), ("BitXorOp", "^")):
            for oa, ob in (("arg", "arg"), ("op", "arg"), ("arg", "op"), ("op", "op")):
                @case(f"{c} on {oa} and {ob}")
                def _(w, g, c=c, sym=sym, oa=oa, ob=ob):
                    v = lambda n, o: w.arg(n, ct(w)) if o == "arg" else made(w, n, ct(w))
                    return sks(w, c, w.arg("sk", key(w)), v("qa", oa), v("qb", ob), ("qr", ct(w))), f"let qr = qa {sym} qb;"
            @case(f"{c} with a plain constant")
            def _(w, g, c=c, sym=sym):
                k = const(w, "kc", 200, w.int(8))
                return sks(w, c, w.arg("sk", key(w)), made(w, "qa", ct(w)), k.res[0], ("qr", ct(w))), [f"let qr = qa {sym} 200u8;", f"let qr = qa {sym} kc;"]
            @case(f"{c} on tensors")
            def _(w, g, c=c, sym=sym):
                t = w.tensor((6,), ct(w))
                return (sks(w, c, w.arg("sk", key(w)), w.arg("qa", t), made(w, "qb", t), ("qr", t)),
                        ("in", f"let qr : [{{}}; 6] = core::array::from_fn(|i| {{ qa[i] {sym} qb[i] }});"))
            for s1, s2 in (((6,), (5,)), ((2, 3), (3, 2)), ((2, 3), (2, 3))):
                @case(f"{c} on tensors {s1} and {s2}")
                def _(w, g, c=c, sym=sym, s1=s1, s2=s2):
                    t1, t2 = w.tensor(s1, ct(w)), w.tensor(s2, ct(w))
                    e = f"core::array::from_fn(|i| {{ core::array::from_fn(|j| {{ qa[i][j] {sym} qb[i][j] }}) }})"
                    return sks(w, c, w.arg("sk", key(w)), w.arg("qa", t1), made(w, "qb", t2), ("qr", t1)), [FAIL] + ([f"let qr : {rty(w, t1)} = {e};"] if s1 == s2 else [])
        for n in (0, 3, 7):
            @case(f"right shift by {n}")
            def _(w, g, n=n):
                k = w.arg("sk", key(w)); x = made(w, "qx", ct(w)); at = w.intattr(n, w.idx())
                return w.op(ENC + "ScalarRightShiftOp", [k, x], [("qr", ct(w))], acc=dict(getServerKey=k, getCiphertext=x, getShiftAmount=at.apint)), [f"let qr = qx >> {n}u8;", f"let qr = qx >> {n};"]
        for src, dst in ((8, 16), (16, 8), (8, 32), (32, 64)):
            @case(f"cast from {src} to {dst} bits")
            def _(w, g, src=src, dst=dst):
                k = w.arg("sk", key(w)); x = w.arg("qx", ct(w, src))
                o = w.op(ENC + "CastOp", [k, x], [("qr", ct(w, dst))], acc=dict(getServerKey=k, getCiphertext=x))
                o.acc["getOutput"] = o.acc["getResult"] = o.res[0]
                return o, f"let qr = FheUint{dst}::cast_from(qx);"
        for bits, v in ((8, 5), (8, -1), (16, 1000), (32, 0)):
            @case(f"trivial encryption of the attribute {v} as {bits} bits")
            def _(w, g, bits=bits, v=v):
                k = w.arg("sk", key(w)); at = w.intattr(v, w.int(bits))
                o = w.op(ENC + "CreateTrivialOp", [k], [("qr", ct(w, bits))], acc=dict(getServerKey=k, getValue=None, getValueAttr=at))
                o.acc["getOutput"] = o.acc["getResult"] = o.res[0]
                return o, f"let qr = FheUint{bits}::try_encrypt_trivial({v & ((1 << bits) - 1)}u{bits}).unwrap();"
        for sh in shapes:
            @case(f"trivial encryption of array attributes {sh}")
            def _(w, g, sh=sh):
                k = w.arg("sk", key(w)); n = 1
                for d in sh:
                    n *= d
                vals = [(i * 7 + 3) % 100 for i in range(n)]
                at = w.attr("mlir::ArrayAttr", items=[w.intattr(v, w.int(8)) for v in vals])
                t = w.tensor(sh, ct(w))
                o = w.op(ENC + "CreateTrivialOp", [k], [("qr", t)], acc=dict(getServerKey=k, getValue=None, getValueAttr=at))
                o.acc["getOutput"] = o.acc["getResult"] = o.res[0]
                return o, "let qr = " + nest(sh, [f"FheUint8::try_encrypt_trivial({v}u8).unwrap()" for v in vals]) + ";"
        @case("trivial encryption of an array with an element that is no integer")
        def _(w, g):
            k = w.arg("sk", key(w))
            at = w.attr("mlir::ArrayAttr", items=[w.intattr(1, w.int(8)), w.attr("mlir::UnitAttr")])
            o = w.op(ENC + "CreateTrivialOp", [k], [("qr", w.tensor((2,), ct(w)))], acc=dict(getServerKey=k, getValue=None, getValueAttr=at))
            o.acc["getOutput"] = o.acc["getResult"] = o.res[0]
            return o, FAIL
        for bits in (8, 32):
            @case(f"trivial encryption of a value as {bits} bits")
            def _(w, g, bits=bits):
                k = w.arg("sk", key(w)); x = w.arg("qx", w.int(bits))
                o = w.op(ENC + "CreateTrivialOp", [k, x], [("qr", ct(w, bits))], acc=dict(getServerKey=k, getValue=x, getValueAttr=None))
                o.acc["getOutput"] = o.acc["getResult"] = o.res[0]
                return o, [f"let qr = FheUint{bits}::try_encrypt_trivial(qx).unwrap();", f"let qr = FheUint{bits}::try_encrypt_trivial(qx as u{bits}).unwrap();"]
        for names_ in (("a",), ("a", "b"), ("a", "b", "a"), ("sk", "a", "b"), ("a", "b", "sk"), ("a", "a"), ("sk",), ("a", "sk", "b")):
            for nres in (1, 2):
                @case(f"call with {names_}, {nres} results")
                def _(w, g, names_=names_, nres=nres):
                    vs = {n: w.arg(n, key(w) if n == "sk" else ct(w)) for n in set(names_)}
                    args = [vs[n] for n in names_]
                    o = w.op("mlir::func::CallOp", args, [(f"r{i}", ct(w)) for i in range(nres)], acc=dict(getCallee="gq", getOperands=args, getArgOperands=args))
                    lhs = "r0" if nres == 1 else "(r0, r1)"
                    return o, f"let {lhs} = gq({', '.join(n for n in names_ if n != 'sk')});"
        @case("dealloc")
        def _(w, g):
            m = alloc(w, "qm", (3,), ct(w)).res[0]
            return w.op("mlir::memref::DeallocOp", [m], [], acc=dict(getMemref=m)), ["qm.clear();", ""]
        def afm(w, vals):
            return w.attr("mlir::AffineMap", expand=lambda ops, w_: vals)
        for sh, ks in (((5,), (3,)), ((2, 3), (1, 2)), ((4, 2, 3), (3, 0, 1))):
            for argm in (True, False):
                @case(f"affine load {ks} from " + ("an argument" if argm else "an allocation"))
                def _(w, g, sh=sh, ks=ks, argm=argm):
                    m = w.arg("qm", w.memref(sh, ct(w))) if argm else alloc(w, "qm", sh, ct(w)).res[0]
                    cs = [const(w, f"k{i}", k, w.idx()).res[0] for i, k in enumerate(ks)]
                    o = w.op("mlir::affine::AffineLoadOp", [m], [("qr", ct(w))], acc=dict(getMemref=m, getMemRef=m, getIndices=[], getMap=afm(w, cs), getMapOperands=[], getMemRefType=m.ty))
                    return o, "let qr = qm[" + "][".join(map(str, ks)) + "];" if argm else ["let qr = qm.get((" + ", ".join(map(str, ks)) + ")).unwrap();"]
            @case(f"affine store {ks}")
            def _(w, g, sh=sh, ks=ks):
                m = alloc(w, "qm", sh, ct(w)).res[0]
                cs = [const(w, f"k{i}", k, w.idx()).res[0] for i, k in enumerate(ks)]
                v = made(w, "qv", ct(w))
                o = w.op("mlir::affine::AffineStoreOp", [v, m], [], acc=dict(getMemref=m, getMemRef=m, getIndices=[], getMap=afm(w, cs), getMapOperands=[], getValueToStore=v, getValue=v, getMemRefType=m.ty))
                return o, "qm.insert((" + ", ".join(f"{k} as usize" for k in ks) + "), qv);"
        for st in (False, True):
            @case("affine access at an index that is not constant" + (" (store)" if st else ""))
            def _(w, g, st=st):
                m = w.arg("qm", w.memref((2, 3), ct(w)))
                cs = [const(w, "k0", 1, w.idx()).res[0], w.arg("iv", w.idx())]
                v = made(w, "qv", ct(w))
                a = dict(getMemref=m, getMemRef=m, getIndices=[], getMap=afm(w, cs), getMapOperands=[], getValueToStore=v, getValue=v, getMemRefType=m.ty)
                return (w.op("mlir::affine::AffineStoreOp", [v, m], [], acc=a) if st else w.op("mlir::affine::AffineLoadOp", [m], [("qr", ct(w))], acc=a)), FAIL
        for sh in shapes:
            @case(f"insert into a tensor {sh}")
            def _(w, g, sh=sh):
                t = w.arg("qt", w.tensor(sh, ct(w))); v = made(w, "qv", ct(w)); ix = idx(w, len(sh))
                o = w.op("mlir::tensor::InsertOp", [v, t] + ix, [("qr", t.ty)], acc=dict(getDest=t, getScalar=v, getIndices=ix))
                return o, "qt[" + "][".join(i.name for i in ix) + "] = qv; let qr = qt;"
            for e in ("ct", 1, 8, 32):
                @case(f"empty tensor {sh} of {e}")
                def _(w, g, sh=sh, e=e):
                    et = ct(w, 32) if e == "ct" else w.int(e)
                    t = w.tensor(sh, et)
                    o = w.op("mlir::tensor::EmptyOp", [], [("qr", t)])
                    if e == "ct":
                        x = rty(w, et) + "::try_encrypt_trivial(0u32).unwrap()"
                        for _ in sh:
                            x = f"std::array::from_fn(|_| {x})"
                        return o, ("in", f"let qr : {{T}} = {x};")
                    x = "false" if e == 1 else f"0u{width(e)}"
                    for d in reversed(sh):
                        x = f"[{x}; {d}]"
                    return o, ("in", f"let qr : {{T}} = {x};")
        @case("empty tensor of floats")
        def _(w, g):
            return w.op("mlir::tensor::EmptyOp", [], [("qr", w.tensor((3,), w.flt(32)))]), FAIL
    if lv:
        out += levelled(func, ret)
    return out


def idxcast(w, x, name, t):
    o = w.op("mlir::arith::IndexCastOp", [x], [(name, t)], acc=dict(getIn=x))
    o.acc["getOut"] = o.res[0]
    return o


def user(w, o, cls="mlir::func::ReturnOp"):
    return w.op(cls, list(o.res), [])


KIND3 = ("AddOp", "ApplyLookupTableOp", "ScalarLeftShiftOp")


def levelled(func, ret):
    """Functions with levelled operations: the emitted program, executed symbolically, must return what the function returns."""
    out = []

    def program(label, plan, rets=None, lutarg=False):
        """plan: list of (operation, operand numbers); values 0 and 1 are the arguments, then the results in order.
        A lookup table is generated at the start when one is needed."""
        def build(w, g, plan=plan, rets=rets):
            k = w.arg("sk", key(w))
            c = ct(w, 3)
            vals = [w.arg("qa", c), w.arg("qb", c)]
            sem = [("arg", "qa"), ("arg", "qb")]
            body = []
            lut = None
            luts, extra = {}, {}
            if lutarg:
                luts[0] = w.arg("qlut", w.mk(ENC + "LookupTableType", traits=("PassByReference",), text="!lut"))
            for j, (op, ix) in enumerate(plan):
                xs = [vals[i] for i in ix]
                ys = tuple(sem[i] for i in ix)
                nm = f"r{j}"
                if op == "ApplyLookupTableOp":
                    tt = 0 if lutarg and j % 2 == 0 else (150, 232, 105)[j % 3]
                    if tt not in luts:
                        at = w.intattr(tt, w.int(8, "u"))
                        luts[tt] = w.op(ENC + "GenerateLookupTableOp", [k], [(f"l{tt}", w.mk(ENC + "LookupTableType", traits=("PassByReference",), text="!lut"))],
                                        acc=dict(getServerKey=k, getTruthTable=at, getTruthTableAttr=at))
                        body.append(luts[tt])
                    l = luts[tt].res[0] if tt else luts[0]
                    o = w.op(ENC + op, [k, xs[0], l], [(nm, c)], acc=dict(getServerKey=k, getInput=xs[0], getLookupTable=l))
                    v = ("lut", tt or "qlut", ys[0])
                elif op == "ScalarLeftShiftOp":
                    at = w.intattr(1 + j, w.idx())
                    o = w.op(ENC + op, [k, xs[0]], [(nm, c)], acc=dict(getServerKey=k, getCiphertext=xs[0], getShiftAmount=at.apint, getShiftAmountAttr=at))
                    v = ("lsh", 1 + j, ys[0])
                elif op == "CreateTrivialOp":
                    x = const(w, f"k{j}", j, w.int(8))
                    body.append(x)
                    o = w.op(ENC + op, [k, x.res[0]], [(nm, c)], acc=dict(getServerKey=k, getValue=x.res[0], getValueAttr=None))
                    v = ("trivial", j)
                elif op in ("LoadOp", "ExtractOp"):
                    x = const(w, f"k{j}", j, w.idx())
                    body.append(x)
                    src = extra.setdefault(op, w.arg("q" + op, (w.memref if op == "LoadOp" else w.tensor)((8,), c)))
                    if op == "LoadOp":
                        o = w.op("mlir::memref::LoadOp", [src, x.res[0]], [(nm, c)], acc=dict(getMemref=src, getMemRef=src, getIndices=[x.res[0]], getMemRefType=src.ty))
                    else:
                        o = w.op("mlir::tensor::ExtractOp", [src, x.res[0]], [(nm, c)], acc=dict(getTensor=src, getIndices=[x.res[0]]))
                    v = ("at", ("arg", "q" + op), j)
                elif op == "FromElementsOp":
                    o = w.op("mlir::tensor::FromElementsOp", xs, [(nm, w.tensor((len(xs),), c))], acc=dict(getElements=xs))
                    v = ("elements",) + ys
                else:
                    o = sks(w, op, k, xs[0], xs[1], (nm, c))
                    v = ({"AddOp": "add", "BitAndOp": "bitand"}[op],) + ys
                body.append(o)
                vals.append(o.res[0])
                sem.append(v)
            r = rets if rets is not None else [len(vals) - 1]
            body.append(ret(w, [vals[i] for i in r]))
            f = func(w, "fq", [k, vals[0], vals[1]] + ([luts[0]] if lutarg else []) + list(extra.values()), [vals[i].ty for i in r], body)
            want = [sem[i] for i in r]
            return f, lambda w, txt: simulate(w, txt, want)
        out.append((f"levelled function: {label}", build))

    def names(plan):
        return " ".join(op[:3].lower() + "(" + ",".join("ab"[i] if i < 2 else str(i - 2) for i in ix) + ")" for op, ix in plan)
    n = 0
    for x in ((0, 1), (1, 0), (0, 0), (0, 2), (2, 1), (2, 2)):
        for y in ((0, 1), (3, 2), (2, 3), (0, 3), (3, 3), (2, 0)):
            for z, seq in enumerate((("AddOp", "AddOp", "AddOp"), ("ScalarLeftShiftOp", "AddOp", "ApplyLookupTableOp"), ("ApplyLookupTableOp", "ScalarLeftShiftOp", "AddOp"))):
                n += 1
                if z and n % 4:
                    continue
                plan = []
                for op, ix in zip(seq, ((0, 1), x, y)):
                    plan.append((op, ix if op == "AddOp" else ix[:1]))
                program(names(plan), plan, [4, 3, 2] if n % 3 == 0 else None)
    for label, plan, r in (
            ("another operation in between", [("AddOp", (0, 1)), ("CreateTrivialOp", ()), ("AddOp", (2, 3)), ("AddOp", (4, 2))], [5, 2]),
            ("another operation first", [("CreateTrivialOp", ()), ("AddOp", (2, 0)), ("ScalarLeftShiftOp", (3,)), ("AddOp", (4, 1))], None),
            ("another operation last", [("AddOp", (0, 1)), ("ScalarLeftShiftOp", (2,)), ("CreateTrivialOp", ())], [4, 3]),
            ("the result in another operation", [("AddOp", (0, 1)), ("BitAndOp", (2, 0)), ("AddOp", (3, 2))], None),
            ("the result in another operation only", [("AddOp", (0, 1)), ("BitAndOp", (2, 0))], None),
            ("the results in a tensor", [("AddOp", (0, 1)), ("ScalarLeftShiftOp", (2,)), ("FromElementsOp", (3, 0, 2))], None),
            ("three batches", [("AddOp", (0, 1)), ("BitAndOp", (0, 1)), ("AddOp", (3, 1)), ("BitAndOp", (1, 0)), ("AddOp", (5, 4))], [6, 4, 2]),
            ("a trivial encryption used by both kinds", [("CreateTrivialOp", ()), ("AddOp", (2, 0)), ("BitAndOp", (2, 3)), ("BitAndOp", (4, 2))], [5, 2]),
            ("a loaded value used by both kinds", [("LoadOp", ()), ("AddOp", (2, 0)), ("BitAndOp", (2, 3)), ("ScalarLeftShiftOp", (2,))], [5, 4]),
            ("loaded values used by one kind each", [("LoadOp", ()), ("LoadOp", ()), ("AddOp", (2, 0)), ("BitAndOp", (3, 0))], [5, 4]),
            ("an extracted value used by both kinds", [("ExtractOp", ()), ("AddOp", (2, 0)), ("BitAndOp", (2, 3)), ("ScalarLeftShiftOp", (2,))], [5, 4]),
            ("extracted values used by one kind each", [("ExtractOp", ()), ("ExtractOp", ()), ("AddOp", (2, 0)), ("BitAndOp", (3, 0))], [5, 4]),
            ("values loaded between levels", [("AddOp", (0, 1)), ("LoadOp", ()), ("AddOp", (3, 2)), ("ExtractOp", ()), ("AddOp", (5, 4))], None),
            ("arguments only", [], [1, 0])):
        program(label, plan, r)
    program("a lookup table argument", [("ApplyLookupTableOp", (0,)), ("ApplyLookupTableOp", (2,)), ("ApplyLookupTableOp", (3,)), ("AddOp", (4, 3))], None, True)
    return out


def simulate(w, txt, want):
    """None if executing the emitted statements gives the wanted values, a description if not; raises Puzzle if not understood."""
    m = re.search(r"pub fn fq\([^{]*\{", txt)
    if not m:
        raise Puzzle("function header")
    body = txt[m.end():].strip()
    if not body.endswith("}"):
        raise Puzzle("function end")
    body = body[:-1]
    helpers, body = runlevel(body)
    temp, luts, var, static = {}, {}, {"qa": ("arg", "qa"), "qb": ("arg", "qb"), "sk": ("key",), "qlut": ("table", "qlut"), "qLoadOp": ("arg", "qLoadOp"), "qExtractOp": ("arg", "qExtractOp")}, {}

    def val(e):
        e = e.strip()
        e = re.sub(r"^&(mut )?", "", e)
        e = re.sub(r"(\.clone\(\))+$", "", e)
        m = re.fullmatch(r"temp_nodes\[&(\d+)\]", e)
        if m:
            if int(m[1]) not in temp:
                raise Wrong(f"`{e}` is read before anything was stored there")
            return temp[int(m[1])]
        m = re.fullmatch(r"sk\.(\w+)\((.*)\)", e)
        if m:
            args = m[2].split(",")
            if m[1] == "generate_lookup_table":
                m = re.search(r"\((\d+) >> x\) & 1", e)
                if not m:
                    raise Puzzle(e)
                return ("table", int(m[1]))
            if m[1] == "create_trivial":
                return ("trivial", val(args[0].split(" as ")[0]))
            return ({"unchecked_add": "add"}.get(m[1], m[1]),) + tuple(val(a) for a in args)
        if re.fullmatch(r"-?\d+(usize)?", e):
            return int(e.replace("usize", ""))
        m = re.fullmatch(r"(\w+)\[(\w+)\]", e)
        if m:
            return ("at", val(m[1]), val(m[2]))
        if e.startswith("[") and e.endswith("]"):
            return ("elements",) + tuple(val(x) for x in e[1:-1].split(","))
        if re.fullmatch(r"\w+", e):
            if e not in var:
                raise Wrong(f"`{e}` is used but never defined")
            return var[e]
        raise Puzzle(e)
    try:
        parts = [x.strip() for x in re.split(r";(?![^\[\]]*\])", body)]
        for st in parts[:-1]:
            m = re.fullmatch(r"let (?:mut )?(\w+)\s*(?::\s*(.*?))?\s*=\s*(.*)", st, re.S)
            if m and "HashMap::new" in m[3]:
                continue
            if m:
                var[m[1]] = val(m[3]); continue
            m = re.fullmatch(r"temp_nodes\.insert\((\d+), (.*)\)", st, re.S)
            if m:
                temp[int(m[1])] = val(m[2]); continue
            m = re.fullmatch(r'luts\.insert\("(\w+)", (.*)\)', st, re.S)
            if m:
                luts[m[1]] = val(m[2]); continue
            m = re.fullmatch(r"static (\w+) : \[\(\(OpType, usize\), &\[GateInput\]\); (\d+)\] = \[(.*)\]", st, re.S)
            if m:
                ents = re.findall(r"\(\(([^,]*), (\d+)\), &\[([^\]]*)\]\), ?", m[3])
                if "".join(f"(({a}, {b}), &[{c}]), " for a, b, c in ents).strip() != m[3].strip():
                    raise Puzzle(st[:80])
                if len(ents) != int(m[2]):
                    raise Wrong(f"array {m[1]} of length {m[2]} has {len(ents)} elements")
                if m[1] in static:
                    raise Wrong(f"{m[1]} is defined twice")
                static[m[1]] = ents; continue
            m = re.fullmatch(r"run_level\((\w+), &mut temp_nodes, &mut luts, &(\w+)\)", st)
            if m:
                if m[1] != "sk":
                    raise Wrong(f"level run with key `{m[1]}`")
                if m[2] not in static:
                    raise Wrong(f"{m[2]} is run but not defined")
                new = {}
                for op, i, ins in static[m[2]]:
                    a = []
                    for x in [x.strip() for x in ins.split(",") if x.strip()]:
                        z = re.fullmatch(r"Tv\((\d+)\)", x)
                        if not z:
                            raise Puzzle(x)
                        if int(z[1]) not in temp:
                            raise Wrong(f"{m[2]} reads node {z[1]} before it is computed")
                        a.append(temp[int(z[1])])
                    z = re.fullmatch(r'LUT3\("(\w+)"\)|LSH\((\d+)\)|(ADD)', op)
                    if not z:
                        raise Wrong(f"unknown gate `{op}`") if not op else Puzzle(op)
                    if z[1]:
                        if z[1] not in luts:
                            raise Wrong(f"lookup table `{z[1]}` is not in luts")
                        new[int(i)] = ("lut", luts[z[1]][1], a[helpers["LUT3"][0]])
                    elif z[2]:
                        new[int(i)] = ("lsh", int(z[2]), a[helpers["LSH"][0]])
                    else:
                        if len(a) != 2:
                            raise Wrong(f"ADD of {len(a)} inputs")
                        new[int(i)] = ("add",) + tuple(a[k] for k in helpers["ADD"])
                temp.update(new); continue
            raise Puzzle(st[:80])
        tail = parts[-1]
        m = re.fullmatch(r"\((.*)\)", tail, re.S)
        got = [val(x) for x in (m[1].split(",") if m else [tail])]
    except Wrong as e:
        return str(e)
    if got != want:
        return f"the emitted program returns {show(got)}, the function returns {show(want)}"
    return None


def show(v):
    if isinstance(v, list):
        return ", ".join(show(x) for x in v)
    if isinstance(v, tuple):
        return v[1] if v[0] == "arg" else v[0] + "(" + ", ".join(show(x) for x in v[1:]) + ")"
    return str(v)


class Puzzle(Exception):
    pass


class Wrong(Exception):
    pass


METHODS = {"LUT3": "apply_lookup_table", "ADD": "unchecked_add", "LSH": "scalar_left_shift"}


def runlevel(body):
    """Checks the fixed part that runs a level; returns the operand order of each gate and the rest of the body."""
    m = re.search(r"let (\w+) = \|.*?into_par_iter.*?\n\};\n", body, re.S)
    st = re.search(r"let lut3 = ", body)
    if not m or not st or m[0].count("let run_level") != 1:
        raise Puzzle("run_level")
    pre = body[st.start():m.end()]
    rest = body[:st.start()] + body[m.end():]
    clos = {a: (b, c, d) for a, b, c, d in re.findall(r"let (\w+) = \|([^|]*)\|\s*->\s*Ciphertext\s*\{\s*(?:return )?server_key\.(\w+)\(([^;]*)\);?\s*\};", pre)}
    disp = {a: (b, c) for a, b, c in re.findall(r"(LUT3|ADD|LSH)(?:\(\w+\))?\s*=>\s*(\w+)\(([^\n]*)\),?\n", pre)}
    res = {}
    for gate, meth in METHODS.items():
        if gate not in disp or disp[gate][0] not in clos:
            raise Puzzle("run_level: " + gate)
        ps, mt, args = clos[disp[gate][0]]
        ix = [int(x) for x in re.findall(r"args\[(\d+)\]", args)]
        if mt != meth:
            raise Wrong(f"gate {gate} calls {mt}")
        if not disp[gate][1].strip().startswith("args"):
            raise Puzzle("run_level: " + gate)
        if gate != "ADD" and len(ix) == 1 or gate == "ADD" and len(ix) == 2:
            res[gate] = ix
        else:
            raise Puzzle("run_level: " + gate)
    if not re.search(r"Tv\((\w+)\) => &temp_nodes\[&\1\]", pre) or not re.search(r"let \((\w+), (\w+)\) = k;.*\(\(?\2\)?, op\(&task_args\)\)", pre, re.S) \
            or not re.search(r"for_each\(\|\((\w+), (\w+)\)\| \{\s*temp_nodes\.insert\(\*\1, \2\);", pre):
        raise Puzzle("run_level: data flow")
    return res, rest


def matches(w, exp, status, out):
    """None if the emission is as expected, else a description."""
    alts = exp if isinstance(exp, list) else [exp]
    if status == ("fail",):
        return None if FAIL in alts else "the translation fails"
    got = norm(out)
    txt = []
    for a in alts:
        if a == FAIL:
            continue
        if isinstance(a, tuple) and a[0] == "ends":
            t = norm(a[1])
            if got[-len(t):] == t:
                return None
            txt.append(a[1])
        elif isinstance(a, tuple) and a[0] == "in":
            pat = [re.escape(x) for x in norm(a[1].replace("{T}", "QTYPEQ").replace("{}", "QTYPEQ"))]
            rx = " ".join(pat).replace("QTYPEQ", "(?:[\\w:<>;\\[\\] ]+)")
            if re.fullmatch(rx, " ".join(got)):
                return None
            txt.append(a[1])
        elif callable(a):
            return a(w, out)
        elif norm(a) == got:
            return None
        else:
            txt.append(a)
    return "emits `%s`%s" % (" ".join(out.split())[:160], ", expected `%s`" % " ".join(txt[0].split())[:160] if txt else ", expected the translation to fail")


def gens(P):
    return [Gen(P, "rs"), Gen(P, "rs", {"useLevels": 1}), Gen(P, "bool"), Gen(P, "bool", {"packedAPI": 1}), Gen(P, "hl")]


def analyse(c, P, gs=None):
    """Run every description through every generator."""
    for g in gs or gens(P):
        if g.f is None:
            c.undecided("generator", f"{g.cls}::translate not found"); continue
        c.count("generators", 1)
        for lab, b in cases(g.kind, g.cfg):
            w, exp, st, out, unk = g.emit(b)
            c.count("operation descriptions", 1)
            if unk or st is None:
                c.undecided(f"{g.label}: {lab}", "; ".join(unk)[:200] or "not understood"); continue
            try:
                m = matches(w, exp, st, out)
            except Wrong as e:
                m = str(e)
            except Puzzle as e:
                c.undecided(f"{g.label}: {lab}", f"emitted text not understood: {e}"[:200]); continue
            c.count("emissions compared", 1)
            where = g.f.rel
            if m is None:
                c.ok(f"{g.label}: {lab}: `{' '.join(out.split())[:100]}`" if st != ("fail",) else f"{g.label}: {lab}: rejected")
                bad = [(n, what) for n, what in w.failures if what != "null"]
                if bad:
                    n, what = bad[0]
                    c.bad(f"{g.label}:{lab}:{what}", f"{g.f.rel}:{n.line}", f"{lab}: {what}")
            else:
                c.bad(f"{g.label}:{lab}:" + (" ".join(norm(out))[:80] if st != ("fail",) else "rejected"), where, f"{g.label}, {lab}: {m}")


def check(c):
    P = prog.load()
    analyse(c, P)
    c.need("generators", 1)
    c.need("emissions compared", 50)
    c.assume.append("the MLIR and LLVM library calls used by the generators (type queries, operand accessors, streams, formatv, TypeSwitch, string helpers) behave as documented")
    c.assume.append("levels: graph::Graph::sortGraphByLevels returns the vertices by longest distance to a sink (decided by C07 where claimed)")
    return c.finish("Each generator's translate() is evaluated abstractly over descriptions of operations with opaque operand names, covering every operation kind with a printer; "
                    "the emitted text is compared with the operation's meaning in Rust (tokens, ignoring borrows and clones); functions with levelled operations are executed symbolically.")
