"""C16: forwarding and removal rewrites, evaluated over small programs whose meaning is computed for every run-time choice."""
import itertools
from .cprop import I, T, flat, truth
from .rewrite import RW, REW
from .world import M
from . import prog

OK, FAIL = T("success"), ("fail",)
MR, AF = M + "memref::", M + "affine::"


class Prog:
    """A block of memory operations described to the evaluator, with a meaning of its own."""

    def __init__(self, w, specs, flip=False, rank=1, local=False):
        self.w, self.specs = w, specs
        self.rank = rank
        self.vals, self.idx, self.mem, self.ops, self.views = {}, {}, {}, [], {}
        self.elt = w.int(8)
        self.local = local
        self.pre = []
        body = self.block(specs)
        for o in reversed(self.pre):
            body.insert(0, o)
        ret = w.op(M + "func::ReturnOp", [], [], opname="return", effects=())
        self.fn = w.op(M + "func::FuncOp", [], [], regions=[body + [ret]], opname="func", acc=dict(getName="f"), effects=None)
        if flip:
            for v in list(self.mem.values()):
                v.d["users"].reverse()

    def m(self, name):
        if name in self.views:
            return self.views[name][0]
        if name not in self.mem:
            w = self.w
            ty = w.memref((2,) * self.rank, self.elt)
            if self.local:
                o = w.op(MR + "AllocOp", [], [(name, ty)], acc=dict(getMemref=None, getType=ty), effects=(), isa=())
                o.acc["getMemref"] = o.acc["getResult"] = o.res[0]
                o.d["effects"] = (("Allocate", o.res[0]),)
                self.pre.append(o)
                self.mem[name] = o.res[0]
            else:
                self.mem[name] = w.arg(name, ty)
        return self.mem[name]

    def i(self, key):
        key = key if isinstance(key, tuple) else (key,)
        out = []
        for k in key:
            if k not in self.idx:
                self.idx[k] = self.w.ixval(int(k.rstrip("'")) if k[0].isdigit() else k)
                if k[0].isdigit():
                    self.pre.append(self.idx[k].op)
            out.append(self.idx[k])
        return out

    def v(self, name):
        if name not in self.vals:
            self.vals[name] = self.w.arg(name, self.elt)
        return self.vals[name]

    def block(self, specs):
        return [self.one(sp) for sp in specs]

    def one(self, sp):
        w, k = self.w, sp[0]
        if k in ("store", "astore"):
            m, ii, v = self.m(sp[1]), self.i(sp[2]), self.m(sp[3][1:]) if sp[3][0] == "&" else self.v(sp[3])
            cls = MR + "StoreOp" if k == "store" else AF + "AffineStoreOp"
            o = w.op(cls, [v, m] + ii, [], acc=dict(getMemRef=m, getMemref=m, getMemRefType=m.ty, getIndices=ii, getMapOperands=ii, getValueToStore=v, getValue=v),
                     isa=(AF + "AffineWriteOpInterface",) if k == "astore" else (), effects=(("Write", m),))
        elif k in ("load", "aload"):
            m, ii = self.m(sp[1]), self.i(sp[2])
            cls = MR + "LoadOp" if k == "load" else AF + "AffineLoadOp"
            o = w.op(cls, [m] + ii, [(sp[3], self.elt)], acc=dict(getMemRef=m, getMemref=m, getMemRefType=m.ty, getIndices=ii, getMapOperands=ii),
                     isa=(AF + "AffineReadOpInterface",) if k == "aload" else (), effects=(("Read", m),))
            self.vals[sp[3]] = o.res[0]
        elif k == "copy":
            a, b = self.m(sp[1]), self.m(sp[2])
            o = w.op(MR + "CopyOp", [a, b], [], acc=dict(getSource=a, getTarget=b), effects=(("Read", a), ("Write", b)))
        elif k == "call":
            m = self.m(sp[1])
            o = w.op(M + "func::CallOp", [m], [], acc=dict(getArgOperands=[m], getCallee="g"), effects=None)
        elif k == "free":
            m = self.m(sp[1])
            o = w.op(MR + "DeallocOp", [m], [], acc=dict(getMemref=m), effects=(("Free", m),))
        elif k == "ret":
            m = self.m(sp[1])
            o = w.op(M + "scf::YieldOp", [m], [], effects=())
        elif k == "pure":
            a = self.v(sp[1])
            o = w.op(M + "arith::AddIOp", [a, a], [(sp[2], self.elt)], effects=())
            self.vals[sp[2]] = o.res[0]
        elif k == "view":
            m = self.m(sp[1])
            o = w.op(MR + "CastOp", [m], [(sp[2], m.ty)], acc=dict(getSource=m, getViewSource=m), isa=(M + "ViewLikeOpInterface",), effects=())
            self.views[sp[2]] = (o.res[0], sp[1])
        elif k == "if":
            o = w.op(M + "scf::IfOp", [], [], regions=[self.block(sp[1])], effects=None)
        else:
            raise AssertionError(k)
        self.ops.append((sp, o))
        return o

    # -- meaning ------------------------------------------------------------------
    def base(self, m):
        while m in self.views:
            m = self.views[m][1]
        return m

    def envs(self):
        names = sorted({k for k in self.idx if not k[0].isdigit()})
        for ks in itertools.product((0, 1), repeat=len(names)):
            for cond in ((0, 1) if any(sp[0] == "if" for sp, _ in self.ops) else (1,)):
                yield dict(zip(names, ks), **{"?": cond})

    def at(self, key, env):
        key = key if isinstance(key, tuple) else (key,)
        return tuple(int(k.rstrip("'")) if k[0].isdigit() else env[k] for k in key)

    def cells(self):
        return list(itertools.product((0, 1), repeat=self.rank))

    def run(self, env, skip=()):
        """(value of each load, everything observed) when the operations in skip are left out."""
        mem, loads, seen, val = {}, {}, [], {}

        def get(m, k):
            return mem.get((m, k), f"{m}{k}")

        def go(specs, it):
            for sp in specs:
                o = next(it)
                k = sp[0]
                if k == "if":
                    inner = list(sp[1])
                    if env["?"]:
                        go(inner, inside[id(sp)]())
                    continue
                if o in skip:
                    continue
                if k in ("store", "astore"):
                    mem[(self.base(sp[1]), self.at(sp[2], env))] = val.get(sp[3], sp[3])
                    if sp[3][0] == "&":
                        seen.append(("stored", sp[3], sp[1]))
                elif k in ("load", "aload"):
                    val[sp[3]] = loads[sp[3]] = get(self.base(sp[1]), self.at(sp[2], env))
                    seen.append((sp[3], loads[sp[3]]))
                elif k == "copy":
                    for x in self.cells():
                        t = get(self.base(sp[1]), x)
                        seen.append(("copy", x, t))
                        mem[(self.base(sp[2]), x)] = t
                elif k == "call":
                    for x in self.cells():
                        seen.append(("call", x, get(self.base(sp[1]), x)))
                        mem[(self.base(sp[1]), x)] = f"call{x}"
                elif k == "ret":
                    for x in self.cells():
                        seen.append(("ret", x, get(self.base(sp[1]), x)))
                elif k == "pure":
                    val[sp[2]] = ("pure", val.get(sp[1], sp[1]))
        order = {}
        for sp, o in self.ops:
            order.setdefault(id(sp), []).append(o)
        inside = {}

        def ops_of(specs):
            return iter([order[id(sp)][0] for sp in specs])

        def register(specs):
            for sp in specs:
                if sp[0] == "if":
                    inside[id(sp)] = (lambda q: lambda: ops_of(q))(sp[1])
                    register(sp[1])
        register(self.specs)
        go(self.specs, ops_of(self.specs))
        if not self.local:
            for m in sorted(self.mem):
                for x in self.cells():
                    seen.append(("end", m, x, get(m, x)))
        return loads, seen

    def find(self, tag):
        for sp, o in self.ops:
            if sp is tag:
                return o
        return None


def show(specs):
    def one(s):
        if s[0] in ("store", "astore"):
            return f"{'affine.' if s[0][0] == 'a' else ''}store {s[3]}, {s[1]}{list(s[2]) if isinstance(s[2], tuple) else [s[2]]}".replace("'", "")
        if s[0] in ("load", "aload"):
            return f"{s[3]} = {'affine.' if s[0][0] == 'a' else ''}load {s[1]}{list(s[2]) if isinstance(s[2], tuple) else [s[2]]}".replace("'", "")
        if s[0] == "if":
            return "if {" + show(s[1]) + "}"
        return " ".join(s)
    return "; ".join(one(s) for s in specs)


KINDS = ("rauw", "erase", "replace", "new", "modify", "moveOpBefore", "moveOpAfter", "direct", "other", "err", "attr")


OBSERVE = [None]      # called with every evaluated rewrite


def observe(f, w, v, tr, det, text):
    if OBSERVE[0] is not None:
        OBSERVE[0](f, w, v, tr, det, text)


def evaluate(P, f, build):
    w = RW(P, record=lambda e: e[0] in KINDS)
    p = build(w)
    v, s = w.run(f, {0: p.target.v, 1: REW}, {})
    tr = s["tr"] if s is not None else ()
    det = v in (OK, FAIL) and not any(e[0] in ("alt", "loop") for e in tr)
    observe(f, w, v, tr, det, show(p.specs))
    return w, p, v, tr, det


def pattern(P, op, extra=""):
    """matchAndRewrite of the rewrite patterns for an operation class."""
    return [f for f in P.all if f.name == "matchAndRewrite" and f.body is not None and not f.dep and f.params and f.params[0].type.replace("const ", "").strip(" &").split("::")[-1] == op
            and f.rel.startswith("lib/Transforms/")]


IDX = ["i", "j", "0", "0'", "1"]


def mids(idx):
    """Operations that may come between two accesses of M."""
    yield []
    for k in idx:
        yield [("store", "M", k, "w")]
        yield [("astore", "M", k, "w")]
        yield [("load", "M", k, "r")]
        yield [("aload", "M", k, "r")]
        yield [("store", "N", k, "w")]
        yield [("load", "N", k, "r")]
        yield [("if", [("store", "M", k, "w")])]
        yield [("if", [("load", "M", k, "r")])]
        yield [("view", "M", "V"), ("store", "V", k, "w")]
        yield [("view", "M", "V"), ("load", "V", k, "r")]
    yield [("copy", "N", "M")]
    yield [("copy", "M", "N")]
    yield [("call", "M")]
    yield [("call", "N")]
    yield [("pure", "u", "t")]
    yield [("store", "M", "1", "w"), ("store", "M", "j", "y")]
    yield [("load", "M", "1", "r"), ("load", "M", "j", "q")]
    yield [("pure", "u", "t"), ("store", "M", "0", "t")]


def kindof(mid):
    return "+".join(x[0] + (":" + x[1] if len(x) > 1 and isinstance(x[1], str) else "") if x[0] != "if" else "region:" + x[1][0][0] for x in mid) or "nothing"


def forwards(c, P, tier):
    """A load is replaced by a stored value only if every run loads that value."""
    for f in pattern(P, "LoadOp"):
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        seen = {}
        idx = IDX if tier == "thorough" else ["i", "j", "0", "1"]
        specs = []
        for a in idx:
            for b in idx:
                for mid in mids(idx):
                    specs.append(([("store", "M", a, "v")] + mid, b))
            specs.append(([("store", "N", a, "v")], a))
            specs.append(([("store", "N", a, "&M")], a))
            specs.append(([("if", [("store", "M", a, "v")])], a))
            specs.append(([("astore", "M", a, "v")], a))
            specs.append(([], a))
            for b in idx:
                specs.append(([("store", "M", a, "v"), ("store", "M", b, "w"), ("store", "M", a, "x")], b))
        for pre, b in specs:
            after = [("store", "M", b, "late")]
            for flip in (False, True):
                def build(w, pre=pre, b=b, flip=flip):
                    load = ("load", "M", b, "L")
                    p = Prog(w, pre + [load] + after, flip)
                    p.target = p.find(load)
                    return p
                judge_forward(c, P, f, name, build, pre, b, seen)
        for ra, rb in itertools.product([("i", "0"), ("0", "i"), ("i", "j"), ("j", "i"), ("0", "1"), ("1", "0")], repeat=2):
            def build(w, ra=ra, rb=rb):
                load = ("load", "M", rb, "L")
                p = Prog(w, [("store", "M", ra, "v"), load], False, 2)
                p.target = p.find(load)
                return p
            judge_forward(c, P, f, name, build, [("store", "M", ra, "v")], rb, seen)


def judge_forward(c, P, f, name, build, pre, b, seen):
    c.count("programs evaluated", 1)
    w, p, v, tr, det = evaluate(P, f, build)
    text = show(pre + [("load", "M", b, "L")])
    if not det:
        c.undecided(name, text); return
    reps = [e for e in tr if e[0] in ("rauw", "replace") and w.val(e[1]) is p.target.res[0]]
    if v == FAIL or not reps:
        if v == FAIL and tr:
            return
        c.ok(f"{name}: left alone: {text}"); return
    new = w.val(reps[-1][2]) if reps[-1][2] is None or reps[-1][2][0] != "l" else w.val(reps[-1][2][1][0])
    if new is None:
        c.undecided(name, text); return
    for env in p.envs():
        loads, _ = p.run(env)
        _, vals = None, None
        tok = loads["L"]
        want = token(p, env, new)
        if tok != want:
            key = f"{name}:{kindof(pre[1:])}"
            if key not in seen:
                seen[key] = 1
                c.bad(key, f.where(), f"{name} replaces the load in \"{text}\" by {new.d.get('name')}, but with {', '.join(f'{k}={x}' for k, x in env.items() if k != '?') or 'these indices'} it loads {tok}")
            return
    c.ok(f"{name}: {text}")


def token(p, env, v):
    """What a value of the program is in a run."""
    loads, _ = p.run(env)
    name = v.d.get("name")
    if name in loads:
        return loads[name]
    for sp, o in p.ops:
        if sp[0] == "pure" and sp[2] == name:
            return ("pure", loads.get(sp[1], sp[1]))
    for k, m in p.mem.items():
        if m is v:
            return "&" + k
    return name


def removals(c, P, tier):
    """A store is removed only if nothing can observe that."""
    for f in pattern(P, "StoreOp"):
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        seen = {}
        idx = IDX if tier == "thorough" else ["i", "j", "0", "1"]
        specs = []
        for a in idx:
            for b in idx:
                for mid in mids(idx):
                    specs.append((a, mid + [("store", "M", b, "x")]))
            specs.append((a, [("store", "N", a, "x")]))
            specs.append((a, [("store", "N", a, "&M")]))
            specs.append((a, [("if", [("store", "M", a, "x")])]))
            specs.append((a, [("free", "M")]))
            specs.append((a, [("load", "M", a, "r"), ("store", "M", a, "x")]))
            specs.append((a, []))
        for a, post in specs:
            for flip in (False, True):
                def build(w, a=a, post=post, flip=flip):
                    st = ("store", "M", a, "v")
                    p = Prog(w, [("store", "M", a, "early"), st] + post, flip)
                    p.target = p.find(st)
                    return p
                judge_removal(c, P, f, name, build, a, post, seen)
        for ra, rb in itertools.product([("i", "0"), ("0", "i"), ("i", "j"), ("j", "i"), ("0", "1"), ("1", "0")], repeat=2):
            def build(w, ra=ra, rb=rb):
                st = ("store", "M", ra, "v")
                p = Prog(w, [st, ("store", "M", rb, "x")], False, 2)
                p.target = p.find(st)
                return p
            judge_removal(c, P, f, name, build, ra, [("store", "M", rb, "x")], seen)


def judge_removal(c, P, f, name, build, a, post, seen, key=None):
    c.count("programs evaluated", 1)
    w, p, v, tr, det = evaluate(P, f, build)
    text = show([("store", "M", a, "v")] + post)
    if not det:
        c.undecided(name, text); return
    gone = {w.ent(e[1]) for e in tr if e[0] == "erase"}
    if v == FAIL or not gone:
        c.ok(f"{name}: left alone: {text}"); return
    for env in p.envs():
        if p.run(env)[1] != p.run(env, gone)[1]:
            key = f"{name}:{kindof(post)}"
            if key not in seen:
                seen[key] = 1
                c.bad(key, f.where(), f"{name} removes an operation of \"{text}\" although the program then behaves differently" + (" with " + ", ".join(f"{k}={x}" for k, x in env.items() if k != "?") if len(env) > 1 else ""))
            return
    c.ok(f"{name}: {text}")


def unused(c, P, tier):
    """An allocation is removed with all its users, and only if nothing reads it."""
    uses = [("store", "M", "0", "v"), ("astore", "M", "i", "v"), ("load", "M", "0", "r"), ("aload", "M", "0", "r"), ("free", "M"), ("call", "M"), ("copy", "M", "N"), ("copy", "N", "M"),
            ("store", "N", "0", "&M"), ("astore", "N", "0", "&M"), ("ret", "M"), ("if", [("store", "M", "0", "v")]), ("if", [("load", "M", "0", "r")])]
    for f in pattern(P, "AllocOp"):
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        seen = {}
        combos = [[u] for u in uses] + [[a, b] for a in uses for b in uses if a is not b] + [[]]
        for us in combos:
            def build(w, us=us):
                p = Prog(w, us, False, 1, True)
                p.m("M")
                p.target = p.mem["M"].op
                return p
            c.count("programs evaluated", 1)
            w, p, v, tr, det = evaluate(P, f, build)
            text = show([x for x in us]) or "no use"
            if not det:
                c.undecided(name, text); continue
            gone = [w.ent(e[1]) for e in tr if e[0] == "erase"]
            if not gone:
                c.ok(f"{name}: left alone: {text}"); continue
            bad = None
            if p.target in gone:
                left = [o for sp, o in p.ops if o not in gone and p.mem["M"] in o.opnds]
                late = [o for sp, o in p.ops if o in gone and p.mem["M"] in o.opnds and gone.index(o) > gone.index(p.target)]
                if left:
                    bad = "although an operation that uses the allocation remains"
                elif late:
                    bad = "before an operation that uses the allocation"
            for env in p.envs():
                if bad is None and p.run(env)[1] != p.run(env, set(gone))[1]:
                    bad = "although the program then behaves differently"
            if bad:
                key = f"{name}:{kindof(us)}"
                if key not in seen:
                    seen[key] = 1
                    c.bad(key, f.where(), f"{name} removes operations of an allocation with the uses \"{text}\" {bad}")
            else:
                c.ok(f"{name}: {text}")


def lowerings(c, P, tier):
    """Affine accesses are rewritten to accesses of the same element."""
    for op, new in (("AffineStoreOp", "StoreOp"), ("AffineLoadOp", "LoadOp")):
        for f in pattern(P, op):
            name = f.full.split("::")[-2]
            c.count("patterns", 1)
            w = RW(P, record=lambda e: e[0] in KINDS)
            elt = w.int(8)
            m, v, ii = w.arg("M", w.memref((2, 2), elt)), w.arg("v", elt), [w.ixval("i"), w.ixval("j")]
            mp = w.attr(M + "AffineMap", acc={})
            st = op == "AffineStoreOp"
            o = w.op(AF + op, ([v] if st else []) + [m] + ii, [] if st else [("L", elt)],
                     acc=dict(getMemRef=m, getMemref=m, getMapOperands=ii, getIndices=ii, getAffineMap=mp, getMap=mp, **(dict(getValueToStore=v, getValue=v) if st else {})))
            val, s = w.run(f, {0: o.v, 1: REW}, {})
            tr = s["tr"] if s is not None else ()
            observe(f, w, val, tr, val in (OK, FAIL) and not any(e[0] in ("alt", "loop") for e in tr), f"{op} of a rank-two memref")
            news = [e for e in tr if e[0] == "new"]
            if val is None or len(news) != 1 or any(e[0] in ("alt", "loop") for e in tr) or None in news[0][3][1]:
                c.undecided(name, "not understood"); continue
            want = ("l", tuple(([v.v] if st else []) + [m.v] + [("l", (T("expand", mp.v, ("l", tuple(x.v for x in ii))),))]))
            if news[0][1].split("::")[-1] != new or news[0][3] != want:
                c.bad(f"{name}:operands", f.where(), f"{name} replaces an affine access by {news[0][1]} on {w.rep(news[0][3]) if hasattr(w, 'rep') else news[0][3]}, not by a {new} of the same value and memory at the mapped position")
            else:
                c.ok(f"{name}: same memory, mapped position")


# -- tensors ----------------------------------------------------------------------
def tensors(c, P, tier):
    """An extract is replaced only by the element every run extracts."""
    for f in pattern(P, "ExtractOp"):
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        seen = {}
        idx = IDX if tier == "thorough" else ["i", "j", "0", "1"]
        roots = ["arg", "splat", "dense", "elements", "opaque"]
        cases = []
        for root in roots:
            for k in idx:
                cases.append((root, [], k))
                for a in idx:
                    cases.append((root, [a], k))
                    if root in ("arg", "dense") or tier == "thorough":
                        for b in idx:
                            cases.append((root, [a, b], k))
        two = [("i", "0"), ("0", "i"), ("1", "i"), ("0", "0"), ("0", "1"), ("1", "0"), ("i", "j")]
        for root in ("arg", "dense", "elements", "splat"):
            for a in two:
                cases.append((root, [], a))
                cases.append((root, [], a, (3, 2)))
                for b in two:
                    cases.append((root, [a], b))
        for root, ins, k, *sh in cases:
            judge_extract(c, P, f, name, root, ins, k, seen, *sh)


def judge_extract(c, P, f, name, root, ins, k, seen, shape=None):
    c.count("programs evaluated", 1)
    rank = len(k) if isinstance(k, tuple) else 1
    shape = shape or ((2, 3) if rank == 2 else (3,))
    w = RW(P, record=lambda e: e[0] in KINDS)
    elt = w.int(32)
    ty = w.tensor(shape, elt)
    idx = {}

    def ix(key):
        out = []
        for x in key if isinstance(key, tuple) else (key,):
            if x not in idx:
                idx[x] = w.ixval(int(x.rstrip("'")) if x[0].isdigit() else x)
            out.append(idx[x])
        return out
    cells = list(itertools.product(*[range(d) for d in shape]))
    content = {}
    if root == "arg":
        t = w.arg("T", ty)
        content = {x: ("elt", x) for x in cells}
    elif root == "opaque":
        o = w.op(M + "tensor::EmptyOp", [], [("T", ty)], effects=())
        t = o.res[0]
        content = {x: ("elt", x) for x in cells}
    elif root in ("splat", "dense"):
        vals = [w.attr(M + "IntegerAttr", apint=T("apint", 32, 40 + n), ty=elt, isa=(M + "TypedAttr",)) for n in range(len(cells) if root == "dense" else 1)]
        at = w.attr(M + "DenseElementsAttr", items=vals if root == "dense" else vals * len(cells), shape=shape, ty=ty,
                    isa=(M + "ElementsAttr", M + "DenseIntElementsAttr", M + "TypedAttr") + ((M + "SplatElementsAttr",) if root == "splat" else ()))
        at.d["acc"] = dict(isSplat=root == "splat", isValidIndex=valid(shape), getValues=at, getNumElements=len(cells))
        if root == "splat":
            at.d["acc"]["getSplatValue"] = vals[0]
        o = w.op(M + "arith::ConstantOp", [], [("T", ty)], acc=dict(getValue=at, getValueAttr=at), effects=())
        t = o.res[0]
        content = {x: (vals[n] if root == "dense" else vals[0]) for n, x in enumerate(cells)}
    else:
        es = [w.arg(f"e{n}", elt) for n in range(len(cells))]
        o = w.op(M + "tensor::FromElementsOp", es, [("T", ty)], acc=dict(getElements=es, getType=ty), effects=())
        t = o.res[0]
        content = {x: es[n] for n, x in enumerate(cells)}
    chain = []
    for n, a in enumerate(ins):
        v = w.arg(f"v{n}", elt)
        ia = ix(a)
        o = w.op(M + "tensor::InsertOp", [v, t] + ia, [(f"T{n}", ty)], acc=dict(getScalar=v, getDest=t, getIndices=ia, getType=ty), effects=())
        chain.append((a, v))
        t = o.res[0]
    ik = ix(k)
    x = w.op(M + "tensor::ExtractOp", [t] + ik, [("X", elt)], acc=dict(getTensor=t, getIndices=ik), effects=())
    v, s = w.run(f, {0: x.v, 1: REW}, {})
    tr = s["tr"] if s is not None else ()
    text = "; ".join([f"T = {root}"] + [f"insert v{n} at {a}" for n, a in enumerate(ins)] + [f"extract at {k}"]).replace("'", "")
    det = v in (OK, FAIL) and not any(e[0] in ("alt", "loop") for e in tr)
    observe(f, w, v, tr, det, text)
    if not det:
        c.undecided(name, text); return
    got = None
    for e in tr:
        if e[0] == "rauw" and w.val(e[1]) is x.res[0]:
            got = w.val(e[2])
        elif e[0] == "replace":
            got = w.val(e[2]) if e[2] is None or e[2][0] != "l" else w.val(e[2][1][0])
        elif e[0] == "new" and e[1].endswith("ConstantOp") and e[2] == x.v:
            got = next((w.ent(y) for y in e[3][1] if w.ent(y) is not None and w.ent(y).kind == "attr"), None)
        else:
            continue
        if got is None:
            c.undecided(name, text); return
    if got is None:
        c.ok(f"{name}: left alone: {text}"); return
    names = sorted(q for q in idx if not q[0].isdigit())
    for ks in itertools.product((0, 1), repeat=len(names)):
        env = dict(zip(names, ks))

        def at_(key):
            return tuple(int(q.rstrip("'")) if q[0].isdigit() else env[q] for q in (key if isinstance(key, tuple) else (key,)))
        mem = dict(content)
        for a, val in chain:
            mem[at_(a)] = val
        if at_(k) not in mem:
            continue
        if mem[at_(k)] is not got:
            key = f"{name}:{root}:{'insert' if ins else 'direct'}:{'names' if names else 'constants'}"
            if key not in seen:
                seen[key] = 1
                have = mem[at_(k)]
                c.bad(key, f.where(), f"{name} replaces the extract in \"{text}\" by {w.rep(got.v) if got.kind == 'attr' else got.name}, but with {', '.join(f'{q}={y}' for q, y in env.items()) or 'these indices'} it is {have.d.get('name') or w.rep(have.v) if not isinstance(have, tuple) else 'another element'}")
            return
    c.ok(f"{name}: {text}")


def valid(shape):
    def go(w, vals, s):
        from .ceval import conc
        v = vals[0] if vals else None
        if v is None or v[0] != "l":
            return None, s
        ks = [conc(x) for x in v[1]]
        if None in ks:
            return None, s
        return I(int(len(ks) == len(shape) and all(0 <= a < d for a, d in zip(ks, shape)))), s
    return go


# -- calls ------------------------------------------------------------------------
def calls(c, P, tier):
    """Only unused calls of client helpers are removed."""
    fs = [f for f in P.all if f.name == "runOnOperation" and f.body is not None and "PureCall" in f.full]
    for f in fs:
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        for attr in (None, "client.enc_func", "client.dec_func", "other"):
            for used in (False, True):
                for order in (0, 1):
                    w = RW(P, record=lambda e: e[0] in KINDS)
                    ty = w.int(32)

                    def func(n, a, body):
                        o = w.op(M + "func::FuncOp", [], [], regions=[body], opname="func", effects=None, acc=dict(getName=n, getSymName=n, getSymNameAttr=("s", n)))
                        o.acc["hasAttr"] = lambda w, vals, s: (I(int(vals[0] == ("s", a))) if vals and vals[0] is not None and vals[0][0] == "s" else None, s)
                        return o
                    sym = w.attr(M + "FlatSymbolRefAttr", acc=dict(getAttr=("s", "callee"), getValue="callee"))
                    call = w.op(M + "func::CallOp", [], [("r", ty)], effects=None, acc=dict(getCalleeAttr=sym, getCallee="callee"))
                    body = [call] + ([w.op(M + "arith::NegFOp", [call.res[0]], [("n", ty)], effects=())] if used else [])
                    callee, main = func("callee", a=attr, body=[]), func("main", a="client.enc_func", body=body)
                    m = w.op(M + "ModuleOp", [], [], regions=[[callee, main] if order else [main, callee]], opname="module", effects=None)
                    w.module = m
                    init = {}
                    v, s = run_pass(w, f, m)
                    c.count("programs evaluated", 1)
                    tr = s["tr"] if s is not None else ()
                    if any(e[0] in ("alt", "loop") for e in tr) or s is None:
                        c.undecided(name, f"{attr} {used}"); continue
                    gone = [w.ent(e[1]) for e in tr if e[0] == "erase"]
                    helper = attr is not None and attr.startswith("client")
                    if gone and (used or not helper):
                        c.bad(f"{name}:{'used' if used else 'impure'}", f.where(), f"{name} removes a call of a function {'with the attribute ' + attr if attr else 'without attributes'} whose result is {'used' if used else 'unused'}")
                    else:
                        c.ok(f"{name}: attribute {attr}, {'used' if used else 'unused'}: {'removed' if gone else 'kept'}")


def run_pass(w, f, m):
    old = w.irmodel

    def irmodel(n, name, q, op, ov, vals, s):
        if n.k == "MCall" and name == "getOperation" and not vals and w.ent(ov) is None:
            return m.v, s
        return old(n, name, q, op, ov, vals, s)
    w.irmodel = irmodel
    return w.run(f, {}, {})


def check(c):
    P = prog.load()
    tier = c.tier
    c.rule("a load or extract is replaced only by the value it yields in every run of the program (every value of the unknown indices, calls and copies taken at their worst)")
    c.rule("a store, allocation or call is removed only if the rest of the program observes the same values in every run")
    forwards(c, P, tier)
    removals(c, P, tier)
    unused(c, P, tier)
    lowerings(c, P, tier)
    tensors(c, P, tier)
    calls(c, P, tier)
    c.need("programs evaluated", 500)
    c.need("patterns", 5)
    c.assume.append("distinct function arguments and allocations do not overlap; helpers marked as client functions have no effects")
    return c.finish("Each rewrite pattern is evaluated over all small programs of the enumerated forms; what it replaced or removed is compared with the program's meaning for every value of its unknown indices.")
