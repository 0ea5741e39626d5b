"""C15: distinct values get distinct, valid identifiers."""
import json, os, re, subprocess, tempfile
from .world import World, Ent, M, H
from .cprop import I, T, flat
from . import prog, facts

SRC = "lib/Analysis/SelectVariableNames/SelectVariableNames.cpp"
IDENT = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
PLAIN = None


def overlay(d):
    """Copies of two library definition files with the fields that newer versions of the library have."""
    os.makedirs(d + "/mlir/IR")
    for fn, key, a, b in (("AttrTypeBase.td", "genMnemonicAlias", "  string mnemonic = ?;", "  string mnemonic = ?;\n  bit genMnemonicAlias = 0;"),
                     ("OpAsmInterface.td", "OpAsmAttrInterface", "// OpAsmTypeInterface\n", "// OpAsmTypeInterface\n//\ndef OpAsmAttrInterface : AttrInterface<\"OpAsmAttrInterface\">;\n")):
        t = open(f"{facts.LLVM20}/include/mlir/IR/{fn}").read()
        if key not in t:
            t = t.replace(a, b, 1)
        open(f"{d}/mlir/IR/{fn}", "w").write(t)


def suggestions(c):
    with tempfile.TemporaryDirectory() as d:
        overlay(d)
        return suggestions1(c, d)


def suggestions1(c, over):
    """Name suggestions of every type that implements the assembly-name interface: {suggestion: [types]}."""
    out = {}
    tds = []
    for root, _, fs in os.walk(os.path.join(facts.REPO, "lib/Dialect")):
        tds += [os.path.join(root, f) for f in fs if f.endswith("Types.td")]
    for td in sorted(tds):
        rel = os.path.relpath(td, facts.REPO)
        r = subprocess.run([facts.LLVM20 + "/bin/llvm-tblgen", "-dump-json", "-I" + over, "-I" + facts.REPO, "-I" + facts.LLVM20 + "/include", "-I" + facts.SHIM, "-I" + os.path.dirname(td), td], capture_output=True, text=True)
        if r.returncode and any(re.search(r'^include ".*\b' + re.escape(os.path.basename(td)) + '"', open(t).read(), re.M) for t in tds if t != td):
            continue  # read through the file which includes it
        if r.returncode:
            c.undecided(rel, "type definitions do not parse here: " + r.stderr.strip().split("\n")[0][-120:])
            continue
        j = json.loads(r.stdout)
        for d in j["!instanceof"].get("TypeDef", []):
            rec = j[d]
            tr = [t.get("def", "") for t in rec.get("traits") or []]
            if not any("OpAsmTypeInterface" in t for t in tr):
                continue
            body = rec.get("extraClassDeclaration") or ""
            names = [""]
            if "getAsmName" in body:
                i = body.index("getAsmName")
                names = re.findall(r'\(\s*"([^"]*)"\s*\)', body[i:body.index("}", i)]) or None
                if names is None:
                    c.undecided(rel, f"name suggested by {d} is computed")
                    continue
            c.count("naming types")
            for x in names:
                out.setdefault(x, []).append(f"{d} ({rel})")
    return out


class NW(World):
    def __init__(self, P):
        super().__init__(P)
        self.n = 0
        self.vals = []

    def ev(self, n, s):
        if n is not None and n.k == "DefInit":
            return self.ev(n.e, s)
        return super().ev(n, s)

    def samekey(self, a, b):
        x, y = self.ent(a), self.ent(b)
        if x is not None and y is not None:
            return x is y
        return super().samekey(a, b)

    def nty(self, sug):
        if sug is PLAIN:
            return self.int(32)
        return self.ty(H + "test::Named", isa=("mlir::OpAsmTypeInterface",), sug=sug, acc=A(sug), text="!t")

    def iterable(self, v):
        e = self.ent(v)
        if e is not None and e.kind == "region":
            return self.lift(e.blks)
        return super().iterable(v)

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "region":
            if name in ("getBlocks",):
                return self.lift(e.blks), s
            if name == "front" and e.blks:
                return e.blks[0].v, s
            if name == "getArguments" and e.blks:
                return self.lift(e.blks[0].args), s
            if name == "empty":
                return I(int(not e.blks)), s
            if name == "getNumArguments":
                return I(len(e.blks[0].args) if e.blks else 0), s
        if e.kind == "region" and name in ("hasOneBlock",):
            return I(int(len(e.blks) == 1)), s
        if e.kind == "op" and name == "getRegions":
            return self.lift(e.regs), s
        if e.kind == "op" and name == "getNumRegions":
            return I(len(e.regs)), s
        if e.kind == "op" and name in ("isDeclaration", "isExternal") and self.isa(e, M + "func::FuncOp"):
            return I(int(not any(r.blks for r in e.regs))), s
        if e.kind == "op" and name in ("getBody", "getRegion", "getFunctionBody") and e.regs:
            return e.regs[0].v, s
        if e.kind == "op" and name == "getArguments" and e.regs and e.regs[0].blks:
            return self.lift(e.regs[0].blks[0].args), s
        return super().entmodel(n, e, name, vals, s)

    def val1(self, sug, own):
        self.n += 1
        v = self.arg(f"x{self.n}", self.nty(sug), 0)
        own.append((v, sug))
        return v

    def build(self, cls, spec, own):
        """spec: (result suggestions, [region: [block: (argument suggestions, [op spec])]])"""
        res, regs = spec
        o = self.op(cls, [], [(f"r{len(own)}{i}", self.nty(s)) for i, s in enumerate(res)])
        for r, s in zip(o.res, res):
            own.append((r, s))
        o.d["regs"] = []
        for blocks in regs:
            bs = []
            for args, ops in blocks:
                av = [self.val1(s, own) for s in args]
                kids = [self.build(H + "test::SomeOp", k, own) for k in ops]
                b = Ent(self, "block", M + "Block", ops=kids, args=av, parent=o)
                for i, k in enumerate(kids):
                    k.d.update(parent=o, block=b, nxt=kids[i + 1] if i + 1 < len(kids) else None)
                bs.append(b)
            o.blocks.extend(bs)
            o.regs.append(Ent(self, "region", M + "Region", blks=bs, parent=o))
        return o


class A(dict):
    """Accessors of a type that suggests a name; hashable so that types are shared."""

    def __init__(self, sug):
        super().__init__(getAsmName=self.call)
        self.sug = sug

    def call(self, w, vals, s):
        if not self.sug:
            return None, s
        r = w.apply(vals[0], [("s", self.sug)], s)
        return r if r is not None else (None, None)

    def __hash__(self):
        return hash(self.sug)

    def __lt__(self, o):
        return str(self.sug) < str(o.sug)


def shapes(p, q, deep):
    """Functions to name: straight-line, multi-result, nested regions, several blocks; p and q are suggestions."""
    leaf = lambda *r: (list(r), [])
    yield [([p], [leaf(p), leaf(q)])]
    yield [([p, q, p], [leaf(q, p), leaf(), leaf(PLAIN)])]
    yield [([PLAIN], [([p], [[([q, p], [leaf(p), leaf(q)])]]), leaf(q)])]
    yield [([q], [leaf(p)]), ([p, q], [leaf(q), leaf(PLAIN)])]
    yield [([p], [([], [[([p], [leaf(q)])], [([q], [leaf(p)]), ([p], [leaf(q)])]]), leaf(p)])]
    yield [([], [leaf(*([p] * 12)), leaf(q, q)])]
    yield [([], [leaf(q), leaf(*([p] * 3)), leaf(q, PLAIN)])]
    yield [([p], [leaf(*([q] * 30), p)])]
    if deep:
        yield [([p], [leaf(*([q, p] * 60), p)])]
        yield [([], [([p], [[([q], [([q], [[([p], [leaf(p), leaf(PLAIN)])]])])]]), leaf(q)])]
        yield [([p] * 3, [leaf(*([q] * 25)), leaf(*([p] * 25))])]


def run(P, f, sugs, alone=False):
    """One module holding one function per shape (or the function itself); the tables after naming it."""
    w = NW(P)
    fns = []
    for body in sugs:
        own = []
        fns.append((w.build(M + "func::FuncOp", ([], [body]), own), own))
    mod = w.build(M + "ModuleOp", ([], []), [])
    b = Ent(w, "block", M + "Block", ops=[o for o, _ in fns], args=[], parent=mod)
    mod.blocks.append(b)
    mod.regs.append(Ent(w, "region", M + "Region", blks=[b], parent=mod))
    for o, _ in fns:
        o.d.update(parent=mod, block=b)
    v, st = w.run(f, {0: fns[0][0].v if alone else mod.v}, members(P, w))
    return w, fns, st


def desc(sug):
    return "a plain type" if sug is PLAIN else f"suggestion '{sug}'" if sug else "an interface type without a suggestion"


def tables(P):
    """Members of the class holding a map from values."""
    r = P.recs.get(H + "SelectVariableNames")
    names = ints = None
    for x in r.fields if r is not None else []:
        if re.search(r"Map<", x.type) and "Value" in x.type:
            if "string" in x.type:
                names = x.n
            elif "int" in x.type or "unsigned" in x.type or "long" in x.type:
                ints = x.n
    return names, ints


def members(P, w):
    """Initial values of the members as their initializers give them; tables start out empty."""
    out = {}
    for x in P.recs[H + "SelectVariableNames"].fields:
        at = ("m", ("this",), x.n)
        if re.search(r"\b(\w*Map|map)<", x.type or ""):
            out[at] = T("map", ())
        elif x.init is not None:
            v, st = w.ev(x.init, {"tr": ()})
            if v is not None and st is not None:
                out[at] = v
    return out


def check(c):
    P = prog.load()
    c.rule("Every value of a function (arguments, results, block arguments at any depth) has one identifier, valid and different from every other identifier of that function; its number differs from every other value's")
    c.rule("A value mapped to another one takes over its identifier and number and no other value changes")
    sug = suggestions(c)
    f = next((f for f in P.all if f.full == H + "SelectVariableNames::SelectVariableNames" and f.body is not None and len(f.params) == 1 and "Operation" in f.params[0].type), None)
    if f is None:
        c.undecided(SRC, "constructor of SelectVariableNames not found")
    else:
        naming(c, P, f, sug)
    mapping(c, P)
    return c.finish("The naming constructor is evaluated abstractly on functions of every shape class (straight line, several results, several blocks, nested regions) for every pair of name suggestions that the tree's type definitions produce and that could interact, and the resulting table is compared with the definition of distinctness. Suggestions come from the type definitions themselves.")


def naming(c, P, f, sug):
    nm, it = tables(P)
    if nm is None:
        c.undecided(f.where(), "table of names not found")
        return
    # suggestions that can interact: equal up to trailing digits, the default prefix, nothing at all
    pool = sorted(sug)
    base = {}
    for s in pool:
        base.setdefault(s.rstrip("0123456789"), []).append(s)
    inter = [s for k, v in base.items() for s in v if len(v) > 1 or k == "v" or not s or not IDENT.match(s) or s != k]
    reps = [s for s in pool if s and s not in inter][:3]
    use = [PLAIN] + reps + inter
    pairs = [(a, b) for a in use for b in use if a is PLAIN or b is PLAIN or a in reps or b in reps or a.rstrip("0123456789") == b.rstrip("0123456789") or not a or not b]
    seen = set()
    for p, q in pairs:
        sh = list(shapes(p, q, c.tier == "thorough"))
        mods = [([b], False) for b in sh] + [(sh[:6] + [sh[0]], False), ([sh[2]], True)]
        for m, alone in mods:
            w, fns, st = run(P, f, m, alone)
            if st is None:
                c.undecided(f.where(), f"constructor does not finish for {desc(p)} and {desc(q)}")
                continue
            t = st.get(("m", ("this",), nm))
            ti = st.get(("m", ("this",), it)) if it else None
            if t is None or t[:2] != ("t", "map"):
                c.undecided(f.where(), f"names unknown for {desc(p)} and {desc(q)}")
                continue
            d = dict(t[2])
            nums = dict(ti[2]) if ti is not None and ti[:2] == ("t", "map") else None
            allnums = {}
            for o, own in fns:
                names = {}
                for v, s in own:
                    c.count("values"); c.ok()
                    x = d.get(v.v)
                    if v.v not in d:
                        once(c, seen, "unnamed", f, f"a value of {desc(s)} gets no identifier (function with {desc(p)} and {desc(q)})")
                        continue
                    if x is None or x[0] != "s":
                        c.undecided(f.where(), f"identifier of a value of {desc(s)} unknown")
                        continue
                    if not IDENT.match(x[1]):
                        who = f"; suggested by {', '.join(sug[s][:3])}" if s is not PLAIN and s in sug else ""
                        once(c, seen, f"invalid:{s}", f, f"a value of {desc(s)} gets the identifier '{x[1]}'{who}")
                    if x[1] in names:
                        once(c, seen, f"duplicate:{s}:{names[x[1]]}", f, f"two values ({desc(names[x[1]])}, {desc(s)}) of one function both get the identifier '{x[1]}'")
                    names[x[1]] = s
                    if nums is not None:
                        k = nums.get(v.v)
                        if v.v not in nums:
                            once(c, seen, "unnumbered", f, f"a value of {desc(s)} gets no number")
                        elif k is not None and k in allnums:
                            once(c, seen, "number", f, f"two values of a module both get the number {k[1] if len(k) > 1 else k}")
                        allnums[k] = v
            c.count("modules")
    c.need("values", 200)


def once(c, seen, key, f, msg):
    if key in seen:
        return
    seen.add(key)
    c.bad(key, f.where(), msg)


def mapping(c, P):
    f = next((f for f in P.all if f.full == H + "SelectVariableNames::mapValueNameToValue" and f.body is not None), None)
    nm, it = tables(P)
    if f is None or nm is None:
        c.undecided(SRC, "mapValueNameToValue not found")
        return
    for known in (False, True):
        w = NW(P)
        a, b, z = (w.arg(x, w.int(8)) for x in "abz")
        names = [(b.v, ("s", "vb")), (z.v, ("s", "vz"))] + ([(a.v, ("s", "va"))] if known else [])
        ints = [(b.v, I(1)), (z.v, I(2))] + ([(a.v, I(3))] if known else [])
        init = members(P, w)
        init[("m", ("this",), nm)] = T("map", tuple(names))
        if it:
            init[("m", ("this",), it)] = T("map", tuple(ints))
        v, st = w.run(f, {0: a.v, 1: b.v}, init)
        for fld, want in ((nm, {b.v: ("s", "vb"), z.v: ("s", "vz"), a.v: ("s", "vb")}), (it, {b.v: I(1), z.v: I(2), a.v: I(1)})):
            if not fld:
                continue
            t = st.get(("m", ("this",), fld)) if st is not None else None
            if t is None or t[:2] != ("t", "map"):
                c.undecided(f.where(), f"{fld} after mapping a value")
            elif dict(t[2]) == want:
                c.count("mappings"); c.ok()
            elif None in dict(t[2]).values():
                c.undecided(f.where(), f"{fld} after mapping a value")
            else:
                c.bad(f"map:{fld}", f.where(), f"after mapping value a to b, {fld} holds {sorted(str(x[1]) for x in dict(t[2]).values() if x)} for a, b and a third value: not b's entry for a with the others unchanged")
