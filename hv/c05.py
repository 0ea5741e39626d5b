"""C05: rotations are accounted for, with their normalised amount; secrecy is the disjunction of the inputs'."""
import itertools, os, re
from .cprop import I, T, paths, compare
from .ceval import conc
from .poly import PolyEval, mk, of, op, norm
from . import prog, facts

RC, RE, EV = "lib/Kernel/RotationCountVisitor.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", "lib/Kernel/EvalVisitor.cpp"
EXTRA = ("-I" + os.path.join(facts.VERIF, "drivers", "shim"),)
PLAIN = {"shift", "shifts", "index", "inductionVar", "iterArgs"}     # index arithmetic and placeholders
NODE = lambda *a: T("n", *a)
TRIPS = [((0, 4, 1), 4), ((0, 5, 2), 3), ((3, 3, 1), 0), ((5, 2, 1), 0), ((1, 8, 3), 3), ((-3, 3, 4), 2), ((7, 8, 5), 1)]


def isnode(v):
    return v is not None and v[:2] == ("t", "n")


class Base(PolyEval):
    def samekey(self, a, b):
        if isnode(a) and isnode(b):
            return a == b
        if isnode(a) and b == ("fail",) or isnode(b) and a == ("fail",):
            return False
        return super().samekey(a, b)

    def nodehook(self, n, name, q, ov, vals, s):
        if isnode(ov):
            if name == "get" and not vals:
                return ov, s
            if name.startswith("operator ") and "bool" in name:
                return I(1), s
        if n.k == "OpCall" and n.op in ("==", "!=") and len(vals) == 2 and any(isnode(v) for v in vals):
            r = self.samekey(*vals)
            if r is not None:
                return I(int(r == (n.op == "=="))), s
        if q in ("std::get",) and vals and vals[0] is not None:
            return vals[0], s
        if name == "isSecret":
            return I(self.leaf), s
        return None


class Count(Base):
    def __init__(self, P, members, sec):
        super().__init__(P)
        self.mem, self.sec = members, sec
        self.leaf = 0
        self.callhook = self.hook

    def hook(self, n, name, q, ov, vals, s):
        if name == "processInternal" and vals and isnode(vals[0]):
            x = vals[0]
            vp, mp, cp = (("m", ("this",), self.mem[k]) for k in ("visited", "secret", "current"))
            vis, m = s.get(vp), s.get(mp)
            s = self.setp(cp, NODE("<other>"), s) if True else s
            if vis is None or m is None:
                return None, s
            if x in vis[1]:
                return I(0), s
            sec = self.sec.get(x, 0)
            flag = None
            if callable(sec):
                flag = sec(m)
                sec = flag[0]
            s = self.setp(vp, ("l", vis[1] + (x,)), s)
            s = self.setp(mp, self.mset(m, x, I(sec)), s)
            return T("cnt", x, *(flag[1:] if flag else ())), s
        return self.nodehook(n, name, q, ov, vals, s)


def members(P, cls):
    """Names of the visited set, the secrecy map and the current-node pointer, recognised by their types."""
    rec = next((r for k, r in P.recs.items() if k.split("::")[-1] == cls and r.fields), None)
    out = {}
    for f in rec.fields if rec else ():
        t = f.type
        if re.match(r"(const )?[\w:]*set<|.*Set<", t) and "map<" not in t:
            out["visited"] = f.n
        elif re.match(r"(const )?[\w:]*map<|.*Map<", t) and "bool" in t:
            out["secret"] = f.n
        elif t.rstrip().endswith("*"):
            out["current"] = f.n
    return out if len(out) == 3 else None


def fieldsof(P, t):
    t = re.sub(r"^const |\s*&$", "", t).strip()
    rec = P.recs.get(t) or next((r for k, r in P.recs.items() if k.split("::")[-1] == t.split("::")[-1] and not r.dep), None)
    return rec.fields if rec else None


def shapes(fields):
    """Node values: one per combination of list lengths, absent optional children and loop bounds."""
    lists = [f.n for f in fields if "vector<" in f.type and "shared_ptr" in f.type]
    loop = {"lower", "upper", "step"} <= {f.n for f in fields}
    for ln in ((0, 1, 2, 3) if lists else (0,)):
        for body in ((True, False) if loop else (True,)):
            for b, trips in (TRIPS if loop else [((0, 0, 0), None)]):
                if loop and (ln > 2 or ln and b not in (TRIPS[0][0], TRIPS[1][0]) and ln != 1):
                    continue
                d, ch = {}, []
                for f in fields:
                    if f.n in lists:
                        els = tuple(NODE(f.n, i) for i in range(ln))
                        d[f.n] = ("l", els)
                        ch += [(f.n, e) for e in els]
                    elif "shared_ptr" in f.type:
                        if f.n == "body" and not body:
                            d[f.n] = ("fail",)
                            continue
                        d[f.n] = NODE(f.n)
                        ch.append((f.n, d[f.n]))
                    elif loop and f.n in ("lower", "upper", "step"):
                        d[f.n] = I(b[("lower", "upper", "step").index(f.n)])
                    else:
                        d[f.n] = T("S", f.n)
                yield ("st", tuple(sorted(d.items()))), ch, ln, trips


def count_op(P, f, mem, note):
    t = f.params[0].type
    kind = re.sub(r".*::|<.*|&|\s", "", t.split("<")[0]).replace("Node", "")
    fields = fieldsof(P, t)
    if fields is None:
        return note("undecided", kind, f.where(), "node type not found")
    for node, ch, ln, trips in shapes(fields):
        required = [x for fn, x in ch if fn not in PLAIN]
        for bits in itertools.product((0, 1), repeat=len(required)):
            for carried in ((0, 1) if trips is not None and "body" in [a for a, _ in ch] else (0,)):
                one(P, f, mem, kind, node, ch, required, dict(zip(required, bits)), carried, trips, note)
        if kind == "Leaf":
            one(P, f, mem, kind, node, ch, required, {}, 0, None, note, leaf=1)


def one(P, f, mem, kind, node, ch, required, sec, carried, trips, note, leaf=0):
    body = NODE("body")
    its = [x for fn, x in ch if fn == "iterArgs"]
    initsec = any(sec.get(x) for fn, x in ch if fn == "inits")
    env = dict(sec)
    if trips is not None and body in sec:
        own = sec[body]

        def bodysec(m):
            st = [next((v for k, v in m[2] if k == x), I(0)) for x in its]
            on = int(any(v == I(1) for v in st))
            return (int(own or (carried and on)), I(on))
        env[body] = bodysec
    it = Count(P, mem, env)
    it.leaf = leaf
    init = {("m", ("this",), mem["visited"]): ("l", ()), ("m", ("this",), mem["secret"]): T("map", ()), ("m", ("this",), mem["current"]): NODE("<this>")}
    v, st = it.run(f, {0: node}, init)
    what = f"{kind} with " + (", ".join(f"{x[2]}{''.join(map(str, x[3:]))}{'*' if sec.get(x) else ''}" for _, x in ch) or "no operands")
    note("count", "", "", "")
    if v is None or st is None:
        return note("undecided", what, f.where(), "count not resolved")
    m = st.get(("m", ("this",), mem["secret"]))
    # expected
    secret = any(sec.values()) or bool(leaf)
    flag = int(bool(its) and (initsec or bool(sec.get(body))))
    if carried and flag:
        pass
    want = {}
    for x in required:
        c = of(T("cnt", x)) if not (x == body and trips is not None) else {(T("cnt", x, I(flag)),): 1}
        k = trips if x == body and trips is not None else 1
        for mm, e in c.items():
            if k:
                want[mm] = want.get(mm, 0) + e * k
    rot = 0
    if kind == "LeftRotate":
        rot = int(bool(sec.get(NODE("operand"))))
    if kind == "LeftRotateBulk":
        rot = len([1 for fn, _ in ch if fn == "shifts"]) if sec.get(NODE("operand")) else 0
    if rot:
        want[()] = rot
    got = of(v)
    if got is None:
        return note("undecided", what, f.where(), "count not resolved")
    opt = {(T("cnt", x),) for fn, x in ch if fn in PLAIN}
    core = {k: e for k, e in got.items() if k not in opt}
    if any(not (k == () or len(k) == 1 and k[0][:2] == ("t", "cnt")) for k in core):
        return note("undecided", what, f.where(), "count contains unmodelled parts")
    if core != want or any(e != 1 for k, e in got.items() if k in opt):
        return note("bad", f"{kind}:count", f.where(), f"the rotation count of {what} (* = secret){f', {trips} iterations' if trips is not None else ''} is {show(got)}, expected {show(want)}")
    if m is None or m[:2] != ("t", "map"):
        return note("undecided", what, f.where(), "secrecy not resolved")
    mine = [x for k, x in m[2] if k == NODE("<this>")]
    if not mine:
        other = [k for k, _ in m[2] if k not in {x for _, x in ch}]
        if other and other == [NODE("<other>")]:
            return note("bad", f"{kind}:secrecy", f.where(), f"the secrecy of {what} is recorded for whichever node was visited last")
        return note("bad" if not other else "undecided", f"{kind}:secrecy", f.where(), f"the secrecy of {what} is not recorded")
    if mine[0] is None or conc(mine[0]) is None:
        return note("undecided", what, f.where(), "secrecy not resolved")
    if bool(conc(mine[0])) != secret:
        return note("bad", f"{kind}:secrecy", f.where(), f"{what} (* = secret) is taken for {'secret' if conc(mine[0]) else 'plaintext'}")
    note("ok", what, f.where(), f"{show(want)}, {'secret' if secret else 'plaintext'}")


def show(d):
    def a(x):
        return "count(" + "".join(map(str, x[2][2:])) + ")" if x[:2] == ("t", "cnt") else str(x)
    return " + ".join((f"{e}*" if e != 1 and k else "" if k else str(e)) + "*".join(a(x) for x in k) for k, e in d.items()) or "0"


def entry(P, cls, mem, note):
    for f in P.all:
        if f.dep or f.cls is None or f.cls.split("::")[-1] != cls or f.name not in ("process", "processInternal"):
            continue
        x = NODE("x")
        for visited in (0, 1):
            seen = []

            class It(Base):
                leaf = 0

                def hk(self, n, name, q, ov, vals, s):
                    if q == "std::visit" or name == "processInternal" and f.name == "process":
                        st = {k: s.get(("m", ("this",), mem[k])) for k in mem}
                        seen.append((vals[0] if name == "processInternal" else None, st))
                        return T("result"), s
                    if isnode(ov) and name == "node_variant":
                        return T("variant"), s
                    return self.nodehook(n, name, q, ov, vals, s)
            it = It(P)
            it.callhook = it.hk
            init = {("m", ("this",), mem["visited"]): ("l", (x,) if visited else ()), ("m", ("this",), mem["secret"]): T("map", ((x, I(1)),) if visited else ()),
                    ("m", ("this",), mem["current"]): NODE("<old>")}
            v, st = it.run(f, {0: x}, init)
            note("count", "", "", "")
            w = f"{f.name} of a{' visited' if visited else ' new'} node"
            if f.name == "process":
                if len(seen) != 1 or v != T("result") or None in seen[0][1].values():
                    note("undecided", w, f.where(), "not resolved")
                elif seen[0][1]["visited"] != ("l", ()) or seen[0][1]["secret"] != T("map", ()):
                    note("bad", "process:stale", f.where(), "a count starts with nodes left over from an earlier one")
                else:
                    note("ok", w, f.where(), "starts afresh")
            elif visited:
                if v == T("result") and len(seen) == 1:
                    note("bad", "processInternal:shared", f.where(), "a shared node is counted again")
                elif conc(v) is None:
                    note("undecided", w, f.where(), "not resolved")
                elif conc(v) != 0 or seen:
                    note("bad", "processInternal:shared", f.where(), "a shared node is counted again")
                else:
                    note("ok", w, f.where(), "counts nothing")
            else:
                if conc(v) is not None and not seen:
                    note("bad", "processInternal:skipped", f.where(), "a node met for the first time is not dispatched")
                elif len(seen) != 1 or v != T("result") or seen[0][1]["visited"] is None:
                    note("undecided", w, f.where(), "not resolved")
                elif seen[0][1]["visited"] != ("l", (x,)):
                    note("bad", "processInternal:mark", f.where(), "a node is dispatched without being marked as visited")
                elif seen[0][1]["current"] != x:
                    note("bad" if seen[0][1]["current"] == NODE("<old>") else "undecided", "processInternal:current", f.where(), "a node is dispatched without becoming the current node")
                else:
                    note("ok", w, f.where(), "marked and dispatched")


# -- recorded amounts ----------------------------------------------------------
class Amount(Base):
    leaf = 0

    def __init__(self, P, rank):
        super().__init__(P)
        self.rank = rank
        self.ins = None
        self.callhook = self.hook

    def hook(self, n, name, q, ov, vals, s):
        if name == "process" and vals and isnode(vals[0]):
            return ("l", (T("val", vals[0]),)), s
        if ov is not None and ov[:2] == ("t", "val"):
            if name == "getShape":
                return ("l", tuple(T("S", "rows") for _ in range(self.rank - 1)) + (T("S", "slots"),)), s
            if name == "get":
                return ov, s
        if name == "normalizeRotation" and len(vals) == 2 and None not in vals:
            return T("norm", *vals), s
        if name == "empty" and ov is not None and ov[0] == "l":
            return I(int(not ov[1])), s
        if name in ("insert", "emplace") and n.obj is not None and re.search(r"set<|Set<", n.obj.type or "") and len(vals) == 1:
            p = self.place(n.obj, s)
            if p is not None and p[0] == "m":
                return None, self.event(("ins", p[-1], vals[0]), s)
        return self.nodehook(n, name, q, ov, vals, s)


def amounts(P, f, note):
    kind = "LeftRotateBulk" if "Bulk" in f.params[0].type else "LeftRotate"
    fields = fieldsof(P, f.params[0].type)
    if fields is None:
        return note("undecided", kind, f.where(), "node type not found")
    for node, ch, ln, _ in shapes(fields):
        for rank in (1, 2):
            it = Amount(P, rank)
            v, st = it.run(f, {0: node})
            w = f"{kind} with {ln if kind != 'LeftRotate' else 1} amounts, operand of rank {rank}"
            note("count", "", "", "")
            if st is None:
                note("undecided", w, f.where(), "not resolved")
                continue
            want = {T("norm", T("val", x), T("S", "slots")) for fn, x in ch if fn in ("shift", "shifts")}
            verdict = ("ok", f"{len(want)} amounts recorded, normalised by the slot dimension")
            for p in paths(st["tr"]):
                got = [e[2] for e in p if e[0] == "ins"]
                if None in got or any(e[0] == "loop" for e in p):
                    verdict = ("undecided", "recorded amount not resolved")
                    break
                if set(got) != want:
                    odd = [g for g in got if g not in want]
                    if any(g[:2] == ("t", "val") for g in odd):
                        verdict = ("bad", "an amount is recorded without being reduced into the range of slots")
                    elif any(g[:2] == ("t", "norm") for g in odd):
                        verdict = ("bad", "an amount is reduced by something other than the slot dimension of the operand")
                    elif odd:
                        verdict = ("undecided", "recorded amount not understood")
                        break
                    else:
                        verdict = ("bad", f"{len(want) - len(set(got))} of {len(want)} amounts are not recorded")
            note(verdict[0], w if verdict[0] != "bad" else f"{kind}:amount", f.where(), (w + ": " if verdict[0] == "bad" else "") + verdict[1])
            if v is not None and v[0] == "l" and v[1] and isnode(v[1][0][2] if v[1][0] and v[1][0][:2] == ("t", "val") else None) and v != ("l", (T("val", NODE("operand")),)):
                note("bad", f"{kind}:value", f.where(), f"{w}: the value handed on is not the rotated operand")


def normal(P, f, note):
    bad = None
    for n in list(range(1, 9)) + [16]:
        for r in range(-3 * n, 3 * n + 1):
            v, st = PolyEval(P).run(f, {0: I(r), 1: I(n)})
            note("count", "", "", "")
            if conc(v) is None:
                return note("undecided", f.name, f.where(), "result not resolved")
            if conc(v) != r % n:
                bad = bad or (r, n, conc(v))
    if bad:
        return note("bad", f"{f.name}:range", f.where(), f"{f.name}({bad[0]}, {bad[1]}) is {bad[2]}, not {bad[0] % bad[1]}")
    note("ok", f.name, f.where(), "representative in [0, n) for every residue and sign")


class Std(PolyEval):
    def __init__(self, P):
        super().__init__(P)
        self.callhook = self.hook

    def samekey(self, a, b):
        a, b = of(a), of(b)         # polynomials over one positive symbol
        return None if a is None or b is None else a == b

    def hook(self, n, name, q, ov, vals, s):
        import math
        if q in ("std::sqrt", "sqrt") and conc(vals[0]) is not None:
            return T("f", str(math.sqrt(conc(vals[0])))), s
        if q in ("std::ceil", "ceil", "std::floor", "floor") and vals[0] is not None and vals[0][:2] == ("t", "f"):
            return I((math.ceil if "ceil" in q else math.floor)(float(vals[0][2]))), s
        return None


def reduce_set(P, f, note):
    import math
    for steps in range(1, 26):
        for has in (0, 1):
            if not has and steps & (steps - 1):
                continue
            note("count", "", "", "")
            v, st = Std(P).run(f, {0: T("period"), 1: I(steps), 2: I(has)})
            if v is None or v[0] != "l" or any(x is None for x in v[1]):
                return note("undecided", f"{f.name}({steps}, {has})", f.where(), "set not resolved")
            got = {norm(x) for x in v[1]}
            pr = T("period")
            if has:
                b = math.isqrt(steps - 1) + 1 if steps > 1 else 1
                ks = [i for i in range(1, b)] + [j * b for j in range(1, -(-steps // b))]
            else:
                ks = [1 << k for k in range(steps.bit_length() - 1)]
            want = {norm(mk(op("*", of(pr), {(): k}))) for k in ks}
            if got != want:
                miss = want - got
                return note("bad", f"{f.name}:set", f.where(), f"rotations of a reduction over {steps} steps {'with' if has else 'without'} plaintexts: "
                            + (f"{len(miss)} of {len(want)} amounts are missing" if miss else "amounts are reported that are not performed"))
    note("ok", f.name, f.where(), "amounts of halving and of baby and giant steps are complete")


def lintrans_set(P, f, note):
    for n in (4, 8):
        for lg in (-1, 0, 1):
            for k in range(1, 2 ** n if n == 4 else 40):
                diags = [i for i in range(n) if k >> i & 1] if n == 4 else [k % 8, (k * 3 + 1) % 8, -(k % 5)]
                note("count", "", "", "")
                v, st = Std(P).run(f, {0: ("l", tuple(I(d) for d in diags)), 1: I(n), 2: I(lg)})
                if v is None or v[0] != "l" or any(conc(x) is None for x in v[1]):
                    return note("undecided", f"{f.name}({diags}, {n}, {lg})", f.where(), "set not resolved")
                got = {conc(x) for x in v[1]}
                for d in diags:
                    r = d % n
                    if r and not any((a + b) % n == r for a in got | {0} for b in got | {0}):
                        return note("bad", f"{f.name}:set", f.where(), f"diagonal {d} of {n} slots cannot be reached with the reported rotations {sorted(got)}")
                if any(not 0 < x < n for x in got):
                    return note("bad", f"{f.name}:range", f.where(), f"reported rotations {sorted(got)} are not in the range of {n} slots")
    note("ok", f.name, f.where(), "every diagonal is a baby step plus a giant step")


# -- values -------------------------------------------------------------------
def scalar(P, f, note):
    kind = re.sub(r".*::|<.*", "", f.params[0].type.split("<")[0]).replace("Node", "").replace(" &", "")
    for a, b in ((7, 3), (3, 7), (-7, 2), (-9, 4), (8, 4), (0, 3)):
        node = ("st", (("divisor", I(b)), ("left", NODE("left")), ("right", NODE("right"))))
        x = {NODE("left"): I(a), NODE("right"): I(b)}

        class It(Base):
            leaf = 0

            def hk(self, n, name, q, ov, vals, s):
                if name == "process" and vals and isnode(vals[0]):
                    return ("l", (T("lit", x[vals[0]]),)), s
                if ov is not None and ov[:2] == ("t", "lit") and name == "get":
                    return ov, s
                if q in ("std::get_if",) and vals and vals[0] is not None and vals[0][:2] == ("t", "lit"):
                    return (("st", (("ptr", vals[0][2]),)) if "int *" in (n.type or "") and "vector" not in n.type else ("fail",)), s
                if q == "std::get" and vals and vals[0] is not None and vals[0][:2] == ("t", "lit"):
                    return vals[0][2], s
                return self.nodehook(n, name, q, ov, vals, s)

            def unary(self, n, s):
                v, s2 = super().unary(n, s)
                if n.op == "*" and v is not None and v[0] == "st" and v[1] and v[1][0][0] == "ptr":
                    return v[1][0][1], s2
                return v, s2
        it = It(P)
        it.callhook = it.hk
        v, st = it.run(f, {0: node})
        note("count", "", "", "")
        while v is not None and v[0] == "l" and len(v[1]) == 1:
            v = v[1][0]
        want = {"Add": a + b, "Subtract": a - b, "Multiply": a * b, "FloorDiv": a // b}[kind]
        if conc(v) is None:
            note("undecided", f"{kind} of {a} and {b}", f.where(), "value not resolved")
        elif conc(v) != want:
            note("bad", f"EvalVisitor:{kind}", f.where(), f"index arithmetic: {kind} of {a} and {b} is {conc(v)}")
        else:
            note("ok", f"{kind} of {a} and {b}", f.where(), str(want))


def check(c):
    c.rule("each operator of the rotation count is evaluated for every secrecy of its operands, list length and loop bound class: the count is the sum over the operands, "
           "times the trip count for a loop body, plus one per rotation of a secret operand; the secrecy recorded for the node is the disjunction of its operands'")
    c.rule("the entry points start afresh, mark a node before dispatching it and count a shared node once")
    c.rule("each rotation evaluated records its amount, reduced by the slot dimension of its operand, on every path; the reduction yields the representative in [0, n)")
    c.rule("the rotation sets of linear transforms and reductions contain every amount of their baby-step and giant-step decomposition")

    def note(kind, key, where, msg):
        if kind == "count":
            c.count("evaluations")
        elif kind == "ok":
            c.ok(f"{key}: {msg}")
        elif kind == "bad":
            c.bad(f"{key}:{msg[:30] if ':' not in key else ''}", where, msg)
        else:
            c.undecided(key, msg)

    P = prog.load([RC])
    mem = members(P, "RotationCountVisitor")
    if mem is None:
        c.undecided("RotationCountVisitor", "members not recognised")
    else:
        for f in P.all:
            if f.name == "operator()" and (f.cls or "").split("::")[-1] == "RotationCountVisitor" and not f.dep and len(f.params) == 1 and f.body is not None:
                c.count("count operators")
                count_op(P, f, mem, note)
        entry(P, "RotationCountVisitor", mem, note)
    Q = prog.load([RE], EXTRA)
    for f in Q.all:
        if f.dep or f.body is None:
            continue
        if f.name == "operator()" and "RotationEvalVisitor" in (f.cls or "") and len(f.params) == 1 and "LeftRotate" in f.params[0].type:
            c.count("amount operators")
            amounts(Q, f, note)
        if f.rel == "lib/Utils/RotationUtils.h":
            c.count("rotation helpers")
            if f.name == "normalizeRotation":
                normal(Q, f, note)
            elif f.name == "rotateAndReduceRotationIndices":
                reduce_set(Q, f, note)
            elif f.name == "lintransRotationIndices":
                lintrans_set(Q, f, note)
    if EV in facts.sources() or os.path.exists(os.path.join(facts.REPO, EV)):
        E = prog.load([EV], EXTRA)
        for f in E.all:
            if f.name == "operator()" and (f.cls or "").split("::")[-1] == "EvalVisitor" and not f.dep and len(f.params) == 1 and f.rel == EV and \
                    re.search(r"\b(Add|Subtract|Multiply|FloorDiv)Node", f.params[0].type):
                scalar(E, f, note)
    selftest(c)
    c.need("count operators", 5)
    c.need("evaluations", 20)
    return c.finish("Visitor operators are evaluated abstractly on every class of operand secrecy, list length and loop bounds; counts are compared as polynomials over the "
                    "operands' counts, recorded amounts as terms.")


def selftest(c):
    p = prog.Program([facts.extract(os.path.join(facts.VERIF, "drivers", "c05_positive.cpp"))])
    mem = members(p, "CountVisitor")
    n = 0
    for f in p.all:
        res = []

        def note(kind, *a):
            res.append(kind)
        if f.name == "operator()" and not f.dep and mem and re.search(r"\b(good|bad)", f.params[0].type):
            count_op(p, f, mem, note)
            want = "bad" if "bad" in f.params[0].type else "ok"
        elif f.name.endswith("_normal"):
            normal(p, f, note)
            want = "bad" if f.name.startswith("bad") else "ok"
        else:
            continue
        n += 1
        c.count("self-test examples")
        if ("bad" in res) != (want == "bad") or (want == "ok" and "undecided" in res):
            raise facts.AnalysisBroken(f"C05: self test {f.name} {f.params[0].type}: {sorted(set(res))}")
    if n < 8:
        raise facts.AnalysisBroken("C05: self test examples not found")
