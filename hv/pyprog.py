"""Small typed Python programs: translation to the numba-like IR the front-end emitter reads, and their meaning as expression trees."""
import ast, os
from .pyai import *

INTS = ("i8", "i16", "i32", "i64")
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and_", ast.BitXor: "xor",
       ast.BitOr: "or_", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Lt: "lt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.LtE: "le", ast.Gt: "gt"}
CMP = ("lt", "le", "gt", "ge", "eq", "ne")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = {"numba": HERE + "/stubs/empty.py", "numba.core": HERE + "/stubs/empty.py", "numba.core.types": HERE + "/stubs/numba_types.py",
         "numba.core.ir": HERE + "/stubs/numba_ir.py", "numba.core.controlflow": HERE + "/stubs/numba_controlflow.py",
         "numba.core.bytecode": HERE + "/stubs/numba_bytecode.py"}


def width(t): return 1 if t == "i1" else int(t[1:])
def isint(t): return t in INTS or t == "i1"
def tensor(t): return t.startswith("t")      # tf32, ti32
def elem(t): return t[1:] if tensor(t) else t


def littype(v):
    if isinstance(v, bool): return "i1"
    if isinstance(v, float): return "f64"
    for w in (8, 16, 32, 64):
        if -(1 << (w - 1)) <= v < (1 << (w - 1)): return "i%d" % w
    return None


def restype(op, a, b):
    """(operation type, result type) or None when the programs has no such typing"""
    if op in CMP:
        if tensor(a) or tensor(b): return None
        t = a if a == b else ("i%d" % max(width(a), width(b)) if isint(a) and isint(b) else None)
        return (t, "i1") if t else None
    if op in ("lshift", "rshift"):
        if not (isint(a) and isint(b)) or a == "i1": return None
        return (a, a) if width(b) <= width(a) else None
    if op in ("and_", "xor", "or_"):
        if a == b == "i1": return "i1", "i1"
        if not (isint(a) and isint(b)): return None
    if a == b == "i1": return "i64", "i64"
    if a == b: return a, a
    if isint(a) and isint(b): t = "i%d" % max(width(a), width(b)); return t, t
    return None


# ---- meaning: expression trees
def ext(e, t, to):
    if t == to or not isint(t): return e
    if e[0] == "int": return e
    return (("zext" if t == "i1" else "sext"), t, to, e)


def binop(op, a, ta, b, tb, T):
    return norm((op, T, ext(a, ta, T), ext(b, tb, T)))


COMM = ("add", "mul", "and_", "or_", "xor", "eq", "ne")


def norm(e):
    """canonical form: chained extensions merged, commutative operands ordered, comparisons reduced to lt/le/eq/ne on integer values"""
    if e[0] in ("sext", "zext"):
        k, t, to, x = e
        if x[0] == "sext" and k == "sext" or x[0] == "zext" and k in ("zext", "sext"): return (x[0], x[1], to, x[3])
        if x[0] == "int": return x
        return e
    if e[0] in ("divsi", "remsi") and all(x[0] == "zext" or (x[0] == "int" and x[1] >= 0) for x in e[2:]):
        return ("floordiv" if e[0] == "divsi" else "mod",) + e[1:]          # both operands are not negative
    if e[0] in COMM and len(e) == 4 and repr(e[3]) < repr(e[2]): return (e[0], e[1], e[3], e[2])
    return e


class Meaning:
    """evaluates a program; inputs are atoms, except those given an integer (loop bounds)"""
    def __init__(self, types, ints): self.types, self.ints = types, ints

    def ev(self, e, env):
        """(tree, type, literal value or None)"""
        if isinstance(e, ast.Name): return env[e.id]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            v = -e.operand.value; return ("int", v) if not isinstance(v, float) else ("float", v), littype(v), v
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, bool): return ("int", int(v)), "i1", v
            if isinstance(v, float): return ("float", v), "f64", v
            return ("int", v), littype(v), v
        if isinstance(e, ast.Call):
            a, t, _ = self.ev(e.args[0], env)
            to = e.func.id.lower()
            return cast(a, t, to), to, None
        if isinstance(e, ast.BinOp): op, l, r = OPS[type(e.op)], e.left, e.right
        else: op, l, r = OPS[type(e.ops[0])], e.left, e.comparators[0]
        (a, ta, va), (b, tb, vb) = self.ev(l, env), self.ev(r, env)
        if va is not None and vb is not None and isint(ta) and isint(tb) and not isinstance(va, bool) and not isinstance(vb, bool) and op not in CMP:
            import operator
            v = getattr(operator, op)(va, vb)
            T = littype(v)
            return binop(op, a, ta, b, tb, T), T, v
        T, res = restype(op, ta, tb)
        if op in CMP: return cmp(op, a, ta, b, tb, T), "i1", None
        return binop(op, a, ta, b, tb, T), res, None

    def run(self, stmts, env):
        for s in stmts:
            if isinstance(s, ast.Assign): env[s.targets[0].id] = self.ev(s.value, env)
            elif isinstance(s, ast.Return): return self.ev(s.value, env)
            elif isinstance(s, ast.If):
                c = self.ev(s.test, env)[0]
                e1, e2 = dict(env), dict(env)
                r1, r2 = self.run(s.body, e1), self.run(s.orelse, e2)
                if r1 is not None: return ite(c, r1[0], r2[0]), r1[1], None
                for k in set(e1) | set(e2):
                    if k in e1 and k in e2: env[k] = e1[k] if e1[k] == e2[k] else (ite(c, e1[k][0], e2[k][0]), e1[k][1], None)
                    else: env.pop(k, None)
            elif isinstance(s, ast.For):
                b = []
                for a in s.iter.args:
                    x = self.ev(a, env)
                    b.append(x[2] if x[2] is not None else self.ints[a.id])
                for i in range(*b):
                    env[s.target.id] = (("int", i), "i64", None)
                    env2 = dict(env)
                    self.run(s.body, env2)
                    for k in env:
                        env[k] = env2[k]
        return None


def ite(c, a, b): return a if a == b else ("ite", c, a, b)


def cmp(op, a, ta, b, tb, T):
    """comparison of the integer values of the operands"""
    if not isint(T): return flip(op, "f", a, b)
    return flip(op, "z", value(a, ta), value(b, tb))


def value(e, t):
    """the integer a value of a type denotes"""
    if e[0] == "int": return e
    if e[0] in ("sext", "zext"): return ("val", "u" if e[0] == "zext" else "s", e[3])
    return ("val", "u" if t == "i1" else "s", e)


def flip(op, dom, a, b):
    if op == "gt": op, a, b = "lt", b, a
    if op == "ge": op, a, b = "le", b, a
    if op in ("eq", "ne") and repr(b) < repr(a): a, b = b, a
    return (op, dom, a, b)


def cast(a, t, to):
    if isint(t) and isint(to):
        if width(t) > width(to): return ("trunc", t, to, a)
        return norm(ext(a, t, to))
    if isint(t): return ("itof", "u" if t == "i1" else "s", t, to, a)
    return ("ftoi", "u" if to == "i1" else "s", t, to, a)


# ---- translation to the IR
class Build:
    def __init__(self, ai, src, types, direct=False):
        self.ai, self.types, self.direct = ai, dict(types), direct
        self.ir, self.nt = ai.module("numba.core.ir"), ai.module("numba.core.types")
        self.fn = ast.parse(src).body[0]
        self.names, self.vars, self.typemap, self.version = [a.arg for a in self.fn.args.args], {}, {}, {}
        self.blocks, self.order, self.succ, self.loops, self.defs = {}, [], {}, [], {}
        self.off, self.tmp, self.tensor = 0, 0, {}
        self.meaning = Meaning(types, {})
        self.depth = 0
        self.lits = {}
        self.cur = None
        self.cache = {}

    def mk(self, cls, *args, **kw): return self.ai.call(self.ai.getattr(self.ir, cls, None), list(args), kw, None)

    def loc(self, n): return self.mk("Loc", "f.py", getattr(n, "lineno", 1), getattr(n, "col_offset", 0))

    def type(self, t):
        if t not in self.cache:
            g = lambda n: self.ai.getattr(self.nt, n, None)
            if t == "i1": v = g("boolean")
            elif isint(t): v = g("int" + t[1:])
            elif tensor(t): v = self.ai.call(g("Array"), [self.type(elem(t)), 1], {}, None)
            else: v = g("float" + t[1:])
            self.cache[t] = v
        return self.cache[t]

    def literal(self, t):
        """a literal type is not the same object as the type it is a literal of"""
        if t == "i1": return self.ai.call(self.ai.getattr(self.nt, "Boolean", None), [], {}, None)
        if isint(t): return self.ai.call(self.ai.getattr(self.nt, "Integer", None), [width(t)], {}, None)
        return self.type(t)

    def var(self, name, n, t, lit=False, temp=False):
        if name not in self.vars:
            self.vars[name] = self.mk("Var", name, self.loc(n), temp)
            self.typemap[name] = self.literal(t) if lit and t else (self.type(t) if isinstance(t, str) else t)
        return self.vars[name]

    def temp(self, n, t, lit=False):
        self.tmp += 1
        return self.var("$%dt.%d" % (self.off, self.tmp), n, t, lit, True)

    def block(self, n, off):
        b = VList()
        self.blocks[off] = (b, n)
        self.order.append(off)
        self.succ.setdefault(off, [])
        self.cur, self.off = b, off

    def assign(self, value, target, n, used=()):
        self.cur.items.append(self.mk("Assign", value, target, self.loc(n), VList(list(used))))
        self.defs.setdefault(target.attrs["name"], []).append(value)
        return target

    def target(self, name, n, t, lit):
        """in straight-line code a second assignment makes a new version"""
        if self.depth == 0 and name in self.version:
            self.version[name] += 1
            full = "%s.%d" % (name, self.version[name])
        else:
            self.version.setdefault(name, 0)
            full = name if not self.version[name] else "%s.%d" % (name, self.version[name])
        return self.var(full, n, t, lit)

    def use(self, name):
        v = self.version.get(name, 0)
        return self.vars[name if not v else "%s.%d" % (name, v)]

    def expr(self, e, env):
        """(variable, type, literal)"""
        if isinstance(e, ast.Name):
            v = self.use(e.id)
            return v, env[e.id][1], env[e.id][2]
        if isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp):
            _, t, v = self.meaning.ev(e, {})
            return self.assign(self.mk("Const", v, self.loc(e)), self.temp(e, t, True), e), t, v
        if isinstance(e, ast.Call):
            a, t, _ = self.expr(e.args[0], env)
            to = e.func.id.lower()
            g = self.temp(e, None)
            cls = self.ai.getattr(self.ai.module("heir.mlir.types"), e.func.id, None)
            self.assign(self.mk("Global", e.func.id, cls, self.loc(e)), g, e)
            return self.assign(self.mk("Expr", "call", self.loc(e), func=g, args=VList([a])), self.temp(e, to), e, [g, a]), to, None
        if isinstance(e, ast.BinOp): op, l, r = OPS[type(e.op)], e.left, e.right
        else: op, l, r = OPS[type(e.ops[0])], e.left, e.comparators[0]
        (a, ta, va), (b, tb, vb) = self.expr(l, env), self.expr(r, env)
        dummy = {"a": (("v",), ta, va), "b": (("w",), tb, vb)}
        if va is not None: dummy["a"] = (("int", va), ta, va)
        if vb is not None: dummy["b"] = (("int", vb), tb, vb)
        new = ast.BinOp(ast.Name("a"), e.op, ast.Name("b")) if isinstance(e, ast.BinOp) else ast.Compare(ast.Name("a"), e.ops, [ast.Name("b")])
        _, t, v = self.meaning.ev(new, dummy)
        ex = self.mk("Expr", "binop", self.loc(e), fn=Ext("operator." + op), lhs=a, rhs=b)
        return self.assign(ex, self.temp(e, t, v is not None), e, [a, b]), t, v

    def stmts(self, ss, env, off):
        """appends blocks; returns the next free offset, or None when control does not come out"""
        for s in ss:
            if isinstance(s, ast.Assign):
                v, t, lit = self.expr(s.value, env)
                n = s.targets[0].id
                if n in env and self.depth: t, lit = env[n][1], None
                if self.direct and isinstance(s.value, (ast.BinOp, ast.Compare, ast.Constant)):
                    # without the intermediate temporary
                    last = self.cur.items.pop()
                    del self.vars[v.attrs["name"]], self.typemap[v.attrs["name"]]
                    self.assign(last.attrs["value"], self.target(n, s, t, lit is not None), s, [x for x in last.attrs["used"].items])
                    env[n] = (None, t, lit)
                    continue
                self.assign(v, self.target(n, s, t, lit is not None), s, [v])
                env[n] = (None, t, lit)
            elif isinstance(s, ast.Return):
                v, t, _ = self.expr(s.value, env)
                r = self.temp(s, t)
                self.assign(self.mk("Expr", "cast", self.loc(s), value=v), r, s, [v])
                self.cur.items.append(self.mk("Return", r, self.loc(s)))
                self.ret = t
                return None
            elif isinstance(s, ast.If):
                c, _, _ = self.expr(s.test, env)
                g = self.temp(s, None)
                self.assign(self.mk("Global", "bool", Ext("builtins.bool"), self.loc(s)), g, s)
                p = self.assign(self.mk("Expr", "call", self.loc(s), func=g, args=VList([c])), self.temp(s, "i1"), s, [g, c])
                here, at = self.cur, self.off
                t_off, f_off = off + 10, off + 20
                join = off + 30
                here.items.append(self.mk("Branch", p, t_off, f_off, self.loc(s)))
                self.succ[at] = [t_off, f_off]
                self.depth += 1
                outs = []
                for o, body in ((t_off, s.body), (f_off, s.orelse)):
                    self.block(body[0], o)
                    e2 = dict(env)
                    if self.stmts(body, e2, o) is not None:
                        self.cur.items.append(self.mk("Jump", join, self.loc(s)))
                        self.succ[o] = [join]
                        outs.append(e2)
                self.depth -= 1
                if not outs: return None
                for k in outs[0]:
                    if all(k in e for e in outs): env[k] = (None, outs[0][k][1], None)
                self.block(s, join)
                off = join
            elif isinstance(s, ast.For):
                g = self.temp(s, None)
                self.assign(self.mk("Global", "range", Ext("builtins.range"), self.loc(s)), g, s)
                args = []
                for a in s.iter.args:
                    # a literal bound is passed as a variable holding a constant
                    args.append(self.expr(a, env)[0])
                rt = self.ai.call(self.ai.getattr(self.nt, "RangeType", None), [self.type("i64")], {}, None)
                call = self.assign(self.mk("Expr", "call", self.loc(s), func=g, args=VList(args)), self.temp(s, rt), s, [g] + args)
                it = self.assign(self.mk("Expr", "getiter", self.loc(s), value=call), self.temp(s, rt), s, [call])
                h_off, b_off, n_off = off + 10, off + 20, off + 30
                phi0 = self.assign(it, self.temp(s, rt), s, [it])
                self.cur.items.append(self.mk("Jump", h_off, self.loc(s)))
                entry = self.off
                self.succ[entry] = [h_off]
                self.block(s, h_off)
                n1 = self.assign(self.mk("Expr", "iternext", self.loc(s), value=phi0), self.temp(s, None), s, [phi0])
                first = self.assign(self.mk("Expr", "pair_first", self.loc(s), value=n1), self.temp(s, "i64"), s, [n1])
                second = self.assign(self.mk("Expr", "pair_second", self.loc(s), value=n1), self.temp(s, "i1"), s, [n1])
                phi = self.assign(first, self.temp(s, "i64"), s, [first])
                self.cur.items.append(self.mk("Branch", second, b_off, n_off, self.loc(s)))
                self.succ[h_off] = [b_off, n_off]
                self.block(s.body[0], b_off)
                self.depth += 1
                e2 = dict(env)
                self.assign(phi, self.target(s.target.id, s, "i64", False), s, [phi])
                e2[s.target.id] = (None, "i64", None)
                self.stmts(s.body, e2, b_off)
                self.depth -= 1
                self.cur.items.append(self.mk("Jump", h_off, self.loc(s)))
                self.succ[self.off] = [h_off]
                self.loops.append((h_off, [entry], [h_off, b_off]))
                for k in env: env[k] = (None, e2[k][1], None) if e2[k][2] != env[k][2] or True else env[k]
                self.block(s, n_off)
                off = n_off
        return off

    def function(self):
        env = {}
        self.block(self.fn.body[0], 0)
        for i, n in enumerate(self.names):
            v = self.target(n, self.fn, self.types[n], False)
            self.assign(self.mk("Arg", n, i, self.loc(self.fn)), v, self.fn)
            env[n] = (None, self.types[n], None)
        self.stmts(self.fn.body, env, 0)
        # range(...) calls must be directly followed by getiter, phi, jump
        blocks = VDict()
        for o in self.order:
            b, n = self.blocks[o]
            blocks.d[hk(o)] = (o, self.mk("Block", b, self.loc(n)))
        desc = {}
        back = {(b, h) for h, _, body in self.loops for b in body}
        for o in reversed(self.order):
            d = set()
            for x in self.succ.get(o, []):
                if (o, x) in back: continue
                d.add(x); d |= desc.get(x, set())
            desc[o] = d
        cf = self.ai.module("numba.core.controlflow")
        mkc = lambda c, *a: self.ai.call(self.ai.getattr(cf, c, None), list(a), {}, None)
        loops = VDict()
        for h, entries, body in self.loops:
            loops.d[hk(h)] = (h, mkc("LoopInfo", h, VList(entries, kind="set"), VList(body, kind="set")))
        inner = {b for _, _, body in self.loops for b in body}
        bone = [o for o in self.order if all(o == p or o in desc[p] or p in desc[o] for p in self.order) and o not in inner]
        graph = mkc("Graph", VList(bone, kind="set"), loops, VDict([(o, VList(sorted(d), kind="set")) for o, d in desc.items()]))
        fid = Sym("func_id", truth=True)
        fid.attrs["graph"] = graph
        fid.attrs["order"] = VList([mkc("Mark", o) for o in self.order])
        f = VObj(self.ai.getattr(self.ir, "FunctionIR", None))
        f.attrs.update(func_id=fid, loc=self.loc(self.fn), arg_names=VList(self.names), blocks=blocks,
                       _definitions=VDict([(k, VList(v)) for k, v in self.defs.items()]))
        self.f = f
        return f, VDict([(k, v) for k, v in self.typemap.items() if v is not None]), self.type(self.ret)

    def assignee(self, var):
        for b, _ in self.blocks.values():
            for i in b.items:
                if i.attrs.get("value") is var and "target" in i.attrs: return i.attrs["target"]
        return None
