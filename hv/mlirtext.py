"""Reads the MLIR text the front-end emits and computes its meaning as expression trees (same normal form as pyprog)."""
import re
from .pyprog import norm, flip, ite, width, INTS


class Ill(Exception): pass          # not well-formed: no meaning
class Unknown(Exception): pass      # outside the subset read here

LOC = re.compile(r'\s*loc\("[^"]*":\d+:\d+\)|\s*loc\(\)')
BIN = {"addi": "add", "subi": "sub", "muli": "mul", "shli": "lshift", "shrsi": "rshift", "shrui": "shrui", "andi": "and_", "xori": "xor", "ori": "or_",
       "divsi": "divsi", "divui": "divui", "remsi": "remsi", "remui": "remui", "floordivsi": "floordiv", "ceildivsi": "ceildivsi", "maxsi": "maxsi", "minsi": "minsi",
       "addf": "add", "subf": "sub", "mulf": "mul", "divf": "divf", "remf": "remf"}
PREDI = {"slt": ("lt", "s"), "sge": ("ge", "s"), "sgt": ("gt", "s"), "sle": ("le", "s"), "ult": ("lt", "u"), "uge": ("ge", "u"), "ugt": ("gt", "u"), "ule": ("le", "u"),
         "eq": ("eq", ""), "ne": ("ne", "")}
PREDF = {"olt": "lt", "oge": "ge", "ogt": "gt", "ole": "le", "oeq": "eq", "une": "ne"}
CASTS = {"extsi", "extui", "trunci", "fptosi", "fptoui", "sitofp", "uitofp", "index_cast", "index_castui", "extf", "truncf"}
VAL = r"%[\w.$]+(?:#\d+)?"


def inttype(t): return re.fullmatch(r"i\d+", t) is not None
def floattype(t): return re.fullmatch(r"f\d+", t) is not None
def elem(t):
    m = re.fullmatch(r"tensor<(?:\?x|\d+x)*([if]\d+)>", t)
    return m.group(1) if m else t


class Reader:
    def __init__(self, text, args):
        self.lines = [l.strip() for l in LOC.sub("", text).split("\n")]
        self.lines = [l for l in self.lines if l]
        self.args, self.pos, self.steps = args, 0, 0

    def run(self):
        m = re.fullmatch(r"func\.func @[\w.$]+\((.*)\) -> \((.*)\) \{", self.lines[0]) if self.lines else None
        if not m: raise Unknown("function head")
        env = {}
        if m.group(1):
            for a in re.split(r",\s*(?=%)", m.group(1)):
                q = re.match(r"(%[\w.$]+):\s*([\w<>?]+)", a.strip())
                if not q: raise Unknown("argument " + a)
                env[q.group(1)] = (self.args[q.group(1)[1:]], q.group(2))
        if self.lines[-1] != "}": raise Ill("the function is not closed")
        body, end = self.region(1)
        if end != len(self.lines) - 1: raise Ill("text after the end of the function")
        kind, vals = self.exec(body, env, "func.return")
        if [t for _, t in vals] != [x.strip() for x in m.group(2).split(",")]: raise Ill("the returned type is not the declared one")
        return vals

    def region(self, i):
        """list of statements up to the closing brace; nested regions become lists"""
        out = []
        while i < len(self.lines):
            l = self.lines[i]
            if l.startswith("}"): return out, i
            if l.startswith("^"): raise Ill("a block label outside a block")
            if l.endswith("{"):
                a, j = self.region(i + 1)
                if j >= len(self.lines): raise Ill("open region")
                b = None
                if self.lines[j] == "} else {":
                    b, j = self.region(j + 1)
                    if j >= len(self.lines): raise Ill("open region")
                if self.lines[j] != "}": raise Unknown(self.lines[j])
                out.append((l, a, b)); i = j + 1
            else:
                out.append(l); i += 1
        return out, i

    def get(self, env, v, t=None):
        if v not in env: raise Ill("%s is used before it is defined" % v)
        if t is not None and env[v][1] != t: raise Ill("%s has type %s but is used as %s" % (v, env[v][1], t))
        return env[v][0]

    def define(self, env, v, val):
        if v in env: raise Ill("%s is defined twice" % v)
        env[v] = val

    def exec(self, body, env, term):
        for k, s in enumerate(body):
            last = k == len(body) - 1
            self.steps += 1
            if self.steps > 20000: raise Unknown("size")
            if isinstance(s, tuple): self.nested(s, env); continue
            m = re.fullmatch(r"(func\.return|scf\.yield|affine\.yield)(?: (.*?) : (.*))?", s)
            if m:
                if m.group(1) != term: raise Ill("%s in the wrong place" % m.group(1))
                if not last: raise Ill("operations after %s" % m.group(1))
                if m.group(2) is None: return term, []
                vs, ts = [x.strip() for x in m.group(2).split(",")], [x.strip() for x in m.group(3).split(",")]
                if len(vs) != len(ts): raise Ill("%d values with %d types" % (len(vs), len(ts)))
                return term, [(self.get(env, v, t), t) for v, t in zip(vs, ts)]
            self.op(s, env)
        if term == "func.return": raise Ill("the function does not return")
        return term, []

    def op(self, s, env):
        m = re.fullmatch(r"(%%[\w.$]+) = ([\w.]+) (.*)" % (), s)
        if not m: raise Unknown(s)
        res, op, rest = m.groups()
        if not op.startswith("arith."): raise Unknown(op)
        op = op[6:]
        if op == "constant":
            q = re.fullmatch(r"(\S+)(?: : (\S+))?", rest)
            if not q: raise Unknown(rest)
            v, t = q.groups()
            if v in ("true", "false"):
                if t not in (None, "i1"): raise Ill("%s of type %s" % (v, t))
                self.define(env, res, (("int", int(v == "true")), "i1")); return
            if re.fullmatch(r"-?\d+", v):
                if not t or not (inttype(t) or t == "index"): raise Ill("integer constant of type %s" % t)
                if inttype(t) and not -(1 << (width(t) - 1)) <= int(v) < (1 << width(t)): raise Ill("%s does not fit %s" % (v, t))
                n = int(v)
                if t == "i1": n &= 1
                self.define(env, res, (("int", n), t)); return
            if re.fullmatch(r"[-+]?\d+\.\d*(?:[eE][-+]?\d+)?", v):
                if not t or not floattype(t): raise Ill("float constant of type %s" % t)
                self.define(env, res, (("float", float(v)), t)); return
            raise Ill("constant %s cannot be read" % v)
        if op in BIN:
            q = re.fullmatch(r"(%s), (%s) : (\S+)" % (VAL, VAL), rest)
            if not q: raise Ill("malformed operands: " + rest)
            a, b, t = q.groups()
            e = elem(t)
            if (op[-1] == "f") != floattype(e): raise Ill("arith.%s on %s" % (op, t))
            x, y = self.get(env, a, t), self.get(env, b, t)
            self.define(env, res, (norm((BIN[op], t, x, y)), t)); return
        if op in ("cmpi", "cmpf"):
            q = re.fullmatch(r"(\w+), (%s), (%s) : (\S+)" % (VAL, VAL), rest)
            if not q: raise Ill("malformed operands: " + rest)
            p, a, b, t = q.groups()
            x, y = self.get(env, a, t), self.get(env, b, t)
            if op == "cmpf":
                if not floattype(elem(t)): raise Ill("cmpf on %s" % t)
                self.define(env, res, (flip(PREDF.get(p, p), "f", x, y), "i1")); return
            if not inttype(elem(t)): raise Ill("cmpi on %s" % t)
            if p not in PREDI: raise Ill("predicate " + p)
            o, s2 = PREDI[p]
            self.define(env, res, (flip(o, "z", self.val(x, t, s2), self.val(y, t, s2)), "i1")); return
        if op in CASTS:
            q = re.fullmatch(r"(%s) : (\S+) to (\S+)" % VAL, rest)
            if not q: raise Ill("malformed cast: " + rest)
            a, t, u = q.groups()
            x = self.get(env, a, t)
            if op in ("extsi", "extui", "trunci"):
                if not (inttype(t) and inttype(u)): raise Ill("arith.%s from %s to %s" % (op, t, u))
                if (op == "trunci") != (width(t) > width(u)) or width(t) == width(u): raise Ill("arith.%s from %s to %s" % (op, t, u))
                if op == "trunci": v = ("trunc", t, u, x)
                elif x[0] == "int": v = ("int", -x[1] if t == "i1" and op == "extsi" else x[1])
                else: v = norm(("sext" if op == "extsi" else "zext", t, u, x))
            elif op in ("fptosi", "fptoui"):
                if not (floattype(t) and inttype(u)): raise Ill("arith.%s from %s to %s" % (op, t, u))
                v = ("ftoi", op[4], t, u, x)
            elif op in ("sitofp", "uitofp"):
                if not (inttype(t) and floattype(u)): raise Ill("arith.%s from %s to %s" % (op, t, u))
                v = ("itof", op[0], t, u, x)
            elif op == "index_cast":
                if (t == "index") == (u == "index"): raise Ill("index_cast from %s to %s" % (t, u))
                v = x
            else: raise Unknown(op)
            self.define(env, res, (v, u)); return
        raise Unknown("arith." + op)

    def val(self, e, t, s):
        if e[0] == "int": return ("int", -e[1] if t == "i1" and s == "s" else e[1])
        if e[0] in ("sext", "zext"):
            if e[0] == "sext" and s == "u": return ("wrapped", t, e)
            return ("val", "u" if e[0] == "zext" else "s", e[3])
        return ("val", s or ("u" if t == "i1" else "s"), e)

    def nested(self, s, env):
        head, a, b = s
        m = re.fullmatch(r"(?:(.*?) = )?scf\.if (%s)(?: -> \((.*)\))? \{" % VAL, head)
        if m:
            c = self.get(env, m.group(2), "i1")
            ts = [x.strip() for x in m.group(3).split(",")] if m.group(3) else []
            rs = [x.strip() for x in m.group(1).split(",")] if m.group(1) else []
            if len(rs) != len(ts): raise Ill("%d results with %d types" % (len(rs), len(ts)))
            v1 = self.exec(a, dict(env), "scf.yield")[1]
            v2 = self.exec(b, dict(env), "scf.yield")[1] if b is not None else []
            for v in (v1, v2):
                if [t for _, t in v] != ts and (b is not None or ts): raise Ill("yielded types %s instead of %s" % ([t for _, t in v], ts))
            for r, x, y, t in zip(rs, v1, v2, ts): self.define(env, r, (ite(c, x[0], y[0]), t))
            return
        m = re.fullmatch(r"(?:(%[\w.$]+)(?::(\d+))? = )?affine\.for (%[\w.$]+) = (\S+) to (\S+)(?: step (\S+))?(?: iter_args\((.*)\) -> \((.*)\))? \{", head)
        if m:
            res, n, iv, lo, hi, st, its, ts = m.groups()
            if b is not None: raise Ill("else of a loop")
            bound = []
            for x in (lo, hi, st or "1"):
                if re.fullmatch(r"-?\d+", x): bound.append(int(x)); continue
                if x is st: raise Ill("the step %s is not a constant" % x)
                e = self.get(env, x, "index")
                if e[0] != "int": raise Unknown("loop bound")
                bound.append(e[1])
            if bound[2] <= 0: raise Ill("step %d" % bound[2])
            names, cur, ty = [], [], [x.strip() for x in ts.split(",")] if ts else []
            for q in (its.split(",") if its else []):
                k, v = [x.strip() for x in q.split("=")]
                names.append(k)
                cur.append((self.get(env, v, ty[len(names) - 1] if len(names) <= len(ty) else None), ty[len(names) - 1] if len(names) <= len(ty) else None))
            if len(names) != len(ty) or int(n or (1 if res else 0)) != len(names): raise Ill("%s results, %d iteration arguments, %d types" % (n, len(names), len(ty)))
            for i in range(bound[0], bound[1], bound[2]):
                e = dict(env)
                self.define(e, iv, (("int", i), "index"))
                for k, v in zip(names, cur): self.define(e, k, v)
                out = self.exec(a, e, "affine.yield")[1]
                if [t for _, t in out] != ty: raise Ill("yielded types %s instead of %s" % ([t for _, t in out], ty))
                cur = out
            if res:
                if res in env: raise Ill("%s is defined twice" % res)
                if len(cur) == 1: env[res] = cur[0]
                for k, v in enumerate(cur): env["%s#%d" % (res, k)] = v
            return
        raise Unknown(head)
