"""Abstract interpreter for Python source (the front-end), over its syntax tree.

The code is never imported or run: every statement is interpreted over an abstract
domain in which values coming from outside (arguments, results of libraries and of
external programs) are opaque symbols, and everything the code itself builds (lists,
dictionaries, objects, strings with symbolic parts, closures) is tracked.  A condition
on an opaque value, the failure of a call that leaves the repository, and the number of
elements of an opaque collection are choices; all of them are enumerated, each path
with consistent choices.  A construct outside the modelled subset makes the path
undecided (reported as such, never an alarm).
"""
import ast, os, builtins
from . import facts

MAXCALLS = 60
CONST = {"sys.version_info": (3, 12, 0), "sys.platform": "linux", "sys.builtin_module_names": ("posix", "sys", "builtins")}


class Undecided(Exception):
    pass


class PyExc(Exception):
    def __init__(self, value, node=None, why=""):
        self.value, self.node, self.why = value, node, why


class _Ret(Exception):
    def __init__(self, v): self.v = v


class _Brk(Exception): pass
class _Cont(Exception): pass


class CalledProcessError(Exception): pass
class ExternalFault(Exception): pass


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
EXTEXC = {"subprocess.CalledProcessError": CalledProcessError, "subprocess.SubprocessError": CalledProcessError,
          "subprocess.TimeoutExpired": CalledProcessError}


class Sym:
    def __init__(self, label, truth=None, isa=None, elems=None):
        self.label, self.truth, self.isa, self.elems = label, truth, isa or {}, elems
        self.attrs = {}
    def __repr__(self): return "<%s>" % self.label


class Ext:
    """a name that lives outside the repository (module, function, class)"""
    def __init__(self, name): self.name = name
    def __repr__(self): return "Ext(%s)" % self.name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)


class VList:
    def __init__(self, items=(), owner=None, kind="list"):
        self.items, self.owner, self.kind = list(items), owner, kind
    def __repr__(self): return "%s%r" % (self.kind, self.items)


class VDict:
    def __init__(self, items=(), owner=None):
        self.d, self.owner = {}, owner
        for k, v in items: self.d[hk(k)] = (k, v)
    def items(self): return list(self.d.values())
    def __repr__(self): return "dict%r" % (self.items(),)


class VObj:
    def __init__(self, cls, attrs=None, name=None, owner=None):
        self.cls, self.attrs, self.name, self.owner = cls, attrs if attrs is not None else {}, name, owner
    def __repr__(self): return "<%s object%s>" % (self.cls.name if self.cls else "?", " " + self.name if self.name else "")


class VClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.fields, self.is_dc = [], False
    def __repr__(self): return "<class %s>" % self.name
    def mro(self):
        out = [self]
        for b in self.bases:
            for x in (b.mro() if isinstance(b, VClass) else [b]):
                if x not in out: out.append(x)
        return out


class BExc:
    """builtin exception class"""
    def __init__(self, c): self.c = c
    def __eq__(self, o): return isinstance(o, BExc) and self.c is o.c
    def __hash__(self): return hash(self.c)
    def __repr__(self): return self.c.__name__
    @property
    def name(self): return self.c.__name__


class VFunc:
    def __init__(self, name, node, env, mod, defaults, kwdefaults, cls=None):
        self.name, self.node, self.env, self.mod = name, node, env, mod
        self.defaults, self.kwdefaults, self.cls, self.kind = defaults, kwdefaults, cls, None
        self.attrs = {}
    def __repr__(self): return "<function %s>" % self.name


class VBound:
    def __init__(self, f, self_): self.f, self.self_ = f, self_
    def __repr__(self): return "<bound %r of %r>" % (self.f, self.self_)


class VPartial:
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, args, kw


class VSuper:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class VMeth:
    """method of a modelled builtin value"""
    def __init__(self, obj, name): self.obj, self.name = obj, name


class Mod:
    def __init__(self, name, path): self.name, self.path, self.env = name, path, None


class Frame:
    def __init__(self, mod, parent=None, locs=None, fn=None):
        self.mod, self.parent, self.locs, self.vars, self.fn = mod, parent, locs, {}, fn
        self.globals_, self.nonlocals = set(), set()


def hk(v):
    if isinstance(v, (str, int, float, bool, type(None), bytes)): return (type(v).__name__ if not isinstance(v, (bool, int, float)) else "n", v)
    if isinstance(v, Sym): return ("sym", v.label)
    if isinstance(v, Ext): return ("ext", v.name)
    if isinstance(v, tuple): return ("t",) + tuple(hk(x) for x in v)
    return ("id", id(v))


def show(v):
    if isinstance(v, Sym): return "\u27e6%s\u27e7" % v.label
    if isinstance(v, Ext): return v.name
    if isinstance(v, str): return v
    if isinstance(v, VList): return "[" + ", ".join(show(x) if not isinstance(x, str) else repr(x) for x in v.items) + "]"
    if isinstance(v, tuple): return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, VObj): return "\u27e6%s\u27e7" % (v.name or v.cls.name)
    if isinstance(v, (VClass, VFunc, BExc)): return v.name
    return str(v)


def opaque(s): return isinstance(s, str) and "\u27e6" in s


_trees = {}


def tree(path):
    if path not in _trees: _trees[path] = ast.parse(open(path).read(), path)
    return _trees[path]


def assigned(fn):
    """local names of a function body (not descending into nested scopes)"""
    out, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: tgt(x)
        elif isinstance(t, ast.Starred): tgt(t.value)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr): tgt(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)): tgt(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None: tgt(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        elif isinstance(n, ast.NamedExpr): tgt(n.target)
        elif isinstance(n, ast.Global): glob.update(n.names)
        elif isinstance(n, ast.Nonlocal): nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        for c in ast.iter_child_nodes(n): go(c)
    for s in fn.body: go(s)
    return out - glob - nonl, glob, nonl


class PyAI:
    """one path; `choices` is the prefix of decisions to replay"""

    def __init__(self, choices=(), stubs=None, hook=None, faulty=None, maxfaults=1, root=None, attrhook=None, maxiter=2):
        self.pre, self.made, self.memo = list(choices), [], {}
        self.stubs, self.hook, self.faulty = stubs or {}, hook, faulty
        self.attrhook = attrhook
        self.maxfaults, self.faults = maxfaults, []
        self.root = root or os.path.join(facts.REPO, "frontend")
        self.mods, self.events, self.mut, self.unbound = {}, [], [], []
        self.count, self.depth, self.steps, self.maxiter = {}, 0, 0, maxiter
        self.notes = []
        self.cur = None

    # ---- choices
    def choose(self, key, n, note=None):
        if key in self.memo: return self.memo[key]
        i = len(self.made)
        v = self.pre[i] if i < len(self.pre) else 0
        self.made.append((n, v)); self.memo[key] = v
        if len(self.made) > 400: raise Undecided("too many choices")
        if note is None: note = key
        self.notes.append((note, v))
        return v

    def fresh(self, base):
        self.count[base] = self.count.get(base, 0) + 1
        k = self.count[base]
        return base if k == 1 else "%s#%d" % (base, k)

    def exc(self, cls, *args, node=None, why=""):
        o = VObj(BExc(cls) if isinstance(cls, type) else cls)
        o.attrs["args"] = tuple(args)
        return PyExc(o, node, why)

    # ---- modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        path = self.stubs.get(name)
        if path is None:
            p = os.path.join(self.root, *name.split("."))
            if os.path.isfile(p + ".py"): path = p + ".py"
            elif os.path.isdir(p): path = os.path.join(p, "__init__.py")
        if path is None: return Ext(name)
        m = Mod(name, path)
        self.mods[name] = m
        m.env = Frame(m)
        m.env.vars["__name__"] = name
        m.env.vars["__file__"] = "/frontend/" + name.replace(".", "/") + ".py"
        if name == "heir" and name not in self.stubs: return m       # the package's import hook is not interpreted
        if os.path.isfile(path):
            for s in tree(path).body: self.stmt(s, m.env)
        return m

    def imp(self, frame, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                m = self.module(a.name)
                if a.asname: frame.vars[a.asname] = m
                else: frame.vars[a.name.split(".")[0]] = self.module(a.name.split(".")[0])
            return
        base = n.module or ""
        if n.level:
            parts = frame.mod.name.split(".")
            if not frame.mod.path.endswith("__init__.py"): parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        m = self.module(base)
        for a in n.names:
            if a.name == "*":
                if isinstance(m, Ext): continue
                al = m.env.vars.get("__all__")
                for k, v in m.env.vars.items():
                    if (k in [show(x) for x in al.items] if isinstance(al, VList) else not k.startswith("_")): frame.vars[k] = v
                continue
            if isinstance(m, Ext):
                full = base + "." + a.name
                sub = self.module(full)
                v = sub if not isinstance(sub, Ext) else self.extname(full)
            elif a.name in m.env.vars: v = m.env.vars[a.name]
            else:
                v = self.module(base + "." + a.name)
                if isinstance(v, Ext):
                    if base in self.stubs or not base.startswith("heir"): raise self.exc(ImportError, base + "." + a.name, node=n)
            frame.vars[a.asname or a.name] = v

    def extname(self, full):
        if full in EXTEXC: return BExc(EXTEXC[full])
        return Ext(full)

    # ---- names
    def lookup(self, name, f, node):
        fr = f
        while fr is not None:
            if name in fr.vars: return fr.vars[name]
            if fr.locs is not None and name in fr.locs:
                self.unbound.append((name, node, fr))
                raise self.exc(UnboundLocalError, name, node=node)
            if fr.fn is not None and name in fr.globals_:
                fr = fr.mod.env; continue
            fr = fr.parent
        g = f.mod.env
        if name in g.vars: return g.vars[name]
        if name in EXC: return BExc(EXC[name])
        if hasattr(builtins, name): return Ext("builtins." + name)
        self.unbound.append((name, node, f))
        raise self.exc(NameError, name, node=node)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            fr = f
            if t.id in f.globals_: fr = f.mod.env
            elif t.id in f.nonlocals:
                fr = f.parent
                while fr is not None and t.id not in fr.vars: fr = fr.parent
                if fr is None: raise Undecided("nonlocal")
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.seq(v, t, len(t.elts))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                parts = items[:i] + [VList(items[i:len(items) - k])] + items[len(items) - k:]
                for e, x in zip(t.elts, parts): self.assign(e.value if isinstance(e, ast.Starred) else e, x, f)
                return
            if len(items) != len(t.elts): raise self.exc(ValueError, "unpack", node=t)
            for e, x in zip(t.elts, items): self.assign(e, x, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, f), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            self.setitem(o, t, v, f)
        else: raise Undecided("target %s" % type(t).__name__)

    def setattr(self, o, name, v, node):
        if isinstance(o, VObj):
            if o.owner: self.mut.append((o.owner, node, "attribute " + name))
            o.attrs[name] = v
        elif isinstance(o, (Sym, VFunc)): o.attrs[name] = v
        elif isinstance(o, VClass): o.ns[name] = v
        elif isinstance(o, Mod): o.env.vars[name] = v
        elif isinstance(o, Ext): self.event("setattr", o.name + "." + name, [v], {}, node)
        else: raise Undecided("attribute of %r" % (o,))

    def touch(self, o, node, how):
        if o.owner: self.mut.append((o.owner, node, how))

    def setitem(self, o, t, v, f):
        if isinstance(t.slice, ast.Slice): 
            if isinstance(o, VList): self.touch(o, t, "slice assignment")
            raise Undecided("slice assignment")
        k = self.ev(t.slice, f)
        if isinstance(o, VDict):
            self.touch(o, t, "item assignment"); o.d[hk(k)] = (k, v)
        elif isinstance(o, VList):
            self.touch(o, t, "item assignment")
            if not isinstance(k, int): raise Undecided("index")
            o.items[k] = v
        elif isinstance(o, (Ext, Sym)):
            nm = o.name if isinstance(o, Ext) else o.label
            self.event("setitem", nm, [k, v], {}, t)
            if isinstance(o, Sym): o.attrs["[%s]" % show(k)] = v
        else: raise Undecided("item assignment")

    def event(self, kind, label, args, kw, node):
        self.events.append((kind, label, args, kw, node))

    # ---- statements
    def block(self, body, f):
        for s in body: self.stmt(s, f)

    def stmt(self, s, f):
        self.steps += 1
        self.cur = s
        if self.steps > 60000: raise Undecided("too long")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Undecided("statement " + type(s).__name__)
        m(s, f)

    def s_Expr(self, s, f): self.ev(s.value, f)
    def s_Pass(self, s, f): pass
    def s_Import(self, s, f): self.imp(f, s)
    s_ImportFrom = s_Import
    def s_Break(self, s, f): raise _Brk()
    def s_Continue(self, s, f): raise _Cont()
    def s_Global(self, s, f): pass
    def s_Nonlocal(self, s, f): pass
    def s_Return(self, s, f): raise _Ret(self.ev(s.value, f) if s.value else None)

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets: self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None: self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name): cur = self.lookup(t.id, f, t)
        elif isinstance(t, ast.Attribute): cur = self.getattr(self.ev(t.value, f), t.attr, t)
        else: cur = self.ev(ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t), f)
        v = self.ev(s.value, f)
        if isinstance(cur, VList) and isinstance(s.op, (ast.Add, ast.BitOr)):
            self.touch(cur, s, "+=")
            cur.items.extend(self.seq(v, s)); self.dedup(cur)
            if isinstance(t, ast.Name): self.assign(t, cur, f)
            return
        self.assign(t, self.binop(s.op, cur, v, s), f)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name): f.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, f)
                if isinstance(o, (VList, VDict)): self.touch(o, t, "del")
                if isinstance(o, VDict): o.d.pop(hk(self.ev(t.slice, f)), None)
                elif isinstance(o, VList):
                    k = self.ev(t.slice, f)
                    if not isinstance(k, int): raise Undecided("del")
                    del o.items[k]
            else: raise Undecided("del")

    def s_If(self, s, f):
        self.block(s.body if self.truth(self.ev(s.test, f), s.test) else s.orelse, f)

    def s_While(self, s, f):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, f), s.test, n):
                self.block(s.orelse, f); return
            n += 1
            if n > 40: raise Undecided("loop")
            try: self.block(s.body, f)
            except _Brk: return
            except _Cont: pass

    def s_For(self, s, f):
        it = self.ev(s.iter, f)
        live = it if isinstance(it, VList) and it.kind == "list" else None
        items = live.items if live else self.seq(it, s.iter)
        i = 0
        while i < len(items):
            if i > 300: raise Undecided("loop")
            self.assign(s.target, items[i], f)
            i += 1
            try: self.block(s.body, f)
            except _Brk: return
            except _Cont: pass
        self.block(s.orelse, f)

    def s_FunctionDef(self, s, f):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own(s)):
            v = Sym(self.fresh("generator " + s.name), truth=True)
            v.attrs["_gen"] = True
        else: v = self.mkfunc(s.name, s, f)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, f)
            v = self.decorate(dv, v, d)
        f.vars[s.name] = v

    def own(self, fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.extend(ast.iter_child_nodes(n))

    def mkfunc(self, name, node, f):
        a = node.args
        ds = [self.ev(d, f) for d in a.defaults]
        ks = [self.ev(d, f) if d is not None else None for d in a.kw_defaults]
        for d in ds + ks:
            if isinstance(d, (VList, VDict)) and d.owner is None: d.owner = "a default argument of " + name
        return VFunc(name, node, f, f.mod, ds, ks)

    def decorate(self, d, v, node):
        if isinstance(d, Ext):
            n = d.name.split(".")[-1]
            if n in ("staticmethod", "classmethod", "property", "abstractmethod"):
                if isinstance(v, VFunc) and n != "abstractmethod": v.kind = n
                return v
            if n == "dataclass": v.is_dc = True; return v
            if n in ("wraps", "cache", "lru_cache", "override", "final"): return v
            return v if d.name.startswith(("numba", "typing")) else self.call(d, [v], {}, node)
        if isinstance(d, Sym):
            if d.label.startswith("dataclasses.dataclass"): v.is_dc = True; return v
            if d.label.startswith(("functools.", "numba", "typing")): return v
        return self.call(d, [v], {}, node)

    def s_ClassDef(self, s, f):
        bases = [self.ev(b, f) for b in s.bases]
        ns = Frame(f.mod, f)
        ns.fn = None
        c = VClass(s.name, bases, ns.vars, f.mod)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.fields.append((st.target.id, self.ev(st.value, f) if st.value is not None else None, st.value is not None))
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            self.stmt(st, ns)
        for v in ns.vars.values():
            if isinstance(v, VFunc): v.cls = c; v.env = f
        v = c
        for d in reversed(s.decorator_list): v = self.decorate(self.ev(d, f), v, d)
        f.vars[s.name] = v
        for b in c.mro()[1:]:
            if isinstance(b, VClass) and "__init_subclass__" in b.ns:
                self.callfn(b.ns["__init_subclass__"], [c], {}, s); break

    def s_Assert(self, s, f):
        if not self.truth(self.ev(s.test, f), s.test): raise self.exc(AssertionError, node=s)

    def s_Raise(self, s, f):
        if s.exc is None:
            cur = f
            while cur is not None and "\0exc" not in cur.vars: cur = cur.parent
            if cur is None: raise Undecided("re-raise")
            raise cur.vars["\0exc"]
        v = self.ev(s.exc, f)
        if s.cause is not None: self.ev(s.cause, f)
        if isinstance(v, (VClass, BExc)): v = self.call(v, [], {}, s)
        if isinstance(v, (Sym, Ext)):
            v = VObj(BExc(ExternalFault), {"args": (v,)})
        raise PyExc(v, s)

    def excmatch(self, e, h):
        if isinstance(h, tuple): return any(self.excmatch(e, x) for x in h)
        c = e.value.cls
        if isinstance(c, VClass):
            if isinstance(h, VClass): return h in c.mro()
            if isinstance(h, BExc):
                for b in c.mro():
                    if isinstance(b, BExc) and issubclass(b.c, h.c): return True
                return False
            return False
        if isinstance(h, BExc): return issubclass(c.c, h.c)
        if isinstance(h, VClass): return False
        if isinstance(h, Ext): return bool(self.choose(("exc", h.name, id(e.node)), 2))
        raise Undecided("handler")

    def s_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.excmatch(e, self.ev(h.type, f)):
                        old = f.vars.get("\0exc")
                        f.vars["\0exc"] = e
                        if h.name: self.assign(ast.Name(h.name, ast.Store()), e.value, f)
                        try: self.block(h.body, f)
                        except PyExc as e2:
                            if e2.node is None: e2.node = h
                            raise
                        finally:
                            if h.name: f.vars.pop(h.name, None)
                            if old is None: f.vars.pop("\0exc", None)
                            else: f.vars["\0exc"] = old
                        break
                else: raise
            else: self.block(s.orelse, f)
        except Undecided: raise
        except (PyExc, _Ret, _Brk, _Cont):
            self.block(s.finalbody, f)
            raise
        else: self.block(s.finalbody, f)

    def s_With(self, s, f, i=0):
        if i == len(s.items):
            self.block(s.body, f); return
        it = s.items[i]
        cm = self.ev(it.context_expr, f)
        if isinstance(cm, VObj) and self.find(cm.cls, "__enter__"):
            v = self.call(self.getattr(cm, "__enter__", s), [], {}, s)
        elif isinstance(cm, Sym):
            if "generator " in cm.label: raise Undecided("context manager written as a generator")
            self.event("enter", cm.label, [cm], {}, s)
            v = cm.attrs.get("__entered__", cm)
        else: raise Undecided("with")
        if it.optional_vars is not None: self.assign(it.optional_vars, v, f)
        try: self.s_With(s, f, i + 1)
        except Undecided: raise
        except (PyExc, _Ret, _Brk, _Cont) as e:
            ev = e.value if isinstance(e, PyExc) else None
            r = self.leave(cm, ev, s)
            if isinstance(e, PyExc) and r: return
            raise
        else: self.leave(cm, None, s)

    def leave(self, cm, exc, s):
        if isinstance(cm, VObj):
            r = self.call(self.getattr(cm, "__exit__", s), [exc.cls if exc else None, exc, None], {}, s)
            return r is not None and exc is not None and self.truth(r, s)
        self.event("exit", cm.label, [cm], {}, s)
        if cm.label.startswith("contextlib.suppress"): raise Undecided("suppress")
        return False

    def s_Match(self, s, f):
        v = self.ev(s.subject, f)
        for c in s.cases:
            if self.pat(c.pattern, v, f) and (c.guard is None or self.truth(self.ev(c.guard, f), c.guard)):
                self.block(c.body, f); return

    def pat(self, p, v, f):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, f), p), p)
        if isinstance(p, ast.MatchSingleton): return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pat(p.pattern, v, f): return False
            if p.name: f.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr): return any(self.pat(x, v, f) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, f)
            if not self.isinst(v, c): return False
            if p.patterns:
                nm = c.name.split(".")[-1]
                if len(p.patterns) == 1 and nm in ("str", "int", "float", "bool", "list", "tuple"): 
                    if not self.pat(p.patterns[0], v, f): return False
                else: raise Undecided("positional class pattern")
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                try: a = self.getattr(v, k, p)
                except PyExc: return False
                if not self.pat(q, a, f): return False
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, str): return False
            items = self.seq(v, p)
            if any(isinstance(x, ast.MatchStar) for x in p.patterns): raise Undecided("star pattern")
            return len(items) == len(p.patterns) and all(self.pat(q, x, f) for q, x in zip(p.patterns, items))
        raise Undecided("pattern")

    # ---- truth and comparison
    def truth(self, v, node=None, n=0):
        if isinstance(v, Sym):
            if v.truth is not None: return v.truth
            return not self.choose(("truth", v.label, 0), 2, "not " + v.label)
        if isinstance(v, VList): return bool(v.items)
        if isinstance(v, VDict): return bool(v.d)
        if isinstance(v, VObj):
            if self.find(v.cls, "__bool__"): return self.truth(self.call(self.getattr(v, "__bool__", node), [], {}, node))
            if self.find(v.cls, "__len__"): return self.truth(self.call(self.getattr(v, "__len__", node), [], {}, node))
            return True
        if isinstance(v, (Ext, VClass, VFunc, VBound, VPartial, BExc, Mod, VMeth)): return True
        return bool(v)

    def is_(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.label == b.label: return True
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if o is None:
                if s.truth: return False
                return bool(self.choose(("isnone", s.label), 2, s.label + " is None"))
            if isinstance(o, (bool,)): return bool(self.choose(("is", s.label, o), 2))
            return False if isinstance(o, (VObj, VList, VDict, VFunc, VClass)) else bool(self.choose(("is", s.label, show(o)), 2))
        if isinstance(a, (Ext, BExc)): return a == b
        if isinstance(a, (VObj, VList, VDict, VClass, VFunc)) or isinstance(b, (VObj, VList, VDict, VClass, VFunc)): return a is b
        return a is b or (type(a) == type(b) and a == b)

    def compare(self, op, a, b, node):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return not self.is_(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return (not r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, node)
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(a, (Sym, VObj, Ext)) or isinstance(b, (Sym, VObj, Ext)) or opaque(a) or opaque(b):
            if isinstance(a, VObj) or isinstance(b, VObj): raise Undecided("ordering of objects")
            k = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            neg = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
            key = "%s %s %s" % (show(a), k, show(b)); alt = "%s %s %s" % (show(a), neg[k], show(b))
            if ("cmp", alt) in self.memo: return not self.memo[("cmp", alt)] == 0
            return self.choose(("cmp", key), 2, "not " + key) == 0
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError: raise self.exc(TypeError, node=node)

    def eq(self, a, b, node):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.label == b.label: return True
        if isinstance(a, VObj) and isinstance(a.cls, VClass):
            m = self.find(a.cls, "__eq__")
            if m and isinstance(m, VFunc):
                return self.truth(self.call(VBound(m, a), [b], {}, node), node)
            if a.cls.is_dc and isinstance(b, VObj) and a.cls is b.cls:
                return all(self.eq(a.attrs.get(n), b.attrs.get(n), node) for n, _, _ in a.cls.fields)
            if isinstance(b, Sym): return self.choose(("eq", show(a), show(b)), 2) == 0
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym) or opaque(a) or opaque(b):
            if isinstance(a, str) and isinstance(b, str) and a == b: return True
            if (isinstance(a, Sym) and opaque(b) and b == show(a)) or (isinstance(b, Sym) and opaque(a) and a == show(b)): return True
            x, y = sorted([show(a) if not isinstance(a, str) else repr(a), show(b) if not isinstance(b, str) else repr(b)])
            return self.choose(("eq", x, y), 2, "not (%s == %s)" % (x, y)) == 0
        if isinstance(a, VList) and isinstance(b, VList):
            if a.kind != b.kind: return False
            if a.kind == "set":
                return len(a.items) == len(b.items) and all(self.contains(b, x, node) for x in a.items)
            return len(a.items) == len(b.items) and all(self.eq(x, y, node) for x, y in zip(a.items, b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y, node) for x, y in zip(a, b))
        if isinstance(a, VDict) and isinstance(b, VDict): return a.d == b.d
        if isinstance(a, (Ext, BExc)): return a == b
        if isinstance(a, (VList, VDict, VClass, VFunc, VObj, tuple)) or isinstance(b, (VList, VDict, VClass, VFunc, VObj, tuple)): return a is b
        return a == b

    def contains(self, c, x, node):
        if isinstance(c, VList): return any(self.eq(y, x, node) for y in c.items)
        if isinstance(c, tuple): return any(self.eq(y, x, node) for y in c)
        if isinstance(c, VDict):
            if hk(x) in c.d: return True
            return any(self.eq(k, x, node) for k, _ in c.items() if isinstance(k, Sym) or isinstance(x, Sym))
        if isinstance(c, str) and isinstance(x, str) and not opaque(c) and not opaque(x): return x in c
        if isinstance(c, str) and isinstance(x, str) and not opaque(x) and any(x in p for p in plain(c)): return True
        if isinstance(c, VObj):
            m = self.find(c.cls, "__contains__")
            if m: return self.truth(self.call(VBound(m, c), [x], {}, node))
            raise Undecided("in object")
        return self.choose(("in", show(x), show(c)), 2, "not (%s in %s)" % (show(x), show(c))) == 0

    def isinst(self, v, c):
        if isinstance(c, tuple): return any(self.isinst(v, x) for x in c)
        if isinstance(c, VList): return any(self.isinst(v, x) for x in c.items)
        n = c.name if hasattr(c, "name") else show(c)
        short = n.split(".")[-1]
        if isinstance(v, Sym):
            if short in v.isa: return v.isa[short]
            return self.choose(("isa", v.label, short), 2, "not isinstance(%s, %s)" % (v.label, short)) == 0
        if isinstance(v, VObj):
            if isinstance(v.cls, VClass):
                for b in v.cls.mro():
                    if b is c or b == c: return True
                    if isinstance(b, BExc) and isinstance(c, BExc) and issubclass(b.c, c.c): return True
                return short in ("object",)
            return isinstance(c, BExc) and issubclass(v.cls.c, c.c)
        if short == "Callable": return isinstance(v, (VFunc, VBound, VPartial, VClass))
        if short == "object": return True
        t = {"str": str, "int": int, "bool": bool, "float": float, "tuple": tuple, "bytes": bytes}.get(short)
        if n.startswith("builtins.") and t: return isinstance(v, t)
        if n == "builtins.list": return isinstance(v, VList) and v.kind == "list"
        if n == "builtins.set": return isinstance(v, VList) and v.kind == "set"
        if n == "builtins.dict": return isinstance(v, VDict)
        if n == "builtins.type": return isinstance(v, (VClass, BExc))
        if isinstance(v, (str, int, float, bool, type(None), VList, VDict, tuple)): return False
        if isinstance(v, Ext): return self.choose(("isa", v.name, short), 2) == 0
        return False

    # ---- collections
    def seq(self, v, node, want=None):
        if isinstance(v, VList): return list(v.items)
        if isinstance(v, tuple): return list(v)
        if isinstance(v, VDict): return [k for k, _ in v.items()]
        if isinstance(v, str):
            if opaque(v): raise Undecided("characters of an opaque string")
            return list(v)
        if isinstance(v, Sym):
            if v.elems is not None: return list(v.elems)
            if want is None:
                want = self.choose(("len", v.label), self.maxiter + 1, "number of elements of " + v.label)
            return [self.sub(v, i) for i in range(want)]
        if isinstance(v, VObj) and self.find(v.cls, "__iter__"):
            return self.seq(self.call(self.getattr(v, "__iter__", node), [], {}, node), node)
        if isinstance(v, (int, float, type(None), VFunc)): raise self.exc(TypeError, "not iterable", node=node)
        raise Undecided("iteration over %r" % (v,))

    def sub(self, v, k):
        lab = "%s[%s]" % (v.label, show(k))
        key = "[%s]" % show(k)
        if key not in v.attrs: v.attrs[key] = Sym(lab)
        return v.attrs[key]

    def dedup(self, l):
        if l.kind == "set":
            out = []
            for x in l.items:
                if not any(hk(x) == hk(y) for y in out): out.append(x)
            l.items[:] = out

    # ---- expressions
    def ev(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Undecided("expression " + type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f): return self.lookup(e.id, f, e)
    def e_List(self, e, f): return VList(self.elts(e.elts, f))
    def e_Set(self, e, f):
        l = VList(self.elts(e.elts, f), kind="set"); self.dedup(l); return l
    def e_Tuple(self, e, f): return tuple(self.elts(e.elts, f))

    def elts(self, es, f):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(self.seq(self.ev(x.value, f), x))
            else: out.append(self.ev(x, f))
        return out

    def e_Dict(self, e, f):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, f)
                if not isinstance(o, VDict): raise Undecided("**")
                d.d.update(o.d)
            else:
                kv = self.ev(k, f); d.d[hk(kv)] = (kv, self.ev(v, f))
        return d

    def e_JoinedStr(self, e, f):
        out = ""
        for p in e.values:
            if isinstance(p, ast.Constant): out += p.value
            else: out += self.fmt(p, f)
        return out

    def fmt(self, p, f):
        v = self.ev(p.value, f)
        if p.format_spec is not None:
            spec = self.e_JoinedStr(p.format_spec, f)
            if isinstance(v, (int, float, str)) and not opaque(v): return format(v, spec)
            return "\u27e6%s:%s\u27e7" % (show(v), spec)
        if p.conversion == 114: return self.repr(v)
        return self.str(v, p)

    def str(self, v, node=None):
        if isinstance(v, VObj):
            for n in ("__str__", "__repr__"):
                m = self.find(v.cls, n)
                if m:
                    r = self.call(VBound(m, v), [], {}, node)
                    return r if isinstance(r, str) else show(r)
        return show(v)

    def repr(self, v):
        return repr(v) if isinstance(v, str) else show(v)

    def e_FormattedValue(self, e, f): return self.fmt(e, f)

    def e_BoolOp(self, e, f):
        v = None
        for x in e.values:
            v = self.ev(x, f)
            t = self.truth(v, x)
            if isinstance(e.op, ast.And) and not t: return v
            if isinstance(e.op, ast.Or) and t: return v
        return v

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not): return not self.truth(v, e.operand)
        if isinstance(v, (int, float)): return -v if isinstance(e.op, ast.USub) else (~v if isinstance(e.op, ast.Invert) else +v)
        return Sym("(%s %s)" % (type(e.op).__name__, show(v)))

    def e_BinOp(self, e, f):
        return self.binop(e.op, self.ev(e.left, f), self.ev(e.right, f), e)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Add):
            if isinstance(a, VList) and isinstance(b, VList): return VList(a.items + b.items)
            if isinstance(a, VList) and isinstance(b, Sym): return VList(a.items + self.seq(b, node))
            if isinstance(b, VList) and isinstance(a, Sym): return VList(self.seq(a, node) + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, (str, Sym, Ext)) and isinstance(b, (str, Sym, Ext)): return show(a) + show(b)
                raise self.exc(TypeError, "str +", node=node)
        if isinstance(op, ast.Mod) and isinstance(a, str): 
            parts = b if isinstance(b, tuple) else (b,)
            try: return a % tuple(show(x) for x in parts)
            except Exception: raise Undecided("%")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VList) and isinstance(y, int): return VList(x.items * y)
                if isinstance(x, (str, tuple)) and isinstance(y, int): return x * y
        if isinstance(a, VList) and isinstance(b, VList) and a.kind == "set":
            inb = lambda l, x: any(hk(x) == hk(y) for y in l.items)
            if isinstance(op, ast.Sub): return VList([x for x in a.items if not inb(b, x)], kind="set")
            if isinstance(op, ast.BitAnd): return VList([x for x in a.items if inb(b, x)], kind="set")
            if isinstance(op, ast.BitOr):
                l = VList(a.items + b.items, kind="set"); self.dedup(l); return l
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            import operator as o
            fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
                  ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor}.get(type(op))
            try: return fn(a, b)
            except Exception: raise self.exc(ZeroDivisionError, node=node)
        if isinstance(op, ast.BitOr) and (isinstance(a, (Ext, VClass, BExc)) or a is None): return Ext("typing.Union")
        return Sym("(%s %s %s)" % (show(a), self.OPS.get(type(op), "?"), show(b)), truth=True if isinstance(op, ast.Div) else None)

    def e_Compare(self, e, f):
        a = self.ev(e.left, f)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, f)
            if not self.compare(op, a, b, e): return False
            a = b
        return True

    def e_IfExp(self, e, f):
        return self.ev(e.body if self.truth(self.ev(e.test, f), e.test) else e.orelse, f)

    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f)
        fr = f
        while fr.fn is None and fr.parent is not None and fr.vars.get("\0comp"): fr = fr.parent
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, f):
        return self.mkfunc("<lambda>", e, f)

    def e_Starred(self, e, f): raise Undecided("starred")
    def e_Await(self, e, f): raise Undecided("await")

    def comp(self, e, f, emit):
        def go(i, fr):
            if i == len(e.generators):
                emit(fr); return
            g = e.generators[i]
            for x in self.seq(self.ev(g.iter, fr), g.iter):
                self.assign(g.target, x, fr)
                if all(self.truth(self.ev(c, fr), c) for c in g.ifs): go(i + 1, fr)
        fr = Frame(f.mod, f)
        fr.vars["\0comp"] = True
        go(0, fr)

    def e_ListComp(self, e, f):
        out = VList()
        self.comp(e, f, lambda fr: out.items.append(self.ev(e.elt, fr)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, f):
        out = self.e_ListComp(e, f); out.kind = "set"; self.dedup(out)
        return out

    def e_DictComp(self, e, f):
        d = VDict()
        def emit(fr):
            k = self.ev(e.key, fr); d.d[hk(k)] = (k, self.ev(e.value, fr))
        self.comp(e, f, emit)
        return d

    def e_Slice(self, e, f):
        return slice(*[self.ev(x, f) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, f):
        o = self.ev(e.value, f)
        k = self.ev(e.slice, f)
        return self.getitem(o, k, e)

    def getitem(self, o, k, e):
        if isinstance(o, (VList, tuple, str)):
            items = o.items if isinstance(o, VList) else o
            if isinstance(k, slice):
                if any(x is not None and not isinstance(x, int) for x in (k.start, k.stop, k.step)): 
                    return Sym("%s[slice]" % show(o))
                if opaque(o):
                    if k.start and isinstance(k.start, int) and k.start > 0 and k.stop is None and not opaque(o[:k.start]) and len(o) >= k.start: return o[k.start:]
                    return Sym("%s[%s:%s]" % (show(o), k.start, k.stop))
                r = items[k]
                return VList(r) if isinstance(o, VList) else r
            if isinstance(k, int) and not opaque(o):
                try: return items[k]
                except IndexError: raise self.exc(IndexError, node=e)
            if isinstance(k, Sym):
                return Sym("%s[%s]" % (show(o), show(k)))
            if opaque(o): return Sym("%s[%s]" % (o, show(k)))
            raise self.exc(TypeError, node=e)
        if isinstance(o, VDict):
            h = hk(k)
            if h in o.d: return o.d[h][1]
            if isinstance(k, Sym) or opaque(k): raise Undecided("opaque key")
            raise self.exc(KeyError, k, node=e)
        if isinstance(o, Sym):
            if isinstance(k, slice): return Sym("%s[%s:%s]" % (o.label, show(k.start), show(k.stop)))
            return self.sub(o, k)
        if isinstance(o, Ext):
            if o.name.startswith(("typing", "builtins", "collections", "numba", "abc")): return Ext(o.name)
            return self.extcall(o.name + "[]", [k], {}, e)
        if isinstance(o, VClass): return o
        if isinstance(o, VObj):
            m = self.find(o.cls, "__getitem__")
            if m: return self.call(VBound(m, o), [k], {}, e)
        if o is None or isinstance(o, (int, float)): raise self.exc(TypeError, "not subscriptable", node=e)
        raise Undecided("subscript of %r" % (o,))

    def e_Attribute(self, e, f): return self.getattr(self.ev(e.value, f), e.attr, e)

    def find(self, cls, name):
        if not isinstance(cls, VClass): return None
        for c in cls.mro():
            if isinstance(c, VClass) and name in c.ns: return c.ns[name]
        return None

    def bind(self, v, obj, cls):
        if isinstance(v, VFunc):
            if v.kind == "staticmethod": return v
            if v.kind == "classmethod": return VBound(v, cls)
            if v.kind == "property" and obj is not None: return self.callfn(v, [obj], {}, v.node)
            return VBound(v, obj) if obj is not None else v
        return v

    def getattr(self, o, name, node, probe=False):
        if self.attrhook:
            r = self.attrhook(self, o, name, node)
            if r is not None: return r[0]
        if isinstance(o, VObj):
            if name in o.attrs: return o.attrs[name]
            if name == "__class__": return o.cls
            if name == "__dict__": raise Undecided("__dict__")
            v = self.find(o.cls, name)
            if v is not None or (isinstance(o.cls, VClass) and any(isinstance(c, VClass) and name in c.ns for c in o.cls.mro())):
                return self.bind(v, o, o.cls)
            if isinstance(o.cls, BExc) or (isinstance(o.cls, VClass) and any(isinstance(c, BExc) for c in o.cls.mro())):
                if name in ("stderr", "stdout", "returncode", "cmd", "args", "filename", "errno", "strerror", "output", "code", "with_traceback", "__cause__", "name"):
                    return Sym(self.fresh("exception." + name))
            g = self.find(o.cls, "__getattr__")
            if g is not None: return self.call(VBound(g, o), [name], {}, node)
            if isinstance(o.cls, VClass) and any(isinstance(c, (Ext, Sym)) and show(c).split(".")[-1] not in ("ABC", "object", "Generic", "Protocol") for c in o.cls.mro()):
                return Sym("%s.%s" % (show(o), name))
            raise self.exc(AttributeError, name, node=node)
        if isinstance(o, VClass):
            if name == "__name__": return o.name
            v = self.find(o, name)
            if v is not None: return self.bind(v, None, o)
            if name in ("__subclasses__", "__mro__", "__qualname__", "__module__"): return Sym("%s.%s" % (o.name, name))
            raise self.exc(AttributeError, name, node=node)
        if isinstance(o, Mod):
            if name in o.env.vars: return o.env.vars[name]
            sub = self.module(o.name + "." + name)
            if isinstance(sub, Ext): raise self.exc(AttributeError, o.name + "." + name, node=node)
            return sub
        if isinstance(o, Ext):
            full = o.name + "." + name
            return CONST[full] if full in CONST else self.extname(full)
        if isinstance(o, Sym):
            if name not in o.attrs: o.attrs[name] = Sym("%s.%s" % (o.label, name))
            return o.attrs[name]
        if isinstance(o, VFunc):
            if name in o.attrs: return o.attrs[name]
            if name in ("__name__", "__qualname__"): return o.name
            if name in ("__module__", "__doc__"): return Sym("%s.%s" % (o.name, name))
            if name == "__annotations__": return Sym("%s.__annotations__" % o.name, truth=True)
            raise self.exc(AttributeError, name, node=node)
        if isinstance(o, VSuper):
            mro = o.obj.cls.mro() if isinstance(o.obj, VObj) else o.obj.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if isinstance(c, VClass) and name in c.ns: return self.bind(c.ns[name], o.obj, mro[0])
                if isinstance(c, BExc) and name == "__init__":
                    return Ext("builtins.noop")
            return Ext("builtins.noop")
        if isinstance(o, (VList, VDict, str, tuple, slice, int, float, bytes)): return VMeth(o, name)
        if isinstance(o, BExc): return Sym("%s.%s" % (o.name, name)) if name != "__name__" else o.name
        if isinstance(o, (VBound, VPartial)): return self.getattr(o.f, name, node)
        if o is None: raise self.exc(AttributeError, "None." + name, node=node)
        raise Undecided("attribute of %r" % (o,))

    # ---- calls
    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = f
            while fr is not None and (fr.fn is None or fr.fn.cls is None): fr = fr.parent
            if fr is None: raise Undecided("super")
            first = fr.fn.node.args.args[0].arg
            return VSuper(fr.fn.cls, fr.vars[first])
        fn = self.ev(e.func, f)
        args = self.elts(e.args, f)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, f)
            if k.arg is None:
                if isinstance(v, VDict):
                    for kk, vv in v.items():
                        if not isinstance(kk, str): raise Undecided("**")
                        kw[kk] = vv
                elif isinstance(v, Sym): raise Undecided("** of an opaque value")
            else: kw[k.arg] = v
        if isinstance(fn, Ext) and fn.name in ("builtins.locals", "builtins.globals", "builtins.eval", "builtins.exec"): raise Undecided(fn.name)
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node):
        if isinstance(fn, VFunc): return self.callfn(fn, args, kw, node)
        if isinstance(fn, VBound): return self.call(fn.f, [fn.self_] + list(args), kw, node)
        if isinstance(fn, VPartial):
            k = dict(fn.kw); k.update(kw)
            return self.call(fn.f, list(fn.args) + list(args), k, node)
        if isinstance(fn, VClass): return self.new(fn, args, kw, node)
        if isinstance(fn, BExc):
            o = VObj(fn); o.attrs["args"] = tuple(args); return o
        if isinstance(fn, VMeth): return self.method(fn.obj, fn.name, args, kw, node)
        if isinstance(fn, VObj):
            m = self.find(fn.cls, "__call__")
            if m: return self.call(VBound(m, fn), args, kw, node)
            raise self.exc(TypeError, "not callable", node=node)
        if isinstance(fn, Ext): return self.extcall(fn.name, args, kw, node)
        if isinstance(fn, Sym):
            if fn.attrs.get("_gen"): raise Undecided("generator")
            return self.extcall(fn.label, args, kw, node, fn)
        if isinstance(fn, (int, str, type(None), VList, VDict)): raise self.exc(TypeError, "not callable", node=node)
        raise Undecided("call of %r" % (fn,))

    def new(self, c, args, kw, node):
        o = VObj(c)
        init = self.find(c, "__init__")
        if init is not None and isinstance(init, VFunc):
            self.callfn(init, [o] + list(args), kw, node)
            if any(isinstance(b, BExc) for b in c.mro()): o.attrs.setdefault("args", tuple(args))
            return o
        if c.is_dc:
            fields = []
            for b in reversed(c.mro()):
                if isinstance(b, VClass):
                    for x in b.fields: fields.append(x)
            names = [n for n, _, _ in fields]
            if len(args) > len(names): raise self.exc(TypeError, node=node)
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals: raise self.exc(TypeError, "unexpected argument " + k, node=node)
                vals[k] = v
            for n, d, has in fields:
                if n not in vals:
                    if not has: raise self.exc(TypeError, "missing field " + n, node=node)
                    vals[n] = d
            o.attrs.update(vals)
            return o
        if any(isinstance(b, BExc) for b in c.mro()): o.attrs["args"] = tuple(args); return o
        if any(isinstance(b, (Ext, Sym)) and show(b).split(".")[-1] in ("NamedTuple", "Enum", "TypedDict") for b in c.mro()): raise Undecided("class " + c.name)
        return o

    def callfn(self, fn, args, kw, node):
        if self.depth > MAXCALLS: raise Undecided("recursion")
        if self.hook:
            r = self.hook(self, "fn:" + (fn.cls.name + "." if fn.cls else "") + fn.name, args, kw, node)
            if r is not None: return r[0]
        a = fn.node.args
        is_lam = isinstance(fn.node, ast.Lambda)
        if is_lam: locs, gl, nl = set(), set(), set()
        else:
            if not hasattr(fn.node, "_locs"): fn.node._locs = assigned(fn.node)
            locs, gl, nl = fn.node._locs
        fr = Frame(fn.mod, fn.env if not (fn.env is fn.mod.env) else fn.mod.env, locs, fn)
        fr.globals_, fr.nonlocals = gl, nl
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None: raise self.exc(TypeError, "too many arguments for " + fn.name, node=node)
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: fr.vars[a.vararg.arg] = ()
        for n, v in zip(names, args): fr.vars[n] = v
        extra = VDict()
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in fr.vars: raise self.exc(TypeError, "duplicate argument " + k, node=node)
                fr.vars[k] = v
            elif a.kwarg is not None: extra.d[hk(k)] = (k, v)
            else: raise self.exc(TypeError, "unexpected argument %s of %s" % (k, fn.name), node=node)
        if a.kwarg is not None: fr.vars[a.kwarg.arg] = extra
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in fr.vars:
                j = i - (len(names) - nd)
                if j < 0: raise self.exc(TypeError, "missing argument %s of %s" % (n, fn.name), node=node)
                fr.vars[n] = fn.defaults[j]
        for n, d, x in zip(kwonly, fn.kwdefaults, a.kw_defaults):
            if n not in fr.vars:
                if x is None: raise self.exc(TypeError, "missing argument " + n, node=node)
                fr.vars[n] = d
        if is_lam: return self.ev(fn.node.body, fr)
        self.depth += 1
        try:
            self.block(fn.node.body, fr)
        except _Ret as r: return r.v
        finally: self.depth -= 1
        return None

    def where(self, node):
        return getattr(node, "lineno", 0)

    def extcall(self, name, args, kw, node, fn=None):
        if name.startswith("builtins."): 
            r = self.builtin(name[9:], args, kw, node)
            if r is not NotImplemented: return r
        if self.hook:
            r = self.hook(self, name, args, kw, node)
            if r is not None: return r[0]
        if name in ("sys.exit", "os._exit"): raise self.exc(SystemExit, *args, node=node)
        if name in ("functools.partial",): return VPartial(args[0], args[1:], kw)
        if name == "textwrap.indent" and isinstance(args[0], str) and isinstance(args[1], str):
            import textwrap
            return textwrap.indent(args[0], args[1])
        if name == "textwrap.dedent" and isinstance(args[0], str):
            import textwrap
            return textwrap.dedent(args[0])
        if name in ("collections.deque", "collections.OrderedDict", "collections.defaultdict"):
            if name.endswith("deque"): return VList(self.seq(args[0], node) if args else [])
            if name.endswith("OrderedDict") and not args: return VDict()
            raise Undecided(name)
        if name in ("copy.copy", "copy.deepcopy") and isinstance(args[0], (VList, VDict)):
            return VList(args[0].items, kind=args[0].kind) if isinstance(args[0], VList) else VDict(args[0].items())
        if name == "contextlib.ExitStack": raise Undecided(name)
        if name == "dataclasses.replace" and isinstance(args[0], VObj):
            o = VObj(args[0].cls, dict(args[0].attrs)); o.attrs.update(kw); return o
        # everything else leaves the repository
        self.event("call", name, args, kw, node)
        if self.faulty and len(self.faults) < self.maxfaults and self.faulty(name, args):
            if self.choose(("fault", self.fresh("fault:" + name)), 2, "%s fails (line %s)" % (name, self.where(node))):
                self.faults.append((name, node))
                raise self.exc(ExternalFault, name, node=node)
        lab = "%s(%s)" % (name, ", ".join([show(a) for a in args] + ["%s=%s" % (k, show(v)) for k, v in kw.items()]))
        if len(lab) > 300: lab = lab[:280] + "..."
        s = Sym(self.fresh(lab) if not self.pure(name) else lab)
        return s

    def order(self, items, kw, node):
        """sorted() where the keys are concrete"""
        key = kw.get("key")
        ks = [x if key is None else self.call(key, [x], {}, node) for x in items]
        conc = lambda k: (isinstance(k, str) and not opaque(k)) or isinstance(k, (int, float)) or (isinstance(k, tuple) and all(conc(y) for y in k))
        if len(ks) > 1 and not all(conc(k) for k in ks): raise Undecided("sorted")
        try: return [x for _, _, x in sorted([(k, i, x) for i, (k, x) in enumerate(zip(ks, items))], key=lambda t: t[0], reverse=bool(kw.get("reverse")))]
        except TypeError: raise Undecided("sorted")

    PURE = ("os.path.", "pathlib.", "sysconfig.", "shlex.", "os.environ", "os.getenv", "importlib.util.find_spec", "platform.")

    def pure(self, name): return name.startswith(self.PURE)

    def builtin(self, n, args, kw, node):
        a = args
        if n == "noop": return None
        if n == "print": return None
        if n == "len":
            v = a[0]
            if isinstance(v, VList): return len(v.items)
            if isinstance(v, VDict): return len(v.d)
            if isinstance(v, tuple) or (isinstance(v, str) and not opaque(v)): return len(v)
            if isinstance(v, Sym) and v.elems is not None: return len(v.elems)
            return Sym("len(%s)" % show(v))
        if n in ("list", "tuple", "set", "frozenset", "iter", "reversed", "sorted"):
            items = self.seq(a[0], node) if a else []
            if n == "tuple": return tuple(items)
            if n == "reversed": return VList(list(reversed(items)))
            if n == "sorted": return VList(self.order(items, kw, node))
            l = VList(items, kind="set" if "set" in n else "list"); self.dedup(l)
            return l
        if n == "dict":
            d = VDict()
            if a:
                if isinstance(a[0], VDict): d.d.update(a[0].d)
                else:
                    for p in self.seq(a[0], node):
                        k, v = self.seq(p, node, 2); d.d[hk(k)] = (k, v)
            for k, v in kw.items(): d.d[hk(k)] = (k, v)
            return d
        if n == "enumerate":
            st = a[1] if len(a) > 1 else kw.get("start", 0)
            return VList([(st + i, x) for i, x in enumerate(self.seq(a[0], node))])
        if n == "zip":
            ls = [self.seq(x, node) for x in a]
            return VList([tuple(t) for t in zip(*ls)])
        if n == "range":
            if all(isinstance(x, int) for x in a): return VList(list(range(*a))[:300])
            raise Undecided("range of an opaque value")
        if n == "map":
            ls = [self.seq(x, node) for x in a[1:]]
            return VList([self.call(a[0], list(t), {}, node) for t in zip(*ls)])
        if n == "filter":
            return VList([x for x in self.seq(a[1], node) if self.truth(x if a[0] is None else self.call(a[0], [x], {}, node), node)])
        if n in ("any", "all"):
            vs = self.seq(a[0], node)
            return any(self.truth(x, node) for x in vs) if n == "any" else all(self.truth(x, node) for x in vs)
        if n == "next":
            vs = self.seq(a[0], node)
            if vs: return vs[0]
            if len(a) > 1: return a[1]
            raise self.exc(StopIteration, node=node)
        if n == "isinstance": return self.isinst(a[0], a[1])
        if n == "issubclass":
            if isinstance(a[0], VClass): return any(b is a[1] or b == a[1] for b in a[0].mro())
            return self.choose(("issub", show(a[0]), show(a[1])), 2) == 0
        if n == "callable":
            if isinstance(a[0], Sym): return self.isinst(a[0], Ext("typing.Callable"))
            return isinstance(a[0], (VFunc, VBound, VPartial, VClass, Ext, VMeth))
        if n == "str":
            return self.str(a[0], node) if a else ""
        if n == "repr": return self.repr(a[0])
        if n == "format": return show(a[0])
        if n in ("int", "float", "bool"):
            if not a: return {"int": 0, "float": 0.0, "bool": False}[n]
            if n == "bool": return self.truth(a[0], node)
            if isinstance(a[0], (int, float)) or (isinstance(a[0], str) and not opaque(a[0])):
                try: return {"int": int, "float": float}[n](a[0])
                except ValueError: raise self.exc(ValueError, node=node)
            return Sym("%s(%s)" % (n, show(a[0])))
        if n in ("min", "max", "sum", "abs", "ord", "chr", "round", "divmod", "pow", "hash", "id", "bin", "hex"):
            vs = self.seq(a[0], node) if len(a) == 1 and n in ("min", "max", "sum") else a
            if n in ("min", "max") and vs and set(kw) <= {"key"} and kw.get("key") is not None:
                return self.order(list(vs), kw, node)[0] if n == "min" else self.order(list(reversed(vs)), kw, node)[-1]
            if all(isinstance(x, (int, float)) for x in vs) and not kw and n not in ("id", "hash"):
                return getattr(builtins, n)(vs) if n in ("min", "max", "sum") else getattr(builtins, n)(*vs)
            return Sym("%s(%s)" % (n, ", ".join(show(x) for x in vs)))
        if n == "type":
            if len(a) == 3: raise Undecided("type()")
            if isinstance(a[0], VObj): return a[0].cls
            if isinstance(a[0], Sym): return Sym("type(%s)" % a[0].label, truth=True)
            return Ext("builtins." + type(a[0]).__name__) if not isinstance(a[0], (VList, VDict)) else Ext("builtins." + (a[0].kind if isinstance(a[0], VList) else "dict"))
        if n == "getattr":
            if not isinstance(a[1], str): return Sym("getattr(%s, %s)" % (show(a[0]), show(a[1])))
            if isinstance(a[0], (Sym,)):
                return self.getattr(a[0], a[1], node)
            if isinstance(a[0], Ext): return self.getattr(a[0], a[1], node)
            try: return self.getattr(a[0], a[1], node)
            except PyExc as e:
                if len(a) > 2 and isinstance(e.value.cls, BExc) and e.value.cls.c is AttributeError: return a[2]
                raise
        if n == "hasattr":
            if isinstance(a[0], (Sym, Ext)): return self.choose(("hasattr", show(a[0]), show(a[1])), 2) == 0
            try:
                self.getattr(a[0], a[1], node); return True
            except PyExc as e:
                if isinstance(e.value.cls, BExc) and e.value.cls.c is AttributeError: return False
                raise
        if n == "setattr":
            self.setattr(a[0], a[1] if isinstance(a[1], str) else show(a[1]), a[2], node); return None
        if n in ("exit", "quit"):
            raise self.exc(SystemExit, *a, node=node)
        if n == "super" and len(a) == 2: return VSuper(a[0], a[1])
        if n in ("object",): return Sym(self.fresh("object"))
        if n == "open": return NotImplemented
        if n in ("staticmethod", "classmethod", "property"):
            if isinstance(a[0], VFunc): a[0].kind = n
            return a[0]
        if n == "slice": return slice(*a)
        return NotImplemented

    MUTL = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "update", "discard", "appendleft", "popleft",
            "difference_update", "intersection_update", "extendleft"}

    def method(self, o, m, args, kw, node):
        a = args
        if isinstance(o, VList):
            if m in self.MUTL: self.touch(o, node, m)
            L = o.items
            if m == "append" or m == "add":
                L.append(a[0]); self.dedup(o); return None
            if m == "appendleft": L.insert(0, a[0]); return None
            if m == "extend" or m == "update":
                for x in a: L.extend(self.seq(x, node))
                self.dedup(o); return None
            if m == "insert":
                if isinstance(a[0], int): L.insert(a[0], a[1]); return None
            if m in ("pop", "popleft"):
                if not L: raise self.exc(IndexError, node=node)
                if m == "popleft": return L.pop(0)
                return L.pop(*a) if all(isinstance(x, int) for x in a) else L.pop()
            if m == "clear": L.clear(); return None
            if m == "reverse": L.reverse(); return None
            if m == "copy": return VList(L, kind=o.kind)
            if m == "index":
                for i, x in enumerate(L):
                    if self.eq(x, a[0], node): return i
                raise self.exc(ValueError, "index", node=node)
            if m == "count": return sum(1 for x in L if self.eq(x, a[0], node))
            if m in ("remove", "discard"):
                for i, x in enumerate(L):
                    if self.eq(x, a[0], node):
                        del L[i]; return None
                if m == "remove": raise self.exc(ValueError, node=node)
                return None
            if m == "sort":
                L[:] = self.order(list(L), kw, node); return None
            if m in ("union", "difference", "intersection"):
                b = VList([x for y in a for x in self.seq(y, node)], kind="set")
                return self.binop({"union": ast.BitOr(), "difference": ast.Sub(), "intersection": ast.BitAnd()}[m], o, b, node)
            if m in ("issubset", "issuperset"): raise Undecided(m)
            raise Undecided("list." + m)
        if isinstance(o, VDict):
            if m in ("pop", "clear", "update", "setdefault", "popitem"): self.touch(o, node, m)
            if m == "get":
                h = hk(a[0])
                if h in o.d: return o.d[h][1]
                if isinstance(a[0], Sym) and o.d: raise Undecided("opaque key")
                return a[1] if len(a) > 1 else None
            if m == "items": return VList([(k, v) for k, v in o.items()])
            if m == "keys": return VList([k for k, _ in o.items()])
            if m == "values": return VList([v for _, v in o.items()])
            if m == "copy": return VDict(o.items())
            if m == "clear": o.d.clear(); return None
            if m == "pop":
                h = hk(a[0])
                if h in o.d: return o.d.pop(h)[1]
                if len(a) > 1: return a[1]
                raise self.exc(KeyError, node=node)
            if m == "setdefault":
                h = hk(a[0])
                if h not in o.d: o.d[h] = (a[0], a[1] if len(a) > 1 else None)
                return o.d[h][1]
            if m == "update":
                for x in a:
                    if not isinstance(x, VDict): raise Undecided("update")
                    o.d.update(x.d)
                for k, v in kw.items(): o.d[hk(k)] = (k, v)
                return None
            raise Undecided("dict." + m)
        if isinstance(o, str):
            if m == "join": return o.join(show(x) for x in self.seq(a[0], node))
            if m == "format":
                try: return o.format(*[show(x) for x in a], **{k: show(v) for k, v in kw.items()})
                except Exception: raise Undecided("format")
            if not opaque(o) and all(not isinstance(x, (Sym, VObj, Ext)) and not opaque(x) for x in a) and hasattr(o, m):
                try: r = getattr(o, m)(*a, **kw)
                except ValueError: raise self.exc(ValueError, node=node)
                except TypeError: raise Undecided("str." + m)
                return VList(r) if isinstance(r, list) else r
            if m in ("startswith", "endswith") and len(a) == 1:
                alts = a[0] if isinstance(a[0], tuple) else (a[0],)
                for p in alts:
                    p = show(p)
                    if m == "startswith":
                        pre = o.split("\u27e6")[0]
                        if o.startswith(p): return True
                        if not opaque(p) and len(pre) and not pre.startswith(p[:len(pre)]): continue
                        if not opaque(p) and len(pre) >= len(p): continue
                    else:
                        suf = o.split("\u27e7")[-1]
                        if o.endswith(p): return True
                        if not opaque(p) and len(suf) and not p.endswith(suf) and not suf.endswith(p): continue
                    if self.choose((m, o, p), 2) == 0: return True
                return False
            if m in ("replace",) and all(isinstance(x, (str, Sym)) for x in a):
                if not any(show(a[0]) in seg for seg in inside(o)): return o.replace(show(a[0]), show(a[1]))
                return Sym("%s.replace(%s)" % (o, ", ".join(show(x) for x in a)))
            if m in ("strip", "lstrip", "rstrip"):
                ch = a[0] if a else " \n\t"
                if isinstance(ch, str):
                    pre, suf = o.split("\u27e6")[0], o.split("\u27e7")[-1]
                    r = o
                    if (m == "rstrip" or pre.lstrip(ch)) and (m == "lstrip" or suf.rstrip(ch)):
                        if m != "rstrip": r = pre.lstrip(ch) + r[len(pre):]
                        if m != "lstrip": r = r[:len(r) - len(suf)] + suf.rstrip(ch)
                        return r
            if m == "encode": return Sym("%s.encode()" % o)
            return Sym("%s.%s(%s)" % (o, m, ", ".join(show(x) for x in a)))
        if isinstance(o, tuple):
            if m == "index" or m == "count": return self.method(VList(o), m, a, kw, node)
        if isinstance(o, slice): return getattr(o, m)
        raise Undecided("method %s of %r" % (m, o))


def plain(s):
    """text pieces of a string outside the symbolic parts"""
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "\u27e6":
            if depth == 0: out.append(cur); cur = ""
            depth += 1
        elif ch == "\u27e7": depth -= 1
        elif depth == 0: cur += ch
    return out + [cur]


def inside(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "\u27e6":
            depth += 1
        elif ch == "\u27e7":
            depth -= 1
            if depth == 0: out.append(cur); cur = ""
        elif depth: cur += ch
    return out


class Path:
    """outcome of one path: kind 'return' | 'raise' | 'undecided'"""
    def __init__(self, ai, kind, value, node=None, why=""):
        self.ai, self.kind, self.value, self.node, self.why = ai, kind, value, node, why

    def given(self):
        return "; ".join("%s" % (n if isinstance(n, str) and v and not n.startswith("not ") else (n[4:] if isinstance(n, str) and n.startswith("not ") and not v else n)) if not isinstance(n, tuple) else "%s=%s" % ("/".join(map(str, n)), v)
                         for n, v in self.ai.notes if v or (isinstance(n, str) and n.startswith("not ")))[:400]


def explore(run, limit=4000, **opts):
    """run(ai) for every sequence of choices, fewest departures from the default first"""
    import heapq
    out, n = [], 0
    todo = [(0, 0, ())]
    while todo:
        dev, _, pre = heapq.heappop(todo)
        if len(out) >= limit:
            out.append(Path(PyAI(), "undecided", None, None, "path limit: complete for fewer than %d departures from the default" % dev)); break
        ai = PyAI(pre, **opts)
        try:
            p = Path(ai, "return", run(ai))
        except PyExc as e: p = Path(ai, "raise", e.value, e.node)
        except Undecided as e: p = Path(ai, "undecided", None, ai.cur, str(e))
        except (_Ret, _Brk, _Cont): p = Path(ai, "undecided", None, ai.cur, "control flow")
        except RecursionError: p = Path(ai, "undecided", None, ai.cur, "recursion")
        out.append(p)
        vs = tuple(v for _, v in ai.made)
        for i in range(len(pre), len(ai.made)):
            for k in range(1, ai.made[i][0]):
                n += 1
                heapq.heappush(todo, (dev + 1, n, vs[:i] + (k,)))
    return out
