"""C28: the graph algorithms answer correctly for every graph.

The container is generic in its vertices: the code can only compare them.  Its behaviour on a graph is determined by
the relation between the vertices, so each algorithm is evaluated abstractly over every relation among few opaque
vertices and the answer is compared with the definition."""
import itertools
from . import facts, prog, geval
from .c07 import DRIVER

G = "mlir::heir::graph::Graph<int>"
U = "mlir::heir::graph::UndirectedGraph<int>"
K = "mlir::heir::graph::GreedyGraphColoring<int>"
V = (5, 3, 8, 2, 7)          # opaque names; their order differs from the order of insertion


class Lib:
    def __init__(self, P):
        self.P = P
        self.ev = geval.Ev(P)

    def fn(self, cls, name, k):
        fs = [f for f in self.P.all if f.cls == cls and f.name == name and f.body is not None and not f.dep and len(f.params) == k]
        if len(fs) != 1:
            raise geval.Unknown(f"{name} with {k} parameters")
        return fs[0]

    def obj(self, cls):
        r = self.P.recs.get(cls)
        if r is None:
            raise geval.Unknown(cls)
        self.ev.steps = 0
        return self.ev.object(r)

    def call(self, o, name, *a, k=None):
        f = self.fn(o.cls, name, len(a) if k is None else k)
        vals = list(a)
        for p in f.params[len(vals):]:
            vals.append(None)
        self.ev.steps = 0
        self.ev.depth = 0
        return self.ev.callfn(f, vals, o)

    def graph(self, n, edges, cls=G):
        o = self.obj(cls)
        for v in V[:n]:
            self.call(o, "addVertex", v)
        for a, b in edges:
            if self.call(o, "addEdge", V[a], V[b], k=2) != 1:
                raise geval.Unknown("addEdge")
        return o


def relations(n, loops=False):
    ps = [(a, b) for a in range(n) for b in range(n) if loops or a != b]
    for m in range(1 << len(ps)):
        yield [p for i, p in enumerate(ps) if m >> i & 1]


def few(n):
    """One relation per class of relations equal up to renaming, each under two namings."""
    seen = set()
    for e in relations(n):
        c = min(tuple(sorted((p[a], p[b]) for a, b in e)) for p in itertools.permutations(range(n)))
        if c not in seen:
            seen.add(c)
            yield list(c)
            yield sorted((n - 1 - a, n - 1 - b) for a, b in c)


def reach(vs, es):
    r = {v: {v} for v in vs}
    ch = True
    while ch:
        ch = False
        for a, b in es:
            for v in vs:
                if a in r[v] and b not in r[v]:
                    r[v].add(b); ch = True
    return r


def acyclic(vs, es):
    r = reach(vs, es)
    return not any(a == b or a in r[b] for a, b in es)


def dist(es, s):
    d = {s: 0}
    fr = [s]
    while fr:
        nx = []
        for x in fr:
            for a, b in es:
                if a == x and b not in d:
                    d[b] = d[x] + 1; nx.append(b)
        fr = nx
    return d


def longest(vs, es):
    """Length of the longest path starting at each vertex of an acyclic relation."""
    out = {}

    def go(v):
        if v not in out:
            out[v] = max([1 + go(b) for a, b in es if a == v], default=0)
        return out[v]
    for v in vs:
        go(v)
    return out


def topo(lib, o, vs, es):
    r = lib.call(o, "topologicalSort")
    if not acyclic(vs, es):
        return None if r is geval.FAIL else "a graph with a cycle is sorted"
    if r is geval.FAIL:
        return "an acyclic graph is rejected"
    if sorted(r) != sorted(vs):
        return "the order does not list every vertex once"
    return next((f"the order puts the target of an edge before its source" for a, b in es if r.index(a) >= r.index(b)), None)


def levels(lib, o, vs, es):
    r = lib.call(o, "sortGraphByLevels")
    if not acyclic(vs, es):
        return None if r is geval.FAIL else "a graph with a cycle is divided into levels"
    if r is geval.FAIL:
        return "an acyclic graph is rejected"
    flat = [v for l in r for v in l]
    if sorted(flat) != sorted(vs):
        return "the levels do not list every vertex once"
    at = {v: i for i, l in enumerate(r) for v in l}
    if any(at[a] >= at[b] for a, b in es):
        return "an edge does not lead to a later level"
    if vs and len(r) != 1 + max(longest(vs, es).values()):
        return f"{len(r)} levels where the longest path has {1 + max(longest(vs, es).values())} vertices"
    return None


def components(vs, es):
    r = reach(vs, es)
    return {frozenset(w for w in vs if w in r[v] and v in r[w]) for v in vs}


def scc(lib, o, vs, es):
    r = lib.call(o, "getStronglyConnectedComponents")
    got = [frozenset(x.keys()) for x in r]
    if len(got) != len(set(got)) or set(got) != components(vs, es):
        return "the components are not the classes of mutually reachable vertices"
    return None


def edges(lib, o):
    return set(lib.call(o, "getEdges").keys())


def condense(lib, o, vs, es):
    merges = []
    lib.call(o, "condenseGraph", lambda a, b: merges.append((a, b)))
    left = set(lib.call(o, "getVertices").keys())
    cs = components(vs, es)
    rep = {}
    for c in cs:
        m = c & left
        if len(m) != 1:
            return "a component is not condensed into one of its vertices"
        for v in c:
            rep[v] = next(iter(m))
    want = {(rep[a], rep[b]) for a, b in es if rep[a] != rep[b]}
    got = {(a, b) for a, b in edges(lib, o)}
    if got - {(a, a) for a in vs} != want:
        return "the edges between components are not those of the graph"
    if any(a == b for a, b in got) and not any(a == b for a, b in es):
        return "condensing leaves an edge from a vertex to itself"
    if sorted(b for _, b in merges) != sorted(set(vs) - left):
        return "the merge function is not called once for each vertex that is removed"
    alive = set(vs)
    for a, b in merges:
        if a not in alive or b not in alive:
            return "the merge function is called for a vertex that is already gone"
        alive.discard(b)
    return None


def shortest(lib, o, vs, es):
    for s in vs:
        d = dist(es, s)
        for t in vs:
            r = lib.call(o, "getShortestPath", s, t, k=2)
            if t not in d:
                if r is not geval.FAIL:
                    return "a path to an unreachable vertex is returned"
                continue
            if r is geval.FAIL:
                return "no path is found to a vertex that can be reached"
            if not r or r[0] != s or r[-1] != t or any((a, b) not in es for a, b in zip(r, r[1:])):
                return "what is returned is not a path from the start to the end"
            if len(r) - 1 != d[t]:
                return f"the path has {len(r) - 1} edges where {d[t]} suffice"
    return None


def critical(lib, o, vs, es):
    r = lib.call(o, "findApproximateCriticalPath")
    if not acyclic(vs, es):
        return None if r is geval.FAIL else "a graph with a cycle has a critical path"
    if r is geval.FAIL:
        return "an acyclic graph is rejected"
    if len(vs) < 3:
        return None if sorted(r) == sorted(vs) else "a graph of fewer than three vertices is not returned whole"
    src = {v for v in vs if not any(b == v for _, b in es)}
    snk = {v for v in vs if not any(a == v for a, _ in es)}
    if not r or r[-1] not in snk:
        return "the path does not end in a sink"
    if sorted(r[:-1]) != sorted(set(vs) - src - snk):
        return "the path does not consist of the inner vertices and a sink"
    return None if not any(a in r and b in r and r.index(a) >= r.index(b) for a, b in es) else "the path is not in topological order"


def coloring(lib, k, o, vs, es):
    r = lib.call(k, "color", o)
    d = r.d if isinstance(r, geval.Map) else {}
    if set(d) != set(vs):
        return "not exactly the vertices of the graph are coloured"
    if any(d[a] == d[b] for a, b in es):
        return "two neighbours have the same colour"
    deg = max([sum(v in e for e in es) for v in vs], default=0)
    if any(not 0 <= c <= deg for c in d.values()):
        return "a colour exceeds the largest number of neighbours"
    return None


ALG = [("topologicalSort", topo), ("sortGraphByLevels", levels), ("getStronglyConnectedComponents", scc), ("condenseGraph", condense),
       ("getShortestPath", shortest), ("findApproximateCriticalPath", critical)]


def show(vs, es):
    nm = {v: "abcde"[i] for i, v in enumerate(vs)}
    return "{" + ", ".join(f"{nm[a]}->{nm[b]}" for a, b in sorted(es)) + "}"


def check(c):
    P = prog.Program([facts.extract(DRIVER, (), True)])
    lib = Lib(P)
    c.rule("each algorithm of the graph container, evaluated over every relation among few opaque vertices, answers what its definition says")
    c.assume.append("what the algorithms do is determined by the relation between the vertices: their code can only compare vertices")
    deep = c.tier == "thorough"
    graphs = [(n, e) for n in range(0, 4) for e in relations(n)] + [(2, e) for e in relations(2, True)]
    graphs += [(4, e) for e in (relations(4) if deep else few(4))]
    dead = set()
    c.count("relations", len(graphs))
    for n, es in graphs:
        vs = list(V[:n])
        ee = [(V[a], V[b]) for a, b in es]
        for name, alg in ALG:
            if name in dead:
                continue
            try:
                f = lib.fn(G, name, {"condenseGraph": 1, "getShortestPath": 2}.get(name, 0))
                m = alg(lib, lib.graph(n, es), vs, ee)
            except geval.Unknown as x:
                c.undecided(f"Graph::{name}", str(x)); dead.add(name); continue
            except geval.Fault as x:
                m = str(x)
            except (geval._Sig, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError) as x:
                c.undecided(f"Graph::{name}", f"{type(x).__name__}"); dead.add(name); continue
            if m:
                c.bad(f"Graph::{name}:{m}", f.where(), f"{name} on the graph {show(vs, ee)} of {n} vertices: {m}"); dead.add(name)
            else:
                c.ok(f"Graph::{name}")
    colors(c, lib, deep)
    c.need("relations", 100)
    return c.finish("Every algorithm of the graph container gives the answer its definition requires on every relation analysed.")


def colors(c, lib, deep):
    try:
        f = lib.fn(K, "color", 1)
        k = lib.obj(K)
    except geval.Unknown as x:
        c.undecided("GreedyGraphColoring::color", str(x)); return
    for n in range(0, 6 if deep else 5):
        ps = list(itertools.combinations(range(n), 2))
        for m in range(1 << len(ps)):
            es = [p for i, p in enumerate(ps) if m >> i & 1]
            vs = list(V[:n])
            ee = [(V[a], V[b]) for a, b in es]
            try:
                msg = coloring(lib, k, lib.graph(n, es, U), vs, ee)     # the same object colours one graph after another
            except geval.Unknown as x:
                c.undecided("GreedyGraphColoring::color", str(x)); return
            except geval.Fault as x:
                msg = str(x)
            except (geval._Sig, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError) as x:
                c.undecided("GreedyGraphColoring::color", type(x).__name__); return
            if msg:
                c.bad(f"GreedyGraphColoring::color:{msg}", f.where(), f"colouring the graph {show(vs, ee)} of {n} vertices: {msg}"); return
            c.ok("GreedyGraphColoring::color")


# -- used by C07: the adjacency views after sequences of updates ---------------------------------------------------
def expect(vs, es, s, t):
    """The relation after contracting s -> t."""
    ne = {(s if a == t else a, s if b == t else b) for a, b in es if (a, b) != (s, t)}
    keep = {(a, b) for a, b in es if a == b == s}
    return [v for v in vs if v != t], {(a, b) for a, b in ne if a != b or a != s} | keep


def views(lib, o, vs, es, names=V):
    """First disagreement between what the queries of graph o answer and the relation es on vs, or None."""
    got = set(lib.call(o, "getVertices").keys())
    if got != set(vs):
        return "getVertices", "the vertices are not those inserted and not contracted away"
    if edges(lib, o) != set(es):
        return "getEdges", "getEdges does not list the current edges"
    for v in names:
        o_, i_ = lib.call(o, "edgesOutOf", v), lib.call(o, "edgesInto", v)
        if sorted(o_) != sorted(b for a, b in es if a == v):
            return "edgesOutOf", "edgesOutOf does not list the successors"
        if sorted(i_) != sorted(a for a, b in es if b == v):
            return "edgesInto", "edgesInto does not list the predecessors"
        if lib.call(o, "contains", v) != int(v in vs):
            return "contains", "contains is wrong about a vertex"
        if lib.call(o, "getOutDegree", v) != len(o_) or lib.call(o, "getInDegree", v) != len(i_):
            return "getOutDegree", "a degree is not the number of edges"
        for w in names:
            if lib.call(o, "hasEdge", v, w) != int((v, w) in es):
                return "hasEdge", "hasEdge is wrong about an edge"
    if set(lib.call(o, "getSources").keys()) != {v for v in vs if not any(b == v for a, b in es)}:
        return "getSources", "getSources does not list the vertices without predecessors"
    if set(lib.call(o, "getSinks").keys()) != {v for v in vs if not any(a == v for a, b in es)}:
        return "getSinks", "getSinks does not list the vertices without successors"
    if lib.call(o, "empty") != int(not vs):
        return "empty", "empty is wrong"
    return None


def sequences(c, P, deep):
    lib = Lib(P)
    name = "contractEdge"
    try:
        f = lib.fn(G, name, 3)
        graphs = [(n, e) for n in range(0, 3) for e in relations(n, True)] + [(3, e) for e in relations(3, deep)]
        if deep:
            graphs += [(4, e) for e in list(few(4))[::2]]
        for n, es in graphs:
            vs = list(V[:n])
            ee = {(V[a], V[b]) for a, b in es}
            txt = f"on the graph {show(vs, ee)} of {n} vertices"
            nv = V[:min(n + 1, len(V))]
            m = views(lib, lib.graph(n, es), vs, ee, nv)
            if m:
                c.bad(f"Graph:{m[0]}:{m[1]}", lib.fn(G, m[0], {"hasEdge": 2}.get(m[0], 1 if m[0] in ("edgesOutOf", "edgesInto", "contains", "getOutDegree") else 0)).where(), f"after inserting vertices and edges {txt}: {m[1]}")
                return
            c.ok("Graph: queries after insertions")
            o = lib.graph(n, es)
            for a, b in ((V[0], V[4]), (V[4], V[0])):
                if n < 5 and (lib.call(o, "addEdge", a, b, k=2) != 0 or lib.call(o, "addEdge", a, b, 7, k=3) != 0 or lib.call(o, name, a, b, k=3) != 0):
                    c.bad("Graph::addEdge:absent", lib.fn(G, "addEdge", 2).where(), f"an edge with an absent vertex is accepted {txt}"); return
            if views(lib, o, vs, ee, nv):
                c.bad("Graph::addEdge:changed", lib.fn(G, "addEdge", 2).where(), f"a refused edge changes the graph {txt}"); return
            for s, t in sorted(ee):
                if s == t:
                    continue
                o = lib.graph(n, es)
                if n == 2:
                    for a, b in sorted(ee):
                        if lib.call(o, "addEdge", a, b, 7, k=3) != 1:
                            c.bad("Graph::addEdge:again", lib.fn(G, "addEdge", 3).where(), f"an edge between present vertices is refused {txt}"); return
                edges(lib, o)                                  # the cached list exists before the contraction
                log = []
                r = lib.call(o, name, s, t, lambda a, b: log.append((a, b)))
                m = views(lib, o, *expect(vs, ee, s, t), nv)
                what = None
                if r != 1:
                    what = "an existing edge is not contracted"
                elif log != [(s, t)]:
                    what = "the merge function is not called exactly once with source and target"
                elif m:
                    what = f"afterwards {m[1]}"
                if what:
                    c.bad(f"Graph::contractEdge:{what}", f.where(), f"contracting an edge {txt}: {what}"); return
                c.ok("Graph::contractEdge")
                v2, e2 = expect(vs, ee, s, t)
                if (t, s) not in ee and lib.call(o, name, t, s, k=3) != 0:
                    c.bad("Graph::contractEdge:absent", f.where(), f"an edge that does not exist is contracted {txt}"); return
                for a, b in sorted(e2) if n < 4 else ():
                    if a == b:
                        continue
                    o2 = lib.graph(n, es)
                    lib.call(o2, name, s, t, k=3)
                    edges(lib, o2)
                    lib.call(o2, name, a, b, k=3)
                    lib.call(o2, "addVertex", t)
                    lib.call(o2, "addEdge", t, a, k=2)
                    v3, e3 = expect(v2, e2, a, b)
                    m = views(lib, o2, v3 + [t], e3 | {(t, a)}, nv)
                    if m:
                        c.bad(f"Graph::contractEdge:then:{m[1]}", f.where(), f"contracting two edges in turn and inserting a vertex again {txt}: {m[1]}"); return
                    c.ok("Graph::contractEdge twice")
        g = lib.fn(U, "addEdge", 2)
        for n in range(0, 4):
            for es in relations(n):
                vs = list(V[:n])
                o = lib.graph(n, es, U)
                ee = {(V[a], V[b]) for a, b in es} | {(V[b], V[a]) for a, b in es}
                bad = lib.call(o, "addEdge", V[4], V[0]) != 0 or lib.call(o, "addEdge", V[0], V[4]) != 0 or set(lib.call(o, "getVertices").keys()) != set(vs)
                for v in V[:n + 1]:
                    bad = bad or sorted(lib.call(o, "edgesIncidentTo", v)) != sorted(b for a, b in ee if a == v) or lib.call(o, "contains", v) != int(v in vs)
                    for w in V[:n + 1]:
                        bad = bad or lib.call(o, "hasEdge", v, w) != int((v, w) in ee)
                if bad or lib.call(o, "empty") != int(not vs):
                    c.bad("UndirectedGraph:queries", g.where(), f"a query of the undirected graph with edges {sorted(ee)} answers against its edges"); return
                c.ok("UndirectedGraph: queries")
    except geval.Unknown as x:
        c.undecided("Graph: sequences of updates", str(x))
    except geval.Fault as x:
        c.bad(f"Graph:{x}", f.where(), f"a sequence of insertions and contractions: {x}")
    except (geval._Sig, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError) as x:
        c.undecided("Graph: sequences of updates", f"{type(x).__name__} {x}")
