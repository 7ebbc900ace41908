"""C17: left-right Cayley complexes and quantum Tanner codes, over every group and every pair of symmetric subsets.

The loops that build graphs are followed for an arbitrary vertex g and arbitrary labels a, b (words of a free group): the
edges that one iteration adds, and the vertices that it puts on the worklist, are those of the contract. What follows for
the complex (faces at a vertex, shared faces, commuting checks, covers) is proved in vf/lemmas/Cayley.lean.
"""
from __future__ import annotations

import builtins
import itertools as _itertools

import z3
from vf import lemma
from qldpc import abstract, objects
from qldpc.codes import classical, common, quantum

from ..sym import loops, scalar
from ..sym.formal import GE
from ..sym.mat import CTX, Unsupported
from ..sym.prove import prove
from ..sym.scalar import SInt, assume

TRUSTED = [
    "networkx: add_edge(u, v, **data) adds the edge with its data, and its ends to the nodes, in order of first insertion",
    "sympy: products and inverses of permutations obey the group laws",
    "sorted() leaves a list of pairwise incomparable sets in its order",
]
O = "qldpc.objects.CayleyComplex."
Q = "qldpc.codes.quantum.QTCode."


# ------------------------------------------------------------------ generic iterations
class Generic:
    """Iteration over all items of a set: one arbitrary item. Effects count for all items only if the iteration is completed."""

    def __init__(self, make):
        self.make = make

    def __iter__(self):
        return Iteration(self.make)


class Iteration:
    def __init__(self, make):
        self.make, self.state, self.names = make, "new", ()

    def __iter__(self):
        return self

    def __next__(self):
        ctx = CTX[-1]
        open_ = ctx.__dict__.setdefault("open_iterations", [])
        if self.state == "new":
            self.state, self.at = "open", builtins.len(ctx.log)
            item, self.names = self.make()
            open_.append(self)
            return item
        if self.state == "open":
            self.state = "complete"
            if builtins.len(ctx.log) != self.at:
                raise Unsupported("iterations differ")
            open_.remove(self)
        raise StopIteration


def opened():
    return list(CTX[-1].__dict__.get("open_iterations", []))


def fresh(kind):
    return f"{kind}{next(CTX[-1].fresh)}"


class Subset(Generic):
    """An arbitrary nonempty symmetric subset of a group."""

    def __init__(self, kind):
        self.kind = kind
        super().__init__(self._item)

    def _item(self):
        n = fresh(self.kind)
        return GE(n), (n,)

    def __contains__(self, x):
        raise Unsupported("membership")

    def __len__(self):
        raise Unsupported("size of a subset")


def product(*its, **k):
    if k or not builtins.any(isinstance(i, Generic) for i in its):
        return _itertools.product(*its, **k)
    if not builtins.all(isinstance(i, Generic) for i in its):
        raise Unsupported("product")

    def make():
        out, names = [], ()
        for i in its:
            x, n = i.make()
            out.append(x)
            names += n
        return tuple(out), names
    return Generic(make)


class Itertools:
    product = staticmethod(product)

    def __getattr__(self, k):
        return getattr(_itertools, k)


class Effect:
    """Something added to a graph or set, with the letters it ranges over."""

    def __init__(self, *what):
        self.what, self.open = what, opened()

    def ready(self):
        """Counts for all values of its letters."""
        names = {n for it in self.open for n in it.names}
        used = {l for l in letters(self.what) if l != "g"}
        if not used <= names:
            raise Unsupported(f"{self.what} is added outside of the loops that bind {used - names}")
        return builtins.all(it.state == "complete" for it in self.open if used & set(it.names))


def letters(x):
    if isinstance(x, GE):
        return set(x.letters())
    if isinstance(x, (tuple, list, frozenset, set)):
        return set().union(*(letters(y) for y in x)) if x else set()
    return set()


def subst(x, m):
    if isinstance(x, GE):
        out = GE()
        for n, e in x.w:
            y = m.get(n, GE(n))
            out = out * (y if e > 0 else ~y)
        return out
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    if isinstance(x, (frozenset, set)):
        return frozenset(subst(y, m) for y in x)
    return x


def freeze(x):
    if isinstance(x, GE):
        return ("ge", x.w)
    if isinstance(x, (tuple, list)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, (frozenset, set)):
        return ("set", tuple(sorted(freeze(y) for y in x)))
    return x


def variants(x):
    """The same family of terms with labels renamed; labels range over symmetric sets."""
    names = sorted(letters(x) - {"g"})
    kinds = [n[0] for n in names]
    if builtins.len(set(kinds)) != builtins.len(kinds):
        raise Unsupported(f"several labels of one kind: {names}")
    for signs in _itertools.product((1, -1), repeat=builtins.len(names)):
        m = {n: GE(n[0]) if s > 0 else ~GE(n[0]) for n, s in zip(names, signs)}
        yield freeze(subst(x, m))


def same_families(c, effects, want, what):
    """The families of terms that are added are the wanted ones (each up to renaming of its labels)."""
    got = []
    for e in effects:
        if not e.ready():
            c.true(False, f"{what}: {e.what} is added for some labels only")
        got.append(set(variants(e.what)))
    want = [set(variants(w)) for w in want]
    for g in got:
        c.true(builtins.any(g == w for w in want), f"{what}: {sorted(g)[0]} is added, and not {[sorted(w)[0] for w in want]}")
    for w in want:
        c.true(builtins.any(g == w for g in got), f"{what}: {sorted(w)[0]} is missing")


# ------------------------------------------------------------------ worklists
class Snapshot:
    def __init__(self, graph):
        self.graph, self.version = graph, builtins.len(graph.effects)

    def copy(self):
        return self


class SymGraph:
    directed = False

    def __init__(self):
        self.effects = []
        self.order = []
        CTX[-1].__dict__.setdefault("graphs", []).append(self)

    def add_edge(self, u, v, **data):
        self.effects.append(Effect(u, v, tuple(sorted(data.items()))))

    def nodes(self):
        return Snapshot(self)

    def _no(self, *a, **k):
        raise Unsupported("a graph that is being built is read")

    __contains__ = __iter__ = __len__ = __getitem__ = edges = has_node = has_edge = _no


class NX:
    Graph = DiGraph = SymGraph


class SymSet:
    """A set that the code makes: effects, and what is joined to it."""

    def __init__(self, start=()):
        self.effects = []
        self.joined = []
        for x in start:
            self.effects.append(Effect(x))

    def add(self, x):
        self.effects.append(Effect(x))

    def update(self, *its):
        for it in its:
            if isinstance(it, (Diff, SymSet)):
                self.joined.append(it)
                continue
            for x in it:
                self.add(x)

    def __sub__(self, o):
        if isinstance(o, Snapshot):
            return Diff(self, o)
        raise Unsupported("difference")

    def difference(self, o):
        return self - o

    def __ior__(self, o):
        self.update(o) if isinstance(o, (Diff, SymSet)) else [self.add(x) for x in o]
        return self

    def __or__(self, o):
        out = SymSet()
        out.effects = list(self.effects)
        out.joined = list(self.joined)
        out |= o
        return out

    def pop(self):
        raise Unsupported("pop")

    def _no(self, *a):
        raise Unsupported("a set that is being built is read")

    __contains__ = __iter__ = __len__ = __bool__ = _no


class Diff:
    def __init__(self, s, snap):
        self.s, self.snap = s, snap


class Worklist(SymSet):
    def __init__(self):
        super().__init__()
        self.popped = False

    def pop(self):
        if self.popped:
            raise Unsupported("two nodes at a time")
        self.popped = True
        return GE("g")

    def __bool__(self):
        return CTX[-1].decide("there are nodes on the worklist")


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SymSet))

    def __call__(cls, x=()):
        if isinstance(x, (Snapshot, Subset)):
            return x
        return SymSet(x)


class sym_set(metaclass=_SetMeta):
    pass


class Building(loops.Loop):
    """while nodes_to_add: an arbitrary iteration"""

    mutates = loops.ANY

    def __init__(self, names, claim):
        self.names, self.claim = names, claim

    def enter(self, it, env):
        c = CTX[-1].claims
        work = [v for v in env.values() if isinstance(v, SymSet)]
        if builtins.len(work) != 1:
            raise Unsupported("worklist")
        got = [e.what for e in work[0].effects]
        c.true(builtins.len(got) == 1 and not work[0].joined and got[0][0].w == (), f"the worklist starts with the identity: {got}")
        c.true(builtins.all(not g.effects for g in CTX[-1].graphs), "the graphs are empty at the start")
        self.name = next(k for k, v in env.items() if isinstance(v, SymSet))

    def havoc(self, env):
        w = Worklist()
        graphs = {k for k, v in env.items() if isinstance(v, SymGraph)}
        extra = set(self.roots) - graphs - {self.name}
        if extra:
            raise Unsupported(f"modified: {extra}")
        CTX[-1].work = w
        self.rebound = True
        return {self.name: w}

    def back(self, env):
        c, ctx = CTX[-1].claims, CTX[-1]
        w = env[self.name]
        if not isinstance(w, Worklist) or w is not ctx.work or not w.popped:
            raise Unsupported("another worklist")
        new = list(w.effects)
        for j in w.joined:
            if isinstance(j, Diff):
                c.true(j.snap.version == 0, "a node is left out only if it was in the graph before the iteration (it is done or on the worklist)")
                new += j.s.effects
                if j.s.joined:
                    raise Unsupported("joined sets")
            else:
                new += j.effects
        for e in new:
            if not e.ready():
                c.true(False, f"{e.what} is put on the worklist for some labels only")
        self.claim(c, {freeze_all(e.what[0]) for e in new}, env)


def freeze_all(x):
    return frozenset(variants(x))


def fam(x):
    return frozenset(variants(x))


def complexes(h):
    P = lambda name, target, body, mods=(objects,), **k: prove(h, name, target, body, list(mods), plain=True, **{**dict(nx=NX, set=sym_set, itertools=Itertools()), **k})
    g, a, b = GE("g"), GE("a"), GE("b")

    def reached(c, new, moves, what):
        for m in moves:
            c.true(fam(m) in new, f"{what}: {m} is not put on the worklist")
        allowed = {fam(x) for x in moves} | {fam(g)}
        c.true(new <= allowed, f"{what}: other nodes are put on the worklist: {new - allowed}")

    def cayley(ctx, c, F):
        def claim(c, new, env):
            graphs = ctx.graphs
            c.true(builtins.len(graphs) == 1, "one graph")
            want = [(g, a * g, (("type", "L"),)), (g, g * b, (("type", "R"),))]
            same_families(c, graphs[0].effects, want, "edges of a vertex")
            reached(c, new, [a * g, g * b], "neighbours")
        with loops.cut(objects.CayleyComplex, "build_cayley_graph", {0: Building(["nodes_to_add"], claim)}):
            out = objects.CayleyComplex.build_cayley_graph(Subset("a"), Subset("b"))
        c.true(out is ctx.graphs[0], "the graph is returned when the worklist is empty")
    P("build_cayley_graph: each vertex gets exactly its edges (g, ag) and (g, gb); neighbours are visited", O + "build_cayley_graph", cayley, min_paths=2)

    def subgraphs(ctx, c, F):
        def claim(c, new, env):
            x, z = env["subgraph_x"], env["subgraph_z"]
            face = frozenset([g, a * g, g * b, a * g * b])
            same_families(c, x.effects, [(g, face, (("sort", (a, b)),))], "X subgraph")
            same_families(c, z.effects, [(a * g, face, (("sort", (~a, b)),))], "Z subgraph")
            c.true([freeze(e.what[1]) for e in x.effects] == [freeze(e.what[1]) for e in z.effects], "faces are added to both graphs in the same order")
            reached(c, new, [a * g * b], "opposite corners")

        class Complex:
            cover_subset_a, cover_subset_b = Subset("a"), Subset("b")
        with loops.cut(quantum.QTCode, "get_subgraphs", {0: Building(["nodes_to_add"], claim)}):
            out = quantum.QTCode.get_subgraphs(Complex())
        c.true(isinstance(out, tuple) and builtins.len(out) == 2 and out[0] is not out[1], "two graphs")
        c.true(out[0] is ctx.graphs[0] and out[1] is ctx.graphs[1], "X first")
    P("get_subgraphs: X edges (g, f) with label (a, b), Z edges (ag, f) with label (a^-1, b), for all faces f; opposite corners are visited",
      Q + "get_subgraphs", subgraphs, (quantum,), min_paths=2)

    def probe(ctx, c, F):
        e = SymGraph()
        for x in Subset("a"):
            e.add_edge(g, x * g, type="L")
        same_families(c, e.effects, [(g, g * a, (("type", "L"),))], "edges")
    prove(h, "labels act from the other side", O + "build_cayley_graph", probe, [objects], plain=True, expect="fail")

    # ---- covers and conditions
    class Member:
        """A member a of a subset, or a direct product with members of Z_2."""

        def __init__(self, parts):
            self.parts = parts

        def __matmul__(self, o):
            return Member(self.parts + (o.parts if isinstance(o, Member) else (o,)))

    def covers(ctx, c, F):
        cyc = list(abstract.CyclicGroup(2).generate())
        one = [m for m in cyc if m * m == m][0]
        shift = [m for m in cyc if m is not one][0]

        class Me:
            bipartite = ctx.decide("bipartite")
            subset_a = Generic(lambda: (Member(("a",)), ("a",)))
            subset_b = Generic(lambda: (Member(("b",)), ("b",)))
        out = {}
        for n in "ab":
            got = objects.CayleyComplex.__dict__[f"cover_subset_{n}"].func(Me())
            got = [e.what[0] for e in got.effects] if isinstance(got, SymSet) else list(got)
            c.true(builtins.len(got) == 1 and isinstance(got[0], Member) and got[0].parts[0] == n, f"cover_subset_{n} is made of the members of subset_{n}")
            rest = got[0].parts[1]
            out[n] = rest if builtins.len(got[0].parts) == 2 else got[0].parts[1] @ got[0].parts[2]
        wa, wb = (shift, shift) if Me.bipartite else (shift @ one, one @ shift)
        if not Me.bipartite and out["a"] == one @ shift:
            wa, wb = wb, wa  # the two factors may be named either way
        c.true(out["a"] == wa and out["b"] == wb, f"labels in the cover: {out}")
    P("covers: (a, 1), (b, 1) in the double cover, (a, 1, 0), (b, 0, 1) in the quadruple cover", O + "cover_subset_a", covers, min_paths=2)

    def tnc(ctx, c, F):
        got = objects.CayleyComplex.satisfies_total_no_conjugacy(LooseSubset("a"), LooseSubset("b"))
        flat = sorted(x.w.letters()[0] for x in ctx.generators)
        c.true(flat == ["a", "b"], f"the group is generated by both subsets: {flat}")
        forms = [frozenset([freeze(x), freeze(y)]) for s, t in _itertools.product((a, ~a), (b, ~b)) for x, y in ((s * g, g * t), (s, g * t * ~g), (~g * s * g, t))]
        if builtins.len(ctx.compared) != 1 or ctx.compared[0] not in forms:
            raise Unsupported(f"another form of the condition: {ctx.compared}")
        c.true(got == (not ctx.log[-1][1]), "the condition holds if ag != gb for all g, a, b")
    P("satisfies_total_no_conjugacy: ag != gb for all members g of the group that both subsets generate", O + "satisfies_total_no_conjugacy", tnc,
      min_paths=2, abstract=Abstract(), itertools=LooseItertools())

    def init(ctx, c, F):
        asked = {}

        class M:
            def __init__(self, s, inv=False):
                self.s, self.inv = s, inv

            def __invert__(self):
                return M(self.s, not self.inv)

        class Sub:
            def __init__(self, n):
                self.n = n

            def __iter__(self):
                yield M(self.n)

            def __contains__(self, x):
                if not x.inv:
                    return x.s == self.n or self._no()
                if x.s != self.n:
                    raise Unsupported("members of the other subset")
                if self.n not in asked:
                    asked[self.n] = ctx.decide(f"inverses of {self.n} are in {self.n}")
                return asked[self.n]

            def _no(self):
                raise Unsupported("membership")
        A, B = Sub("A"), Sub("B")
        given = ctx.decide("two subsets are given")
        bip = ctx.decide("bipartite")
        calls = []

        class Base(objects.CayleyComplex):
            pass

        def cond(x, y):
            calls.append((x, y))
            return ctx.decide("total no-conjugacy")
        saved = objects.CayleyComplex.__dict__["satisfies_total_no_conjugacy"]
        objects.CayleyComplex.satisfies_total_no_conjugacy = staticmethod(cond)
        me = object.__new__(objects.CayleyComplex)
        try:
            me.__init__(A, B if given else None, bipartite=bip)
            ok = True
        except ValueError:
            ok = False
        finally:
            objects.CayleyComplex.satisfies_total_no_conjugacy = saved
        cond_failed = [v for k, v in ctx.log if k == "total no-conjugacy"] == [False]
        asym = False in asked.values()
        c.true(ok == (not asym and not cond_failed), "a ValueError is raised exactly if a subset is not symmetric, or the condition fails")
        if ok:
            c.true(set(asked) == ({"A", "B"} if given else {"A"}), f"symmetry is checked: {asked}")
            second = B if given else A
            c.true(bool(calls) == bip and builtins.all(set(map(id, x)) == {id(A), id(second)} for x in calls), "the condition is checked for bipartite complexes")
            c.true(me.subset_a is A and me.subset_b is second and me.bipartite is bip, "data are kept")
    P("CayleyComplex: subsets are checked to be symmetric, bipartite complexes to satisfy total no-conjugacy", O + "__init__", init, min_paths=6,
      set=lambda x=(): x if not isinstance(x, (list, tuple)) else builtins.set(x))
    lemma.check(h, "Cayley")


class Loose:
    """One arbitrary item; what is decided about it decides all() and any()."""

    def __init__(self, item):
        self.item = item

    def __iter__(self):
        yield self.item


class LooseSubset(Loose):
    def __init__(self, n):
        super().__init__(El(GE(n)))


class LooseItertools(Itertools):
    @staticmethod
    def product(*its):
        return Loose(tuple(i.item for i in its))


class El:
    def __init__(self, w):
        self.w = w

    def __mul__(self, o):
        return El(self.w * o.w)

    def __invert__(self):
        return El(~self.w)

    def __eq__(self, o):
        ctx = CTX[-1]
        ctx.__dict__.setdefault("compared", []).append(frozenset([freeze(self.w), freeze(o.w)]))
        return ctx.decide("equal")

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Generated(Loose):
    def __init__(self, *gens):
        CTX[-1].generators = gens
        super().__init__(El(GE("g")))

    def generate(self):
        return self


class Abstract:
    Group = Generated

    def __getattr__(self, k):
        return getattr(abstract, k)


# ------------------------------------------------------------------ Tanner codes
class DiG:
    """A directed graph from sources to sinks."""

    def in_degree(self, n):
        return Degree("in")

    def out_degree(self, n):
        return Degree("out")

    def comprehension(self, cond, elt):
        n = Node("node")
        f = cond(n)
        if not isinstance(f, str) or elt(n) is not n:
            raise Unsupported("nodes")
        return Nodes({"in=0": "sources", "out=0": "sinks"}.get(f) or self._no())

    def _no(self, *a):
        raise Unsupported("graph")

    __iter__ = nodes = _no

    def neighbors(self, n):
        if n.name != "source":
            raise Unsupported("neighbours of another node")
        return Nbrs()

    successors = neighbors

    def __getitem__(self, n):
        class Row:
            def __getitem__(self, k):
                return Data(n, k)
        return Row()


class Degree:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, k):
        return f"{self.kind}={k}"

    __hash__ = None

    def __bool__(self):
        raise Unsupported("degree")


class Node:
    def __init__(self, name):
        self.name = name


class Nbrs:
    pass


class Data:
    def __init__(self, u, v):
        self.u, self.v = u, v

    def get(self, key, default=None):
        return ("get", self.u.name, self.v.name, key, getattr(default, "name", default))


class Nodes:
    def __init__(self, kind, order=None):
        self.kind, self.order = kind, order

    def length(self):
        return SInt(f"number_of_{self.kind}")


class OrderedNbrs:
    def comprehension(self, cond, elt):
        s = Node("neighbour")
        if cond(s) is not True:
            raise Unsupported("condition")
        got = elt(s)
        if not (isinstance(got, Position) and got.node is s and got.of == "sinks"):
            CTX[-1].claims.true(False, f"bits are the indices of the neighbours among the sinks: {got!r}")
        return Bits()


class Bits:
    """The indices of the sorted neighbours."""


class Position:
    def __init__(self, of, node):
        self.of, self.node = of, node


class Enum:
    def __init__(self, nodes):
        self.nodes = nodes

    def dict_comprehension(self, cond, key, value):
        i, n = object(), Node("any")
        if cond(i, n) is not True or key(i, n) is not n or value(i, n) is not i:
            raise Unsupported("index")
        return IndexMap(self.nodes)

    def __iter__(self):
        if self.nodes.kind != "sources" or self.nodes.order is None:
            raise Unsupported("loop")
        idx = SInt("idx")
        assume(z3.And(idx.z >= 0, idx.z < scalar.term(self.nodes.length())))
        n = builtins.len(CTX[-1].log)
        yield idx, Node("source")
        if builtins.len(CTX[-1].log) != n:
            raise Unsupported("iterations differ")
        CTX[-1].completed = True


class IndexMap:
    def __init__(self, nodes):
        self.nodes = nodes

    def __getitem__(self, n):
        return Position(self.nodes.kind, n)


def t_sorted(x, key=None, **k):
    if k:
        raise Unsupported("sorted")
    if isinstance(x, Nodes) and key is None:
        return Nodes(x.kind, "sorted")
    if isinstance(x, Nbrs):
        n = Node("neighbour")
        CTX[-1].sort_key = key(n) if key is not None else "neighbour"
        return OrderedNbrs()
    return builtins.sorted(x, key=key)


def t_enumerate(x, *a):
    return Enum(x) if isinstance(x, Nodes) and not a else builtins.enumerate(x, *a)


class Span:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class TMatrix:
    def __init__(self, shape):
        self.shape, self.writes = shape, []

    def __setitem__(self, k, v):
        self.writes.append((k, v))


class TNP:
    @staticmethod
    def zeros(shape, dtype=None):
        return TMatrix(tuple(shape))

    @staticmethod
    def ix_(a, b):
        return (a, b)

    @staticmethod
    def arange(*a, **k):
        return t_range(*a)

    def __getattr__(self, k):
        raise Unsupported(f"np.{k}")


def t_range(*a):
    if any(isinstance(x, SInt) for x in a):
        return Span(0 if builtins.len(a) == 1 else a[0], a[-1 if builtins.len(a) == 1 else 1])
    return builtins.range(*a)


def tanner(h):
    def build(ctx, c, F):
        class Sub:
            num_checks = SInt("num_checks")
            matrix = object()

            class field:
                order = object()
        sub = Sub()
        assume(Sub.num_checks.z >= 0)
        made = []
        C = classical.TannerCode
        g = DiG()
        with loops.cut(C, "__init__", {}):
            class Base:
                @staticmethod
                def __init__(self, matrix, field=None, **k):
                    made.append((matrix, field))
            saved = classical.ClassicalCode
            classical.ClassicalCode = Base
            me = object.__new__(C)
            me._get_sorted_neighbors = lambda node: OrderedNbrs() if isinstance(node, Node) and node.name == "source" else c.true(False, "neighbours of the source")
            try:
                C.__dict__["__init__"](me, g, sub)
            finally:
                classical.ClassicalCode = saved
        c.true(me.subgraph is g and me.subcode is sub, "graph and local code are kept")
        c.true(builtins.len(made) == 1, "one matrix")
        m, q = made[0]
        c.true(isinstance(m, TMatrix) and q is Sub.field.order, "the field of the local code")
        S, K, n = SInt("number_of_sources").z, Sub.num_checks.z, SInt("number_of_sinks").z
        c.valid(z3.And(scalar.term(m.shape[0]) == S * K, scalar.term(m.shape[1]) == n), "one block of checks for each source, one column for each sink")
        c.true(builtins.len(m.writes) == 1 and getattr(ctx, "completed", False), "one block is written for each source")
        (rows, cols), v = m.writes[0]
        idx = SInt("idx").z
        c.true(isinstance(rows, Span) and isinstance(cols, Bits) and v is sub.matrix, "the checks of the local code, at the sorted neighbours")
        c.valid(z3.And(scalar.term(rows.lo) == K * idx, scalar.term(rows.hi) == K * idx + K), "rows of the block")
    prove(h, "TannerCode: the rows of source v are the checks of the local code on its sorted neighbours, and zero elsewhere",
          "qldpc.codes.classical.TannerCode.__init__", build, [classical], plain=True, np=TNP(), range=t_range, sorted=t_sorted, enumerate=t_enumerate,
          len=lambda x: x.length() if isinstance(x, Nodes) else builtins.len(x), isinstance=lambda x, t: True if isinstance(x, DiG) else builtins.isinstance(x, t))

    def neighbours(ctx, c, F):
        me = object.__new__(classical.TannerCode)
        me.subgraph = DiG()
        out = classical.TannerCode._get_sorted_neighbors(me, Node("source"))
        c.true(isinstance(out, OrderedNbrs), "all neighbours")
        c.true(ctx.sort_key == ("get", "source", "neighbour", "sort", "neighbour"), f"ordered by the sort attribute of the edge: {ctx.sort_key}")
    prove(h, "TannerCode: neighbours are ordered by the label of their edge", "qldpc.codes.classical.TannerCode._get_sorted_neighbors", neighbours,
          [classical], plain=True, sorted=t_sorted)

    def subcodes(ctx, c, F):
        class Code:
            def __init__(self, t):
                self.t = t

            def __invert__(self):
                return Code(self.t[1] if self.t[0] == "dual" else ("dual", self.t))

        class Classical:
            @staticmethod
            def tensor_product(a, b):
                return Code(("tensor", a.t, b.t))

        cay = object()
        asked = []

        def graphs(x):
            asked.append(x)
            return "graph_x", "graph_z"
        saved = quantum.QTCode.__dict__["get_subgraphs"], quantum.TannerCode, quantum.ClassicalCode
        quantum.QTCode.get_subgraphs = staticmethod(graphs)
        quantum.TannerCode, quantum.ClassicalCode = (lambda g, s: (g, s.t)), Classical
        try:
            x, z = quantum.QTCode.get_subcodes(cay, Code(("A",)), Code(("B",)))
        finally:
            quantum.QTCode.get_subgraphs, quantum.TannerCode, quantum.ClassicalCode = saved
        c.true(asked and all(y is cay for y in asked), "subgraphs of the complex")
        A, B = ("A",), ("B",)
        c.true(x == ("graph_x", ("dual", ("tensor", A, B))), f"X checks at g are words of C_A (x) C_B: {x}")
        c.true(z == ("graph_z", ("dual", ("tensor", ("dual", A), ("dual", B)))), f"Z checks are words of ~C_A (x) ~C_B: {z}")
    prove(h, "get_subcodes: X checks are words of C_A (x) C_B, Z checks words of ~C_A (x) ~C_B", Q + "get_subcodes", subcodes, [quantum], plain=True)

    def init(ctx, c, F):
        made = {}

        class Code:
            def __init__(self, t, field):
                self.t, self.field = t, field

            def __invert__(self):
                return Code(("dual", self.t), self.field)

        fields = {"A": "F", "B": "F" if ctx.decide("same field") else "G"}
        field = "F" if ctx.decide("field given") else None

        def classical_code(x, f=None):
            return Code(x, f if f is not None else fields[x])

        class Subset:
            def __init__(self, n):
                self.n = n

            def length(self):
                return SInt(f"len_{self.n}")

        class CSS:
            @staticmethod
            def __init__(self, x, z, f=None, **k):
                made["css"] = (x, z, f, k)

        class Q2(quantum.QTCode):
            @staticmethod
            def get_subcodes(cay, a, b):
                made["sub"] = (cay, a, b)
                return "code_x", "code_z"
        saved = quantum.ClassicalCode, quantum.CayleyComplex, quantum.CSSCode
        quantum.ClassicalCode = classical_code
        quantum.CayleyComplex = lambda a, b, bipartite=False: ("complex", a, b, bipartite)
        quantum.CSSCode = CSS
        A, B = Subset("A"), Subset("B")
        two = ctx.decide("two codes")
        bip = ctx.decide("bipartite")
        me = object.__new__(Q2)
        try:
            quantum.QTCode.__init__(me, A, B, "A", "B" if two else None, field, bipartite=bip)
        except ValueError:
            if two:
                c.true(field is None and fields["B"] == "G", "codes over one field are accepted")
            else:
                c.valid(z3.Not(SInt("len_A").z == SInt("len_B").z), "one code is enough if the subsets have the same size")
            return
        finally:
            quantum.ClassicalCode, quantum.CayleyComplex, quantum.CSSCode = saved
        if two:
            c.true(field is not None or fields["B"] == "F", "codes over different fields are refused")
        else:
            c.valid(SInt("len_A").z == SInt("len_B").z, "the second code may be left out only if the subsets have the same size")
        cay, a, b = made["sub"]
        c.true(cay[0] == "complex" and cay[1] is A and cay[2] is B and cay[3] is bip and me.complex is cay, "the complex of both subsets")
        c.true(a.t == "A" and b.t == ("B" if two else ("dual", "A")) and me.code_a is a and me.code_b is b, "local codes")
        x, z, f, k = made["css"]
        c.true((x, z) == ("code_x", "code_z") and f in (field, "F"), "X and Z sectors")
        c.true(k.get("is_subsystem_code") in (None, False), "a stabilizer code: its checks commute (lemma checks_commute)")
    prove(h, "QTCode: complex and local codes are those that were given; sectors are the Tanner codes", Q + "__init__", init, [quantum], plain=True, min_paths=8,
          len=lambda x: x.length() if hasattr(x, "length") else builtins.len(x))
