"""C10: elements of group algebras, over every group and every field.

An element is a function from the group to the field. Each operation is proved to write exactly the terms that its
definition in the group algebra prescribes, for an arbitrary term (or pair of terms) of its operands; that these
definitions form a ring, and that lifting is multiplicative, is a theorem about monoid algebras (vf/lemmas/GroupAlgebra.lean).
"""
from __future__ import annotations

import builtins
import collections
import contextlib
import functools
import itertools
import operator

from qldpc import abstract

from ..sym import formal, loops
from ..sym.formal import GE, Fold, Idx, Poly, Vec
from ..sym.mat import CTX, Unsupported
from ..sym.prove import prove

TRUSTED = [
    "sympy: products and inverses of permutations obey the group laws; two equal permutations have equal hashes",
    "galois: arithmetic of field elements is that of the field, and the product with an integer is the repeated sum",
    "collections.defaultdict(f)[k] is f() for a key that has not been set; numpy: assignment to an entry changes this entry only",
]
A = "qldpc.abstract."
MODS = [abstract]


class _MemberMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, GE) or isinstance(x, cls.real)


class SymMember(metaclass=_MemberMeta):
    real = abstract.GroupMember


class _Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, Poly) and getattr(x, "t", None) is not None and any("int" in n for m in x.t for n in m)

    def __call__(cls, x=0, *a):
        return x if isinstance(x, Poly) else builtins.int(x, *a)


class sym_int(metaclass=_Int):
    pass


class Rep:
    """coef * L(g): the matrix of a group member under a lift."""

    __array_ufunc__ = None

    def __init__(self, kind, g, coef=1):
        self.kind, self.g, self.coef = kind, g, Poly.of(coef)

    def __mul__(self, s):
        return Rep(self.kind, self.g, self.coef * s)

    __rmul__ = __mul__


class Field:
    """The field: scalars are polynomials already."""

    order = 5

    def __call__(self, x):
        return Poly.of(x)

    def Zeros(self, shape):
        v = Vec()
        v.shape = shape
        return v


class Order:
    """The order of the group."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Order) and o.name == self.name

    __hash__ = None

    def __rmul__(self, o):
        raise Unsupported("order")


class FakeGroup(abstract.Group):
    def __init__(self):
        self.order_ = Order("order")

    order = property(lambda self: self.order_)
    identity = property(lambda self: GE())
    lift_dim = property(lambda self: Order("lift_dim"))

    def index(self, g):
        return Idx(g)

    def regular_lift(self, g):
        return Rep("regular", g)

    def lift(self, g):
        return Rep("lift", g)

    def generate(self):
        return AllMembers()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class AllMembers:
    """Iterating over all members of the group (in the order of their indices)."""

    def __iter__(self):
        raise Unsupported("iteration over all members")


def ring():
    r = object.__new__(abstract.GroupRing)
    r._group, r._field = FakeGroup(), Field()
    return r


def element(r, name):
    x = object.__new__(abstract.RingMember)
    x._ring = r
    x._vec = Vec(name, owned=True)
    x._vec.value = ("arbitrary", name)
    return x


def defaultdict(factory=None, *a):
    if a or factory is None:
        return collections.defaultdict(factory, *a)
    probe = factory()
    if not isinstance(probe, Poly) or probe.t:
        raise Unsupported("the default of a dictionary is not zero")
    return Vec()


class Product:
    def __init__(self, *its):
        self.its = its

    def __iter__(self):
        raise Unsupported("iteration over pairs of terms")


class Itertools:
    def __getattr__(self, k):
        return getattr(itertools, k)

    @staticmethod
    def product(*its, **k):
        if any(isinstance(x, abstract.RingMember) or isinstance(x, AllMembers) for x in its):
            if k:
                its = its * k.pop("repeat")
            return Product(*its)
        return itertools.product(*its, **k)


class Collections:
    defaultdict = staticmethod(defaultdict)

    def __getattr__(self, k):
        return getattr(collections, k)


EXTRA = dict(GroupMember=SymMember, collections=Collections(), itertools=Itertools(), int=sym_int,
             sum=formal.sym_sum, any=formal.sym_any, all=formal.sym_all)


def term(x):
    """An arbitrary term of x: (coefficient, member), as RingMember.__iter__ yields it."""
    def make():
        g = GE(f"g{next(CTX[-1].fresh)}")
        return (Poly(f"{x._vec.base}[{g!r}]"), g)
    return make


def over(x):
    return lambda it: it is x


def accumulator(env):
    """The vector of the element that the function builds: the only one that is not owned by the caller."""
    got = {id(v): v for x in env.values() for v in (getattr(x, "_vec", None), x) if isinstance(v, Vec) and not v.owned}
    if len(got) != 1:
        raise Unsupported(f"{len(got)} vectors are built")
    return next(iter(got.values()))


def fold(x, spec, own=True):
    """The loop over the terms of x adds spec(coefficient, member) to the vector that the function builds."""
    return Fold(over(x), term(x), accumulator, lambda it: spec(*it), own=(lambda it: it[1].letters()) if own else None)


@contextlib.contextmanager
def replaced(owner, **kw):
    """Callees are replaced by their contracts."""
    saved = {k: owner.__dict__[k] for k in kw}
    try:
        for k, v in kw.items():
            setattr(owner, k, v)
        yield
    finally:
        for k, v in saved.items():
            setattr(owner, k, v)


def copy_contract(self):
    new = object.__new__(abstract.RingMember)
    new._ring = self._ring
    new._vec = Vec(self._vec.base)
    new._vec.value = self._vec.value
    return new


def result(c, ctx, r, x, what):
    """The result is a new element of the same ring."""
    c.true(isinstance(r, abstract.RingMember) and r is not x and r._ring is x._ring, f"{what}: an element of the same ring")
    formal.closed(ctx)
    return r._vec


def same_sum(c, v, start, f, what):
    c.true(isinstance(v.value, tuple) and v.value[0] == "sum" and v.value[1] == start and v.value[2] is f and not v.log,
           f"{what}: the sum of the terms, and nothing else")


def elements(h):
    R = abstract.RingMember

    def run_fold(name, args_of, spec, over_index=0, start=False, contracts=None, who=None):
        """Method `name` is a fold of spec over the terms of its operand."""
        def body(ctx, c, F):
            r = ring()
            x = element(r, "x")
            args, items = args_of(r, x)
            f = fold(items, spec(args), own=True)
            with contextlib.ExitStack() as st:
                if contracts:
                    st.enter_context(replaced(R, **contracts))
                st.enter_context(loops.cut(R, name, {over_index: f}))
                raw = R.__dict__[name]
                out = raw.__get__(x, R) if isinstance(raw, property) else getattr(x, name)(*args)
            v = result(c, ctx, out, x, name)
            same_sum(c, v, ("arbitrary", "x") if start else None, f, name)
            c.untouched()
        return body

    one = lambda v, g: [(g, v)]
    P = lambda name, target, body, **k: prove(h, name, A + target, body, MODS, plain=True, **EXTRA, **k)
    P("copy: the same terms, in a new vector", "RingMember.copy", run_fold("copy", lambda r, x: ((), x), lambda a: one))
    P("transpose: the inverse of each member", "RingMember.T", run_fold("T", lambda r, x: ((), x), lambda a: lambda v, g: [(~g, v)]))
    num = Poly("int")
    # the methods dispatch on the type of the operand, with one loop per type
    P("x * n: coefficients times n", "RingMember.__mul__",
      run_fold("__mul__", lambda r, x: ((num,), x), lambda a: lambda v, g: [(g, v * num)], 0))
    s = GE("s")
    P("x * s for a member s: members times s from the right", "RingMember.__mul__",
      run_fold("__mul__", lambda r, x: ((s,), x), lambda a: lambda v, g: [(g * s, v)], 1))
    P("s * x for a member s: members times s from the left", "RingMember.__rmul__",
      run_fold("__rmul__", lambda r, x: ((s,), x), lambda a: lambda v, g: [(s * g, v)], 0))

    def add(ctx, c, F):
        r = ring()
        x, y = element(r, "x"), element(r, "y")
        f = fold(y, one)
        with replaced(R, copy=copy_contract), loops.cut(R, "__add__", {0: f}):
            out = x + y
        v = result(c, ctx, out, x, "x + y")
        same_sum(c, v, ("arbitrary", "x"), f, "x + y")
        c.untouched()
    P("x + y: coefficients are added", "RingMember.__add__", add)

    def add_member(ctx, c, F):
        x = element(ring(), "x")
        with replaced(R, copy=copy_contract):
            out = x + s if ctx.decide("on the right") else R.__radd__(x, s)
        v = result(c, ctx, out, x, "x + s")
        c.true(v.base == "x" and set(v.log) == {s} and (v.log[s] - Poly("x[s]") - 1).is_zero(), f"x + s adds 1 at s: {v.log}")
        c.untouched()
    P("x + s for a member s", "RingMember.__add__", add_member, min_paths=2)

    def mul(ctx, c, F):
        r = ring()
        x, y = element(r, "x"), element(r, "y")

        def pair():
            return (term(x)(), term(y)())
        f = Fold(lambda it: isinstance(it, Product) and len(it.its) == 2 and it.its[0] is x and it.its[1] is y, pair,
                 accumulator, lambda it: [(it[0][1] * it[1][1], it[0][0] * it[1][0])])
        with loops.cut(R, "__mul__", {2: f}):
            out = x * y
        v = result(c, ctx, out, x, "x * y")
        same_sum(c, v, None, f, "x * y")
        c.untouched()
    P("x * y: every pair of terms adds the product of coefficients at the product of members", "RingMember.__mul__", mul)

    def init(ctx, c, F):
        r = ring()
        plain = ctx.decide("the term is a member")
        x = object.__new__(R)
        value = Poly("val")

        class Terms:
            pass
        terms = Terms()
        g = GE("g")
        f = Fold(lambda it: it is terms, lambda: g if plain else (value, g), accumulator,
                 lambda it: [(g, Poly(1) if plain else value)])
        with loops.cut(R, "__init__", {0: f}, transform=star("terms")):
            R.__init__(x, r, terms)
        c.true(x._ring is r, "the ring is kept")
        same_sum(c, x._vec, None, f, "RingMember(ring, *terms)")
    P("RingMember(ring, *terms) is the sum of the terms", "RingMember.__init__", init, min_paths=2)

    def iterate(ctx, c, F):
        x = element(ring(), "x")
        got = list(x)
        ctx.open_terms = 0
        c.true(len(got) == 1 and isinstance(got[0], tuple) and len(got[0]) == 2, "one pair for each term")
        val, g = got[0]
        c.true(isinstance(g, GE) and (val - Poly(f"x[{g!r}]")).is_zero(), f"the pair is (coefficient, member): {got}")
        c.untouched()
    P("iterating yields (coefficient, member) of every term", "RingMember.__iter__", iterate)

    def derived(ctx, c, F):
        """Operations that are defined by others: over the contracts of those."""
        r = ring()
        Expr = free_elements(r)
        x, y = Expr("x"), Expr("y")
        which = [w for w in ("-x", "x - y", "x - s", "x - n", "x + n", "n * x") if ctx.decide(w)][:1] or ["zero and one"]
        w = which[0]
        num = 7
        if w == "-x":
            c.true(same(R.__neg__(x), {("x",): -1}), "-x")
        elif w == "x - y":
            c.true(same(R.__sub__(x, y), {("x",): 1, ("y",): -1}), "x - y")
        elif w == "x - s":
            c.true(same(R.__sub__(x, Expr("s")), {("x",): 1, ("s",): -1}), "x - s")
        elif w == "x - n":
            c.true(same(R.__sub__(x, num), {("x",): 1, (): -num}), "x - n")
        elif w == "x + n":
            c.true(same(with_one(r, Expr, lambda: R.__add__(x, num)), {("x",): 1, (): num}), "x + n")
        elif w == "n * x":
            c.true(same(R.__rmul__(x, num), {("x",): num}), "n * x")
        else:
            z = abstract.GroupRing.zero.fget(r)
            c.true(isinstance(z, R) and z._ring is r and z._vec.base is None and not z._vec.log, "ring.zero has no terms")
            o = abstract.GroupRing.one.fget(r)
            c.true(o._ring is r and o._vec.base is None and list(o._vec.log) == [GE()] and (o._vec.log[GE()] - 1).is_zero(),
                   "ring.one is the identity with coefficient 1")
    P("negation, differences, integers, zero and one", "RingMember.__neg__, __sub__, __rmul__, GroupRing.zero, GroupRing.one", derived, min_paths=6)

    def power(ctx, c, F):
        r = ring()
        Expr = free_elements(r)
        x = Expr("x")
        k = Count("k")
        seen = []

        def reduce(f, seq, *init):
            if not isinstance(seq, Repeated) or seq.n is not k or len(seq.what) != 1 or seq.what[0] is not x or len(init) != 1:
                raise Unsupported("power is not a fold of the element")
            step = f(Expr("acc"), seq.what[0])
            seen.append((init[0], step))
            return "folded"

        class F2:
            def __getattr__(self, n):
                return getattr(functools, n)
        ft = F2()
        ft.reduce = reduce
        saved = abstract.functools
        abstract.functools = ft
        try:
            out = with_one(r, Expr, lambda: R.__pow__(x, k))
        finally:
            abstract.functools = saved
        c.true(out == "folded" and same(seen[0][0], {(): 1}) and same(seen[0][1], {("acc", "x"): 1}), "x**0 = 1 and x**(k+1) = x**k * x")
    P("x**k is the k-fold product", "RingMember.__pow__", power)

    def equality(ctx, c, F):
        r, other_ring = ring(), ctx.decide("the rings differ")
        x, y = element(r, "x"), element(ring() if other_ring else r, "y")
        eq = R.__eq__(x, y)
        ctx.open_terms = 0
        q = getattr(ctx, "quantified", [])
        if other_ring:
            c.true(not eq, "elements of different rings differ")
            return
        # two quantified clauses: over the terms of x, and over the terms of y; each compares the coefficients there
        tests = [l for l, d in ctx.log if "is not zero" in l]
        got = {frozenset(re_terms(t)) for t in tests}
        ok = all(len({k for _, k in pair}) == 1 and {n for n, _ in pair} == {"x", "y"} for pair in got)
        c.true(ok, f"coefficients of the same member are compared: {tests}")
        if eq:
            c.true(sorted(ctx.iterated) == ["x", "y"], f"the terms of both elements are compared: {ctx.iterated}")
            c.true(len(q) == 2 and all(k == "all" and v and n == 1 for k, v, n in q) and len(got) == 2 and all(not d for l, d in ctx.log if l in tests),
                   f"equal only if the coefficients at all terms of x and of y agree: {q} {ctx.log}")
        else:
            c.true(any(d for l, d in ctx.log if l in tests), "different only if some coefficient differs")
        c.untouched()
    P("x == y: equal coefficients everywhere, in the same ring", "RingMember.__eq__", equality, min_paths=3)

    def truth(ctx, c, F):
        x = element(ring(), "x")
        b = R.__bool__(x)
        q = getattr(ctx, "quantified", [])
        nz = [d for l, d in ctx.log if "is not zero" in l]
        c.true(len(q) == 1 and q[0][0] == "any" and q[0][2] == 1 and len(nz) == 1 and b == nz[0],
               f"true exactly if some coefficient is not zero: {ctx.log}")
    P("an element is true exactly if some coefficient is not zero", "RingMember.__bool__", truth, min_paths=2)

    def vector(ctx, c, F):
        r = ring()
        x = element(r, "x")
        f = Fold(over(x), term(x), accumulator, lambda it: [(Idx(it[1]), it[0])], own=lambda it: it[1].letters())
        with loops.cut(R, "to_vector", {0: f}):
            v = x.to_vector()
        c.true(isinstance(v, Vec) and isinstance(v.shape, Order) and v.shape.name == "order", "one entry for each member of the group")
        same_sum(c, v, None, f, "to_vector")
        c.untouched()
    P("to_vector: entry index(g) is the coefficient of g", "RingMember.to_vector", vector)

    def from_vector(ctx, c, F):
        r = ring()
        g = GE("g")
        vec, seen = object(), []

        def zip_(a, b):
            if a is not vec or not isinstance(b, AllMembers):
                raise Unsupported("zip")
            return Pairs()

        class Pairs:
            def __iter__(self):  # the entry of an arbitrary member
                ctx.open_terms = getattr(ctx, "open_terms", 0) + 1
                return iter([(Poly("int[g]"), g)])

        class _Made(type):
            def __call__(cls, rg, *terms):
                seen.append((rg, terms))
                return "made"
        class Made(metaclass=_Made):
            pass
        old = abstract.RingMember
        abstract.RingMember, abstract.zip = Made, zip_
        try:
            out = old.__dict__["from_vector"].__func__(Made, r, vec)
        finally:
            abstract.RingMember = old
            del abstract.zip
        ctx.open_terms = 0
        c.true(out == "made" and len(seen) == 1 and seen[0][0] is r, "an element of the ring")
        nz = [d for l, d in ctx.log if "is not zero" in l]
        terms = seen[0][1]
        if nz == [False]:
            c.true(not terms, "entries that are zero give no term")
        else:
            c.true(len(terms) == 1 and isinstance(terms[0], tuple) and terms[0][1] == g and (terms[0][0] - Poly("int[g]")).is_zero(),
                   f"entry index(g) is the coefficient of g: {terms}")
    P("from_vector: the coefficient of the i-th member is entry i", "RingMember.from_vector", from_vector)

    for kind, name, size in (("lift", "lift", "lift_dim"), ("regular", "regular_lift", "order")):
        def lift(ctx, c, F, kind=kind, name=name, size=size):
            x = element(ring(), "x")
            out = getattr(x, name)()
            formal.closed(ctx)
            c.true(isinstance(out, formal.Sum), "a sum over the terms")
            z = out.start
            c.true(isinstance(z, Vec) and z.base is None and not z.log and isinstance(z.shape, list) and len(z.shape) == 2
                   and all(isinstance(d, Order) and d.name == size for d in z.shape), f"starting from zero with the right shape")
            zero = any(p.is_zero() for p in getattr(ctx, "scalars", {}).values())
            if not out.terms:
                c.true(bool(zero), "only terms with coefficient zero are left out")
                return
            c.true(len(out.terms) == 1 and isinstance(out.terms[0], Rep), "one summand for each term")
            t = out.terms[0]
            c.true(t.kind == kind and (t.coef - Poly(f"x[{t.g!r}]")).is_zero() and len(t.g.w) == 1, f"the summand of {t.g} is its coefficient times its matrix")
            c.untouched()
        P(f"{name}: the sum over all terms of coefficient times matrix", f"RingMember.{name}", lift, min_paths=1)

    def probe(ctx, c, F):
        r = ring()
        x = element(r, "x")
        f = fold(x, lambda v, g: [(g, v)])
        with loops.cut(R, "T", {0: f}):
            x.T
    P("the transpose of x is x", "RingMember.T", probe, expect="fail")


def re_terms(text):
    import re
    return [(m.group(1), m.group(2)) for m in re.finditer(r"(\w)\[([^\]]*)\]", text)]


def star(name):
    """Transform: the parameter *name becomes an ordinary parameter that holds the whole sequence."""
    import ast

    def t(tree):
        a = tree.body[0].args
        if a.vararg is None or a.vararg.arg != name:
            raise Unsupported(f"no parameter *{name}")
        a.args.append(ast.arg(name))
        a.vararg = None
        return tree
    return t


# ---- elements of the free algebra, for operations that are defined by other operations

class Count:
    def __init__(self, name):
        self.name = name

    def __rmul__(self, seq):
        if isinstance(seq, (list, tuple)):
            return Repeated(seq, self)
        return NotImplemented

    __mul__ = __rmul__


class Repeated:
    def __init__(self, what, n):
        self.what, self.n = what, n

    def __iter__(self):
        raise Unsupported("a sequence of symbolic length")


def free_elements(r):
    """Ring members whose operations follow the contracts of +, * of the group algebra."""
    class Expr(abstract.RingMember):
        def __init__(self, t):
            self._ring = r
            self.t = {(t,): 1} if isinstance(t, str) else {k: v for k, v in t.items() if v}

        @staticmethod
        def val(o):
            if isinstance(o, Expr):
                return o.t
            if isinstance(o, builtins.int):
                return {(): o}
            raise Unsupported("operand")

        def __add__(self, o):
            t = dict(self.t)
            for k, v in Expr.val(o).items():
                t[k] = t.get(k, 0) + v
            return Expr(t)

        __radd__ = __add__

        def __mul__(self, o):
            t = {}
            for (a, u), (b, v) in itertools.product(self.t.items(), Expr.val(o).items()):
                t[a + b] = t.get(a + b, 0) + u * v
            return Expr(t)

        def __rmul__(self, o):
            return Expr({k: v * o for k, v in self.t.items()}) if isinstance(o, builtins.int) else NotImplemented
    return Expr


def same(x, t):
    return getattr(x, "t", None) == t


def with_one(r, Expr, f):
    with replaced(abstract.GroupRing, one=property(lambda self: Expr({(): 1}))):
        return f()


# ---- members and groups

class Point:
    """A point that permutations act on; Apply(p, i) its image."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def letters(self):
        return [self.n] if isinstance(self.n, str) else []

    def __eq__(self, o):
        return isinstance(o, Point) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"point {self.n}"


class Enum:
    def __init__(self, what):
        self.what = what

    def __iter__(self):
        raise Unsupported("iteration over an enumeration")


def sym_enumerate(x, *a):
    return Enum(x) if isinstance(x, AllMembers) and not a else builtins.enumerate(x, *a)


class Range:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


def sym_range(*a):
    return Range(a[0]) if len(a) == 1 and isinstance(a[0], Order) else builtins.range(*a)


class Numpy:
    def __getattr__(self, k):
        import numpy
        return getattr(numpy, k)

    @staticmethod
    def zeros(shape, dtype=None):
        import numpy
        if isinstance(shape, (list, tuple)) and any(isinstance(s, Order) for s in shape):
            v = Vec()
            v.shape = list(shape)
            v.dtype = dtype
            return v
        return numpy.zeros(shape, dtype) if dtype is not None else numpy.zeros(shape)


def members(h):
    """C11: matrices of group members."""
    G, Mb = abstract.Group, abstract.GroupMember
    extra = {**EXTRA, "enumerate": sym_enumerate, "range": sym_range, "np": Numpy()}
    P = lambda name, target, body, **k: prove(h, name, A + target, body, MODS, plain=True, **extra, **k)

    def regular(ctx, c, F):
        grp, m = FakeGroup(), GE("m")

        def item():
            g = GE(f"g{next(ctx.fresh)}")
            return Idx(g), g
        f = Fold(lambda it: isinstance(it, Enum) and isinstance(it.what, AllMembers), item, accumulator,
                 lambda it: [((Idx(m * it[1]), Idx(it[1])), Poly(1))], own=lambda it: it[1].letters())
        with loops.cut(G, "regular_lift", {0: f}):
            out = G.regular_lift(grp, m)
        c.true(isinstance(out, Vec) and all(isinstance(d, Order) and d.name == "order" for d in out.shape) and len(out.shape) == 2,
               "a square matrix with one row for each member")
        same_sum(c, out, None, f, "regular_lift")
    P("regular lift: entry (m*g, g) is 1 for every member g, all others are 0", "Group.regular_lift", regular)

    def matrix(ctx, c, F):
        class Perm(Mb):
            def __new__(cls):
                return object.__new__(cls)
            def apply(self, i):
                return Point(("image", i))
            def __call__(self, i):
                return Point(("image", i))
            size = Order("degree")
        p = Perm()
        f = Fold(lambda it: isinstance(it, Range) and it.n is Perm.size, lambda: Point(f"i{next(ctx.fresh)}"), accumulator,
                 lambda i: [((i, Point(("image", i))), Poly(1))], own=lambda i: i.letters())
        with loops.cut(Mb, "to_matrix", {0: f}):
            out = Mb.to_matrix(p)
        c.true(isinstance(out, Vec) and len(out.shape) == 2 and all(d is Perm.size for d in out.shape), "a square matrix")
        same_sum(c, out, None, f, "to_matrix")
    P("matrix of a permutation: entry (i, p(i)) is 1 for every point i, all others are 0", "GroupMember.to_matrix", matrix)

    def index(ctx, c, F):
        class Members(dict):
            def get(self, k, default=None):
                return 3 if ctx.decide("is a member") else default
        grp = object.__new__(G)
        grp.__dict__["_members"] = Members()
        grp._name, grp._lift = "g", None
        try:
            out = G.index(grp, GE("g"))
        except ValueError:
            c.true(("is a member", False) in ctx.log, "only members that are not in the group are rejected")
            return
        c.true(out == 3 and ("is a member", True) in ctx.log, "the index is the position of the member")
    P("index: the position of a member; other permutations are rejected", "Group.index", index, min_paths=2)

    def default_lift(ctx, c, F):
        grp = FakeGroup()
        custom = ctx.decide("a lift is given")
        grp._lift = (lambda g: Rep("own", g)) if custom else None
        m = GE("m")
        out = G.lift(grp, m)
        c.true(isinstance(out, Rep) and out.kind == ("own" if custom else "regular") and out.g == m and (out.coef - 1).is_zero(),
               "the lift given with the group, or else the regular lift")
    P("lift: the lift given with the group, or else the regular lift", "Group.lift", default_lift, min_paths=2)

    def probe(ctx, c, F):
        grp, m = FakeGroup(), GE("m")

        def item():
            g = GE(f"g{next(ctx.fresh)}")
            return Idx(g), g
        f = Fold(lambda it: isinstance(it, Enum), item, accumulator, lambda it: [((Idx(it[1] * m), Idx(it[1])), Poly(1))], own=lambda it: it[1].letters())
        with loops.cut(G, "regular_lift", {0: f}):
            G.regular_lift(grp, m)
    P("the regular lift acts from the right", "Group.regular_lift", probe, expect="fail")


def laws(h):
    from ..lemma import check
    check(h, "GroupAlgebra", {"mul_add'", "add_mul'", "one_mul'", "mul_one'", "mul_assoc'", "tr_tr", "tr_mul", "lift_mul", "lift_add", "lift_tr"})


def representations(h):
    from ..lemma import check
    check(h, "GroupAlgebra", {"reg_mul", "reg_inv", "perm_mul"})
