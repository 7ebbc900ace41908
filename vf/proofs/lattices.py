"""C18: layouts, periods and polynomials of quasi-cyclic codes, for all orders and exponents.

Numbers (orders, exponents, coordinates) are arbitrary integers. What follows for the codes (periods are orders of group
members, valid bases are isomorphisms of groups, which relabel the checks) is proved in vf/lemmas/Lattice.lean.
"""
from __future__ import annotations

import builtins
import contextlib
import inspect
import itertools as _itertools

import z3
from vf import lemma
from qldpc import objects
from qldpc.codes import quantum

from ..sym import loops, scalar
from ..sym.mat import CTX, Unsupported
from ..sym.prove import prove
from ..sym.scalar import SInt, assume, sym_int

TRUSTED = [
    "numpy: unravel_index(i, shape) are the digits of i with respect to the shape, the last one fastest",
    "math.gcd(x, y) is the greatest common divisor; order / 2 is exact (floating point)",
    "sympy: as_coeff_Mul, as_base_exp, args and make_args take expressions apart, subs and expand are those of Laurent polynomials",
]
B = "qldpc.codes.quantum.BBCode."
QC = "qldpc.codes.quantum.QCCode."
GCD = z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())


def ints(*names, low=None):
    out = []
    for n in names:
        x = SInt(n)
        if low is not None:
            assume(x.z >= low)
        out.append(x)
    return out


def fresh(kind, low=None, high=None):
    x = SInt(f"{kind}{next(CTX[-1].fresh)}")
    if low is not None:
        assume(x.z >= low)
    if high is not None:
        assume(x.z < high)
    return x


def t(x):
    r = scalar.term(x)
    if r is None:
        raise Unsupported(f"{x!r} is not a number")
    return r


class NP:
    @staticmethod
    def unravel_index(i, shape, order="C"):
        if order != "C" or builtins.len(shape) < 1:
            raise Unsupported("unravel_index")
        digits = [fresh("digit", 0, t(n)) for n in shape]
        value = z3.IntVal(0)
        for d, n in zip(digits, shape):
            value = value * t(n) + d.z
        assume(value == t(i))
        return tuple(digits)

    def __getattr__(self, k):
        raise Unsupported(f"np.{k}")


class Math:
    """gcd and lcm as functions of their arguments."""

    @staticmethod
    def _gcd(x, y):
        g = GCD(t(x), t(y))
        for v in (t(x), t(y)):
            assume(z3.And(g >= 0, z3.Implies(v > 0, z3.And(g >= 1, g <= v))))
        return g

    def gcd(self, x, y):
        return SInt(self._gcd(x, y))

    def lcm(self, x, y):
        return SInt(t(x) * t(y)) // self.gcd(x, y)

    @staticmethod
    def prod(xs):
        out = SInt(z3.IntVal(1))
        for x in xs:
            out = out * x
        return out

    def __getattr__(self, k):
        raise Unsupported(f"math.{k}")


def sym_len(x):
    return x.sym_len if hasattr(x, "sym_len") else builtins.len(x)


class Range:
    def __init__(self, *a):
        self.low, self.high = (SInt(z3.IntVal(0)), a[0]) if builtins.len(a) == 1 else a

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


def sym_range(*a):
    if builtins.all(isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if builtins.len(a) > 2:
        raise Unsupported("range with steps")
    return Range(*a)


class Itertools:
    @staticmethod
    def product(*its):
        return Grid(its) if builtins.all(isinstance(i, Range) for i in its) else _itertools.product(*its)

    def __getattr__(self, k):
        return getattr(_itertools, k)


class Grid:
    def __init__(self, ranges):
        self.ranges = ranges


# ------------------------------------------------------------------ layouts
@contextlib.contextmanager
def replaced(owner, **new):
    old = {k: owner.__dict__[k] for k in new}
    for k, v in new.items():
        setattr(owner, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(owner, k, v)


def layouts(h):
    P = lambda name, target, body, **k: prove(h, name, target, body, [quantum], plain=True, **{**dict(np=NP(), int=sym_int, len=sym_len), **k})

    def label(ctx, c, F):
        R0, R1 = ints("R0", "R1", low=1)
        i, = ints("index", low=0)
        assume(i.z < 2 * R0.z * R1.z)
        data = ctx.decide("data")
        node = objects.Node(i, is_data=data)
        fn = inspect.unwrap(quantum.BBCode.get_node_label_from_orders)
        s, a, b = fn(node, (R0, R1))
        c.true(s in ("LR" if data else "XZ"), f"sector {s}")
        c.valid(z3.And(0 <= t(a), t(a) < R0.z, 0 <= t(b), t(b) < R1.z), "coordinates of a plaquette")
        half = 0 if s in "LX" else 1
        c.valid(i.z == (half * R0.z + t(a)) * R1.z + t(b), "index of the label")
    P("get_node_label_from_orders: sector and coordinates are the digits of the index", B + "get_node_label_from_orders", label, min_paths=4)

    def delegate(ctx, c, F):
        got, out = [], object()
        R = (object(), object())

        class Me(Loose):
            orders = R
        Me.get_node_label_from_orders = staticmethod(lambda *a, **k: got.append(bind(["node", "orders"], a, k)) or out)
        Me.get_qubit_pos_from_orders = staticmethod(lambda *a, **k: got.append(bind(["qubit", "folded_layout", "orders"], a, k)) or out)
        node, fold = object(), ctx.decide("folded")
        with replaced(quantum.BBCode, get_node_label_from_orders=Me.__dict__["get_node_label_from_orders"], get_qubit_pos_from_orders=Me.__dict__["get_qubit_pos_from_orders"]):
            r = quantum.BBCode.get_node_label(Me(), node)
            c.true(r is out and got.pop() == dict(node=node, orders=R), "the label for the orders of the code")
            r = quantum.BBCode.get_qubit_pos(Me(), node, fold)
            c.true(r is out and got.pop() == dict(qubit=node, folded_layout=fold, orders=R), "the position for the orders of the code")
            if not fold:
                r = quantum.BBCode.get_qubit_pos(Me(), node)
                c.true(r is out and got.pop() == dict(qubit=node, folded_layout=False, orders=R), "the layout is not folded by default")
    P("get_node_label, get_qubit_pos: those for the orders of the code", B + "get_qubit_pos", delegate, min_paths=2)

    def position(sector, a, b, fold, orders):
        return inspect.unwrap(quantum.BBCode.get_qubit_pos_from_orders)((sector, a, b), fold, orders)

    def plaquette(a, b, R0, R1):
        assume(z3.And(0 <= a.z, a.z < R0.z, 0 <= b.z, b.z < R1.z))

    def sites(fold):
        def body(ctx, c, F):
            R0, R1 = ints("R0", "R1", low=1)
            a, b, a2, b2 = ints("a", "b", "a2", "b2")
            plaquette(a, b, R0, R1)
            plaquette(a2, b2, R0, R1)
            for s in "LRXZ":
                at = "first" if s in "XL" else "second"
                if ctx.decide(f"{s} {at}") or s == "Z":
                    break
            x, y = position(s, a, b, fold, (R0, R1))
            c.valid(z3.And(0 <= t(x), t(x) < 2 * R0.z, 0 <= t(y), t(y) < 2 * R1.z), f"the site of {s} is on the lattice")
            if not fold:
                c.valid(z3.And(t(x) == 2 * a.z + (1 if s in "RX" else 0), t(y) == 2 * b.z + (1 if s in "LX" else 0)), f"place of {s} in its plaquette")
            for s2 in "LRXZ":
                x2, y2 = position(s2, a2, b2, fold, (R0, R1))
                same = z3.And(t(x) == t(x2), t(y) == t(y2))
                c.valid(z3.Not(same) if s != s2 else z3.Implies(same, z3.And(a.z == a2.z, b.z == b2.z)), f"sites of {s} and {s2} differ")
                if fold:
                    def site(s, a, b):
                        return 2 * a.z + (1 if s in "RX" else 0), 2 * b.z + (1 if s in "LX" else 0)
                    (p, q), (p2, q2) = site(s, a, b), site(s2, a2, b2)
                    dx, dy = t(x) - t(x2), t(y) - t(y2)
                    step = lambda u, v, n: z3.Or(v == u + 1, z3.And(v == 0, u == 2 * n - 1))
                    near = lambda d: z3.And(d <= 2, d >= -2)
                    c.valid(z3.Implies(z3.And(step(p, p2, R0.z), q == q2), z3.And(near(dx), dy == 0)), f"{s} and {s2} are neighbours in a row")
                    c.valid(z3.Implies(z3.And(step(q, q2, R1.z), p == p2), z3.And(near(dy), dx == 0)), f"{s} and {s2} are neighbours in a column")
        return body
    P("get_qubit_pos_from_orders: plaquettes (L X / Z R), all sites are different", B + "get_qubit_pos_from_orders", sites(False), min_paths=4)
    P("get_qubit_pos_from_orders (folded): all sites are different, neighbours on the torus stay within distance 2", B + "get_qubit_pos_from_orders", sites(True), min_paths=8)

    def nodes(ctx, c, F):
        R0, R1 = ints("R0", "R1", low=1)
        a, b = ints("a", "b")
        plaquette(a, b, R0, R1)
        s = "X" if ctx.decide("X") else "R"
        i, = ints("index", low=0)
        node = objects.Node(i, is_data=s == "R")
        got = []
        stub = staticmethod(lambda *w, **k: got.append(bind(["node", "orders"], w, k)) or (s, a, b))
        with replaced(quantum.BBCode, get_node_label_from_orders=stub):
            x, y = inspect.unwrap(quantum.BBCode.get_qubit_pos_from_orders)(node, False, (R0, R1))
        c.true(builtins.len(got) == 1 and got[0]["node"] is node, "the label of the node")
        c.valid(z3.And(t(got[0]["orders"][0]) == R0.z, t(got[0]["orders"][1]) == R1.z), "the label for these orders")
        x2, y2 = position(s, a, b, False, (R0, R1))
        c.valid(z3.And(t(x) == t(x2), t(y) == t(y2)), "the position of a node is the one of its label")
    P("get_qubit_pos_from_orders: a node is where its label is", B + "get_qubit_pos_from_orders", nodes, min_paths=2)

    def probe(ctx, c, F):
        R0, R1 = ints("R0", "R1", low=1)
        a, b = ints("a", "b")
        plaquette(a, b, R0, R1)
        x, y = position("L", a, b, True, (R0, R1))
        c.valid(t(x) == 2 * a.z, "folding does not move anything")
    P("folding moves nothing", B + "get_qubit_pos_from_orders", probe, expect="fail")
    lemma.check(h, "Lattice")


class NoAttribute(Unsupported, AttributeError):
    pass


class Loose:
    """An object of which only the given attributes are known."""

    def __getattr__(self, k):
        raise NoAttribute(f"attribute {k}")


def bind(names, a, k):
    out = dict(zip(names, a))
    out.update(k)
    return out


# ------------------------------------------------------------------ periods and bases
class Torus(Loose):
    """A code with arbitrary orders (R0, R1)."""

    def __init__(self):
        self.R0, self.R1 = ints("R0", "R1", low=1)
        self.orders = (self.R0, self.R1)
        self.sym_len = 2 * self.R0 * self.R1
        self.asked = []

    def get_order(self, vec):
        x, y = vec
        for v, r in self.asked:
            if scalar.implied(z3.And(t(v[0]) == t(x), t(v[1]) == t(y))):
                return r
        r = fresh("period", 1)
        self.asked.append(((x, y), r))
        return r

    def period(self, x, y):
        return self.get_order((x, y))

    def __len__(self):
        raise Unsupported("length")


class Search(loops.Loop):
    """A loop over a range, or a grid of ranges; the innermost loop makes its claim for every item."""

    mutates = loops.ANY

    def __init__(self, state, inner):
        self.state, self.inner = state, inner

    def enter(self, it, env):
        ranges = list(it.ranges) if isinstance(it, Grid) else [it]
        if not builtins.all(isinstance(r, Range) for r in ranges):
            raise Unsupported(f"loop over {type(it).__name__}")
        self.ranges = ranges
        self.state.depth.append(self)
        self.finished = False
        if self.state.enter is not None:
            self.state.enter(env)

    def item(self, env):
        self.items = [fresh("i", t(r.low), t(r.high)) for r in self.ranges]
        self.state.open = builtins.len([x for x in self.state.depth if hasattr(x, "items")])
        return self.items[0] if builtins.len(self.items) == 1 else tuple(self.items)

    def back(self, env):
        last = self.state.depth[-1] is self
        if last:
            self.state.claim([i for s in self.state.depth for i in s.items], env)
        else:
            c = CTX[-1].claims
            c.true(self.state.depth[-1].finished, "the inner loop is left early")

    def done(self, env):
        self.finished = True
        outer = self.state.depth[0]
        if outer is self and outer.finished:
            self.state.complete = True
            self.state.all_ranges = None
        if self.state.done is not None and outer is self:
            self.state.done(env)


class State:
    def __init__(self, claim, enter=None, done=None):
        self.claim, self.enter, self.done, self.depth, self.complete = claim, enter, done, [], False


def lattice(h):
    P = lambda name, target, body, **k: prove(h, name, target, body, [quantum], plain=True,
                                              **{**dict(np=NP(), int=sym_int, len=sym_len, range=sym_range, math=Math(), itertools=Itertools()), **k})

    def vec(n):
        return tuple(ints(f"{n}0", f"{n}1"))

    def order(ctx, c, F):
        me = Torus()
        v = vec("v")
        m = Math()
        g0, g1 = m._gcd(v[0], me.R0), m._gcd(v[1], me.R1)
        got = quantum.BBCode.get_order(me, v)
        p0, p1 = me.R0.z / g0, me.R1.z / g1
        want = (p0 * p1) / GCD(p0, p1)
        if scalar.implied(t(got) == want) is not True:
            raise Unsupported("another formula for the period")
        c.valid(t(got) == want, "lcm(R0 / gcd(v0, R0), R1 / gcd(v1, R1))")

    P("get_order: the period of a vector is lcm(R0 / gcd(v0, R0), R1 / gcd(v1, R1))", B + "get_order", order)

    # ---- modular_inverse
    def inverse(depth):
        def body(ctx, c, F):
            me = Torus()
            g, k = vec("g"), vec("h")
            a, b = ints("a", "b")
            o0, o1 = me.period(*g), me.period(*k)

            def equation(i, j):
                r0, r1 = me.R0.z, me.R1.z
                return z3.And((i * t(g[0]) + j * t(k[0])) % r0 == a.z % r0, (i * t(g[1]) + j * t(k[1])) % r1 == b.z % r1)

            def claim(items, env):
                if builtins.len(items) != 2:
                    raise Unsupported("search over other numbers of variables")
                flat = [r for s in state.depth for r in s.ranges]
                for r, o in zip(flat, (o0, o1)):
                    c.valid(z3.And(t(r.low) <= 0, t(r.high) >= o.z), "the search covers one period")
                c.valid(z3.Not(equation(items[0].z, items[1].z)), "the search goes on only if this is no solution")
            state = State(claim)
            with loops.cut(quantum.BBCode, "modular_inverse", {n: Search(state, n == depth - 1) for n in builtins.range(depth)}):
                try:
                    got = quantum.BBCode.modular_inverse(me, (g, k), a, b)
                except ValueError:
                    c.true(state.complete, "an error is raised only after the search")
                    return
            c.true(isinstance(got, tuple) and builtins.len(got) == 2, "two numbers")
            c.valid(equation(t(got[0]), t(got[1])), "the returned numbers solve the equations")
        return body

    nested = loop_count(quantum.BBCode.modular_inverse)
    P("modular_inverse: solves x g + y h = (a, b) modulo the orders; an error is raised only if there is no solution within the periods",
      B + "modular_inverse", inverse(nested), min_paths=3)

    # ---- is_valid_basis
    class Flags:
        def __init__(self, shape):
            self.shape, self.writes, self.all = tuple(shape), [], False

        def __setitem__(self, i, v):
            if not isinstance(i, tuple) or builtins.len(i) != 2 or v is not True:
                raise Unsupported("write")
            self.writes.append(i)

        def __getitem__(self, i):
            raise Unsupported("flags are read")

    class BasisNP(NP):
        def zeros(self, shape, dtype=None):
            return Flags(shape)

        def all(self, x):
            if not isinstance(x, Flags):
                raise Unsupported("np.all")
            CTX[-1].claims.true(x.all, "all points of one period are marked")
            return CTX[-1].decide("every plaquette is reached")

    def valid(ctx, c, F):
        me = Torus()
        g, k = vec("g"), vec("h")
        o0, o1 = me.period(*g), me.period(*k)

        def flags(env):
            fs = [v for v in env.values() if isinstance(v, Flags)]
            if builtins.len(fs) != 1:
                raise Unsupported("flags")
            return fs[0]

        def enter(env):
            f = flags(env)
            c.valid(z3.And(t(f.shape[0]) == me.R0.z, t(f.shape[1]) == me.R1.z), "one flag for each plaquette")
            c.true(not f.writes, "no plaquette is marked before")

        def claim(items, env):
            f = flags(env)
            flat = [r for s in state.depth for r in s.ranges]
            if builtins.len(items) != 2 or builtins.len(f.writes) != 1:
                raise Unsupported("another search")
            for r, o in zip(flat, (o0, o1)):
                c.valid(z3.And(t(r.low) <= 0, t(r.high) >= o.z), "the search covers one period")
            x, y = f.writes[0]
            i, j = items
            c.valid(z3.And(t(x) == (i.z * t(g[0]) + j.z * t(k[0])) % me.R0.z, t(y) == (i.z * t(g[1]) + j.z * t(k[1])) % me.R1.z), "i g + j h is marked")

        def done(env):
            flags(env).all = True
        state = State(claim, enter, done)
        n = loop_count(quantum.BBCode.is_valid_basis)
        with loops.cut(quantum.BBCode, "is_valid_basis", {m: Search(state, m == n - 1) for m in builtins.range(n)}):
            got = quantum.BBCode.is_valid_basis(me, g, k)
        covered = ("every plaquette is reached", True) in [tuple(e) for e in ctx.log]
        if got:
            c.true(covered, "a basis reaches every plaquette")
            c.valid(o0.z * o1.z == me.R0.z * me.R1.z, "the number of plaquettes is the product of the periods")
        else:
            missing = ("every plaquette is reached", False) in [tuple(e) for e in ctx.log]
            if not missing:
                c.valid(o0.z * o1.z != me.R0.z * me.R1.z, "a basis is rejected only for a reason")
            else:
                c.true(missing, "a plaquette is not reached")
    P("is_valid_basis: the product of the periods is the number of plaquettes, and every plaquette is i g + j h", B + "is_valid_basis", valid, min_paths=3, np=BasisNP())

    def probe(ctx, c, F):
        me = Torus()
        v = vec("v")
        got = quantum.BBCode.get_order(me, v)
        c.valid(t(got) == me.R0.z * me.R1.z, "every vector has the largest period")
    P("every vector has the largest period", B + "get_order", probe, expect="fail")


def loop_count(fn):
    import ast
    _, node = loops.source_function(inspect.unwrap(fn))
    return builtins.sum(isinstance(w, (ast.For, ast.While)) for w in ast.walk(node))


# ------------------------------------------------------------------ expressions
class Mono:
    """c * product of powers of symbols; the exponents may be symbolic."""

    __array_ufunc__ = None

    def __init__(self, coeff=1, exps=(), shape=None):
        self.coeff, self.exps, self.shape = coeff, dict(exps), shape

    def as_expr(self):
        return self

    def kinds(self):
        n = builtins.len(self.exps)
        if self.shape is not None:
            return {self.shape}
        if n == 0:
            return {"Integer"}
        if not same(self.coeff, 1) or n > 1:
            return {"Mul"}
        e = next(iter(self.exps.values()))
        return {"Symbol"} if isinstance(e, builtins.int) and e == 1 else {"Pow"}

    def as_coeff_Mul(self):
        return self.coeff, Mono(1, self.exps)

    def as_base_exp(self):
        (s, e), = self.exps.items()
        return symbol(s), e

    @property
    def args(self):
        if self.kinds() != {"Mul"} or not same(self.coeff, 1):
            raise Unsupported("args")
        return tuple(Mono(1, {s: e}) for s, e in self.exps.items())

    @property
    def free_symbols(self):
        return {symbol(s) for s in self.exps}

    def __int__(self):
        if self.exps:
            raise Unsupported("int of a monomial")
        return self.coeff if isinstance(self.coeff, builtins.int) else builtins.int(self.coeff)

    def __mul__(self, o):
        o = Mono.of(o)
        e = dict(self.exps)
        for s, x in o.exps.items():
            e[s] = e.get(s, 0) + x
        return Mono(self.coeff * o.coeff, e)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * Mono.of(o) ** -1

    def __pow__(self, k):
        if not same(self.coeff, 1):
            raise Unsupported("power with a coefficient")
        return Mono(1, {s: e * k for s, e in self.exps.items()})

    @staticmethod
    def of(x):
        if isinstance(x, Mono):
            return x
        return Mono(x)

    def subs(self, *a, **k):
        if builtins.len(a) != 1 or builtins.set(k) - {"simultaneous"} or not isinstance(a[0], dict):
            raise Unsupported("subs")
        m = {next(iter(s.exps)): Mono.of(v) for s, v in a[0].items()}
        if builtins.any(builtins.set(v.exps) & builtins.set(m) for v in m.values()):
            raise Unsupported("substitution that mentions its own symbols")
        out = Mono(self.coeff)
        for s, e in self.exps.items():
            out = out * (m[s] ** e if s in m else Mono(1, {s: e}))
        return out

    def expand(self):
        return self

    def __eq__(self, o):
        if isinstance(o, Mono) and self.kinds() == o.kinds() == {"Symbol"}:
            return list(self.exps) == list(o.exps)
        raise Unsupported("comparison of monomials")

    def __hash__(self):
        if self.kinds() == {"Symbol"}:
            return hash(next(iter(self.exps)))
        raise Unsupported("hash of a monomial")

    def __str__(self):
        if self.kinds() == {"Symbol"}:
            return next(iter(self.exps))
        raise Unsupported("string of a monomial")

    def __repr__(self):
        return f"{self.coeff} {self.exps}"


def symbol(name):
    return Mono(1, {name: 1}, "Symbol")


def same(a, b):
    if isinstance(a, builtins.int) and isinstance(b, builtins.int):
        return a == b
    return scalar.implied(t(a) == t(b)) is True


def equal_mono(c, m, coeff, exps, what):
    c.true(isinstance(m, Mono), f"{what}: a monomial")
    c.valid(t(m.coeff) == t(coeff), f"{what}: coefficient")
    for s in {*m.exps, *exps}:
        c.valid(t(m.exps.get(s, 0)) == t(exps.get(s, 0)), f"{what}: exponent of {s}")


class _Kind(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Mono) and cls.__name__ in x.kinds()


def kind(name, **ns):
    return _Kind(name, (), ns)


class Acc:
    """A polynomial that a loop adds up."""

    def __init__(self, start, terms=()):
        self.start, self.terms = start, tuple(terms)

    def __add__(self, o):
        if isinstance(o, Mono):
            return Acc(self.start, self.terms + (o,))
        raise Unsupported("sum")

    __radd__ = __add__


class Terms:
    """The terms of an arbitrary polynomial."""

    def __init__(self, of):
        self.of = of

    def __iter__(self):
        raise Unsupported("iteration over the terms of a polynomial")

    def comprehension(self, cond, elt):
        x = self.of.term()
        if cond(x) is not True:
            raise Unsupported("some of the terms")
        return Monomials(self.of, elt(x), x)


class Monomials:
    def __init__(self, of, sample, term):
        if not isinstance(sample, Mono) or sample.exps.keys() != term.exps.keys() or not builtins.all(same(sample.exps[s], term.exps[s]) for s in term.exps) \
                or not same(sample.coeff, 1):
            CTX[-1].claims.true(False, "the monomials of the polynomial, without their coefficients")
        self.of = of

    def __iter__(self):
        raise Unsupported("iteration over the terms of a polynomial")


class PolyToken:
    """An arbitrary polynomial in the given symbols."""

    def __init__(self, name, symbols):
        self.name, self.symbols = name, symbols

    def as_expr(self):
        return self

    def term(self, coeff=None):
        return Mono(fresh("coeff") if coeff is None else coeff, {s: fresh("e") for s in self.symbols})

    @property
    def args(self):
        return Terms(self)

    @property
    def free_symbols(self):
        return Unordered(symbol(s) for s in self.symbols)

    def __truediv__(self, m):
        return Shifted(self, Mono.of(m))

    def __mul__(self, m):
        return Shifted(self, Mono.of(m) ** -1)


class Unordered(builtins.set):
    """A set; two members come in either order."""

    def __or__(self, o):
        return Unordered(builtins.set(self) | builtins.set(o))

    union = __or__

    def __iter__(self):
        xs = sorted(builtins.set.__iter__(self), key=str)
        return iter(xs[::-1] if builtins.len(xs) > 1 and CTX[-1].decide("members of the set come in reverse order") else xs)


class Shifted:
    def __init__(self, poly, by):
        self.poly, self.by = poly, by

    def expand(self):
        return self


class Sympy:
    Integer, Symbol_, Pow, Mul = kind("Integer"), kind("Symbol"), kind("Pow"), kind("Mul")

    class Symbol(metaclass=_Kind):
        def __new__(cls, name):
            return symbol(name)

    class Poly:
        def __new__(cls, x):
            return x

    class Add:
        @staticmethod
        def make_args(x):
            return Terms(x)

    class core:
        class numbers:
            @staticmethod
            def Zero():
                return Acc("zero")

    @staticmethod
    def sympify(x):
        return Mono.of(x)

    def __getattr__(self, k):
        raise Unsupported(f"sympy.{k}")


class Member:
    """Member of an Abelian group: exponents of generators."""

    def __init__(self, exps=()):
        self.exps = dict(exps)

    def __mul__(self, o):
        if not isinstance(o, Member):
            raise Unsupported("product")
        e = dict(self.exps)
        for g, k in o.exps.items():
            e[g] = e.get(g, 0) + k
        return Member(e)

    def __pow__(self, k):
        return Member({g: e * k for g, e in self.exps.items()})


class Element:
    """Member of the group algebra: what has been added up."""

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __add__(self, o):
        if not isinstance(o, Element):
            raise Unsupported("sum")
        return Element(self.parts + o.parts)

    def __mul__(self, o):
        raise Unsupported("product")


class Summing(loops.Loop):
    """for term in terms: total += f(term)"""

    mutates = loops.ANY  # numbers, monomials and sums are not modified in place

    def __init__(self, poly, kind, empty, partial, claim):
        self.poly, self.kind, self.empty, self.partial, self.claim = poly, kind, empty, partial, claim

    def enter(self, it, env):
        c = CTX[-1].claims
        if not isinstance(it, Terms) or it.of is not self.poly:
            raise Unsupported("loop over something else")
        names = [k for k, v in env.items() if isinstance(v, self.kind)]
        if builtins.len(names) != 1:
            raise Unsupported("several sums")
        self.name = names[0]
        c.true(self.empty(env[self.name]), "the sum starts at zero")

    def havoc(self, env):
        return {self.name: self.partial}

    def item(self, env):
        self.term = self.poly.term()
        return self.term

    def back(self, env):
        self.claim(self.term, env[self.name])


def polynomials(h):
    S = Sympy()
    P = lambda name, target, body, **k: prove(h, name, target, body, [quantum], plain=True,
                                              **{**dict(np=NP(), int=mono_int, len=sym_len, range=sym_range, math=Math(), sympy=S, itertools=ToricItertools()), **k})
    names = ["x", "y", "z"]

    def monomial(ctx, coeff=True):
        """A monomial in at most three symbols, of every form that sympy gives to it."""
        n = 0
        while n < 3 and ctx.decide(f"more than {n} symbols"):
            n += 1
        exps = {}
        for s in names[:n]:
            if n == 1 and ctx.decide("exponent 1"):
                exps[s] = 1
            else:
                exps[s] = SInt(f"exp_{s}")
                assume(exps[s].z != 0)
        c = 1 if not coeff or ctx.decide("coefficient 1") else SInt("c")
        return Mono(c, exps)

    def exponents(ctx, c, F):
        m = monomial(ctx)
        coeff, got = quantum.QCCode.get_coefficient_and_exponents(m)
        c.valid(t(coeff) == t(m.coeff), "coefficient")
        c.true(isinstance(got, dict) and builtins.all(isinstance(s, Mono) for s in got), "exponents of symbols")
        equal_mono(c, Mono(1, {str(s): e for s, e in got.items()}), 1, m.exps, "exponents")
    P("get_coefficient_and_exponents: of every monomial (in up to three symbols)", QC + "get_coefficient_and_exponents", exponents, min_paths=8)

    def vector(ctx, c, F):
        m = monomial(ctx, coeff=False)

        class Me(Loose):
            symbols = (symbol("x"), symbol("y"))
            get_coefficient_and_exponents = staticmethod(lambda e: (e.coeff, {symbol(s): x for s, x in e.exps.items()}))
        v = quantum.BBCode.as_exponent_vector(Me(), m)
        c.true(isinstance(v, tuple) and builtins.len(v) == 2, "two exponents")
        c.valid(z3.And(t(v[0]) == t(m.exps.get("x", 0)), t(v[1]) == t(m.exps.get("y", 0))), "exponents in the order of the symbols")
    P("as_exponent_vector: exponents in the order of the symbols", B + "as_exponent_vector", vector, min_paths=3)

    def member(ctx, c, F):
        m = monomial(ctx, coeff=False)

        class Me(Loose):
            symbol_gens = {symbol(s): Member({f"g_{s}": 1}) for s in names}
            get_coefficient_and_exponents = staticmethod(lambda e: (e.coeff, {symbol(s): x for s, x in e.exps.items()}))

            class group(Loose):
                identity = Member()
        got = quantum.QCCode.to_group_member(Me(), m)
        c.true(isinstance(got, Member), "a member of the group")
        for s in names:
            c.valid(t(got.exps.get(f"g_{s}", 0)) == t(m.exps.get(s, 0)), f"power of the generator for {s}")
    P("to_group_member: powers of the generators of the symbols (up to three symbols)", QC + "to_group_member", member, min_paths=4)

    # ---- eval
    class Abstract:
        @staticmethod
        def RingMember(ring, *terms):
            if ring is not CTX[-1].ring:
                raise Unsupported("another ring")
            return Element(terms)

        def __getattr__(self, k):
            raise Unsupported(f"abstract.{k}")

    class Code(Loose):
        def __init__(self):
            self.ring = CTX[-1].ring = object()
            self.seen = []

        def to_group_member(self, m):
            if not isinstance(m, Mono):
                raise Unsupported("not a monomial")
            CTX[-1].claims.valid(t(m.coeff) == 1, "members are given by monomials without coefficients")
            return ("member", tuple(sorted(m.exps.items(), key=lambda p: p[0])))

        def get_coefficient_and_exponents(self, e):
            return e.coeff, {symbol(s): x for s, x in e.exps.items()}

        def eval(self, term):
            return Element([("eval", term)])

    def eval_monomial(ctx, c, F):
        m, me = monomial(ctx), Code()
        got = quantum.QCCode.eval(me, m)
        c.true(isinstance(got, Element) and builtins.len(got.parts) == 1, "one term")
        coeff, g = got.parts[0]
        c.valid(t(coeff) == t(m.coeff), "coefficient of the term")
        c.true(g[0] == "member", "the member of the monomial")
        equal_mono(c, Mono(1, dict(g[1])), 1, m.exps, "member")
    P("eval: a monomial is its coefficient times its group member", QC + "eval", eval_monomial, abstract=Abstract(), min_paths=8)

    def eval_polynomial(ctx, c, F):
        poly, me = PolyToken("A", names), Code()
        rest = Element(["terms before"])

        def claim(term, total):
            c.true(isinstance(total, Element) and builtins.len(total.parts) == 2 and total.parts[0] == "terms before", "the value of the term is added")
            c.true(total.parts[1][0] == "eval" and total.parts[1][1] is term, "the value of the term is added once")
        loop = Summing(poly, Element, lambda e: not e.parts, rest, claim)
        with loops.cut(quantum.QCCode, "eval", {0: loop}) as fn:
            got = fn(me, poly)
        c.true(got is rest, "the sum is returned")
    P("eval: a polynomial is the sum of its terms (any number of terms)", QC + "eval", eval_polynomial, abstract=Abstract(), min_paths=2)

    # ---- canonical form
    def canonical(ctx, c, F):
        n = 1
        while n < 3 and ctx.decide(f"more than {n} symbols"):
            n += 1
        syms = names[:n]
        own, given = ints(*(f"R{i}" for i in range(n)), low=1), ints(*(f"Q{i}" for i in range(n)), low=1)
        poly = PolyToken("A", syms)

        class Me(Loose):
            orders = tuple(own)
            symbols = tuple(symbol(s) for s in syms)
            get_coefficient_and_exponents = staticmethod(lambda e: (e.coeff, {symbol(s): x for s, x in e.exps.items()}))
        rest = Acc("terms before")
        use = ctx.decide("orders are given")
        orders = given if use else own

        def claim(term, total):
            c.true(isinstance(total, Acc) and total.start == "terms before" and builtins.len(total.terms) == 1, "one term is added")
            m = total.terms[0]
            c.true(builtins.set(m.exps) <= builtins.set(syms), "no other symbols")
            c.valid(t(m.coeff) == t(term.coeff), "the coefficient is kept")
            for s, r in zip(syms, orders):
                e, k = t(m.exps.get(s, 0)), t(term.exps[s])
                c.valid(e % r.z == k % r.z, f"the exponent of {s} is kept modulo the order")
                c.valid(z3.And(-r.z < 2 * e, 2 * e <= r.z), f"the exponent of {s} is in (-order/2, order/2]")
        loop = Summing(poly, Acc, lambda a: a.start == "zero" and not a.terms, rest, claim)
        with loops.cut(quantum.QCCode, "get_canonical_form", {0: loop}) as fn:
            got = fn(Me(), poly, tuple(given)) if use else fn(Me(), poly)
        c.true(got is rest, "the sum is returned")
    P("get_canonical_form: coefficients are kept, exponents are reduced to (-order/2, order/2] (any number of terms, up to three symbols)",
      QC + "get_canonical_form", canonical, min_paths=8)

    # ---- the code of two polynomials
    def init(ctx, c, F):
        two = ctx.decide("two symbols")
        syms = ["b", "a"] if two else ["b"]
        extra = ctx.decide("an order without a symbol")
        as_dict = ctx.decide("orders are given as a dictionary")
        n = builtins.len(syms)
        R = ints(*(f"R{i}" for i in range(n + extra)), low=1)
        made = {}

        class Value(Loose):
            def __init__(self, what):
                self.what = what

            def lift(self):
                return Value(("lift", self.what))

            @property
            def T(self):
                return Value(("T", self.what))

        class Group(Loose):
            def __init__(self, *orders):
                self.of = orders
                self.identity = "identity"
                self.generators = [f"generator {i}" for i, r in enumerate(orders) if r > 1]
                made["group"] = self

        class Abs:
            AbelianGroup = Group

            @staticmethod
            def GroupRing(group, field=None):
                return ("ring", group, field)

            def __getattr__(self, k):
                raise Unsupported(f"abstract.{k}")
        pa = PolyToken("A", syms[:1])
        pb = PolyToken("B", syms)
        field = object()
        given = {symbol(s): r for s, r in zip(syms + ["unused"], R)} if as_dict else list(R)
        calls = []

        def tb(self, a, b, f=None, *r, **k):
            calls.append((a, b, f))
        me = object.__new__(quantum.QCCode)
        with replaced(quantum.TBCode, __init__=tb), replaced(quantum.QCCode, eval=lambda self, p: Value(("eval", p))):
            with contextlib.ExitStack() as st:
                vars(quantum)["abstract"], old = Abs(), vars(quantum)["abstract"]
                st.callback(lambda: vars(quantum).__setitem__("abstract", old))
                quantum.QCCode.__init__(me, given, pa, pb, field)
        c.true(builtins.len(calls) == 1, "one code")
        a, b, f = calls[0]
        for v, p in ((a, pa), (b, pb)):
            c.true(isinstance(v, Value) and v.what == ("T", ("lift", ("eval", p))), "the blocks are the transposed lifts of the polynomials")
        c.true(f is field, "field")
        want = {str(s): r for s, r in given.items()} if as_dict else dict(zip(sorted(syms), R))
        got = dict(zip([str(s) for s in me.symbols], me.orders))
        for s, r in want.items():
            c.true(s in got, f"{s} has an order")
            c.valid(t(got[s]) == r.z, f"order of {s}")
        c.true(builtins.len(me.orders) == builtins.len(me.symbols) == n + extra == builtins.len(got), "one symbol for each order")
        if not as_dict:
            for r, o in zip(R, me.orders):
                c.valid(t(o) == r.z, "orders as they were given")
        if as_dict:
            c.true([*given.values()] == R or builtins.all(x is y for x, y in zip(given.values(), R)), "the dictionary is not changed")
        g = made["group"]
        c.true(builtins.len(g.of) == builtins.len(me.orders), "one cyclic group for each order")
        c.true(me.group is g and me.ring == ("ring", g, field), "the group algebra of the product of cyclic groups")
        for o, r in zip(me.orders, g.of):
            c.valid(t(o) == t(r), "orders of the cyclic groups")
        c.true({str(s) for s in me.symbol_gens} == builtins.set(got), "a generator for each symbol")
        for i, (s, o) in enumerate(zip(me.symbols, me.orders)):
            c.true(me.symbol_gens[s] == (f"generator {i}" if o > 1 else "identity"), f"{s} stands for the generator of its own cyclic group")
    P("QCCode: symbols are assigned to orders and generators; the blocks are the transposed lifts of the polynomials (up to two symbols)",
      QC + "__init__", init, min_paths=16)

    # ---- change of generators
    def change(ctx, c, F):
        syms = ["x", "y"]
        i, j, k, l = ints("i", "j", "k", "l")
        m1, m2 = Mono(SInt("c1"), {"x": i, "y": j}), Mono(SInt("c2"), {"x": k, "y": l})
        gx, gy = object(), object()
        inv = {(1, 0): ints("xx", "xy"), (0, 1): ints("yx", "yy")}
        vx, vy = ("vector", 0), ("vector", 1)

        class Me(Loose):
            symbols = tuple(symbol(s) for s in syms)

            def as_exponent_vector(self, m):
                return vx if m is gx else vy if m is gy else Loose().vector

            def get_order(self, v):
                return ("order", v)

            def modular_inverse(self, basis, a, b):
                if tuple(basis) != (vx, vy):
                    CTX[-1].claims.true(False, "the equations are solved for the new generators")
                if (a, b) not in inv:
                    raise Unsupported("other equations")
                return tuple(inv[a, b])

            def get_canonical_form(self, p, orders=None):
                return ("canonical", p, orders)
        got = quantum.BBCode.change_poly_basis(Me(), gx, gy, m1, m2)
        c.true(isinstance(got, list) and builtins.len(got) == 2, "one polynomial for each polynomial")
        (xx, xy), (yx, yy) = inv[1, 0], inv[0, 1]
        for m, out in zip((m1, m2), got):
            c.true(isinstance(out, tuple) and out[0] == "canonical" and out[2] is not None and tuple(out[2]) == (("order", vx), ("order", vy)),
                   "canonical form with respect to the periods of the new generators")
            a, b = m.exps["x"], m.exps["y"]
            equal_mono(c, out[1], m.coeff, {"x": a * xx + b * yx, "y": a * xy + b * yy}, "new exponents")
    P("change_poly_basis: x^i y^j has the new exponents i (xx, xy) + j (yx, yy)", B + "change_poly_basis", change)

    # ---- toric layouts
    def toric(ctx, c, F):
        syms = ("x", "y")
        pa, pb = PolyToken("A", syms), PolyToken("B", syms)
        orders, valid = [], []

        def find(store, v, make):
            for w, r in store:
                if builtins.all(same(p, q) for p, q in zip(v, w)):
                    return r
            r = make()
            store.append((v, r))
            return r

        class Me(Loose):
            poly_a, poly_b, symbols = pa, pb, tuple(map(symbol, syms))
            graph = object()

            def as_exponent_vector(self, m):
                return (m.exps.get("x", 0), m.exps.get("y", 0))

            def is_valid_basis(self, g, k):
                for s1, s2 in _itertools.product((1, -1), repeat=2):
                    for (p, q), r in valid:
                        if builtins.all(same(s1 * u, v) for u, v in zip(g, p)) and builtins.all(same(s2 * u, v) for u, v in zip(k, q)):
                            return r
                r = CTX[-1].decide("valid basis")
                valid.append(((g, k), r))
                return r

            def get_order(self, v):
                return find(orders, tuple(v), lambda: fresh("period", 1))

            def change_poly_basis(self, g, k, *polys):
                return [("changed", g, k, p) for p in polys]

        me = Me()

        def good(p):
            """(a1, a2, b1, b2): terms of A and B such that a2 / a1 and b2 / b1 are a valid basis."""
            c.true(isinstance(p, tuple) and builtins.len(p) == 4, "four monomials")
            a1, a2, b1, b2 = p
            c.true(getattr(a1, "source", 0) == getattr(a2, "source", 1) == "A" and a1 is not a2, "two terms of A")
            c.true(getattr(b1, "source", 0) == getattr(b2, "source", 1) == "B" and b1 is not b2, "two terms of B")
            v = lambda m, n: (n.exps["x"] - m.exps["x"], n.exps["y"] - m.exps["y"])
            before = builtins.len(valid)
            ok = me.is_valid_basis(v(a1, a2), v(b1, b2))
            c.true(builtins.len(valid) == before and ok, "a layout is based on a valid basis")

        class Candidates(loops.Loop):
            mutates = loops.ANY

            def enter(self, it, env):
                if not isinstance(it, ToricPairs):
                    raise Unsupported("loop over something else")
                self.items = it
                lists = [k for k, v in env.items() if type(v) is list and not v]
                if builtins.len(lists) != 1:
                    raise Unsupported("lists")
                self.name = lists[0]

            def item(self, env):
                return self.items.sample()

            def back(self, env):
                got = env[self.name]
                for p in got:
                    good(p)
                if builtins.any(r for _, r in valid):
                    c.true(builtins.len(got) > 0, "a valid basis gives a layout")
                c.true(True, "candidates")

            def done(self, env):
                env[self.name].append("candidates")

        class Layouts(loops.Loop):
            mutates = loops.ANY

            def enter(self, it, env):
                if it != ["candidates"]:
                    raise Unsupported("loop over something else")
                lists = [k for k, v in env.items() if type(v) is list and not v]
                if builtins.len(lists) != 1:
                    raise Unsupported("lists")
                self.name = lists[0]

            def item(self, env):
                ms = [pa.monomial("A"), pa.monomial("A"), pb.monomial("B"), pb.monomial("B")]
                v = lambda m, n: (n.exps["x"] - m.exps["x"], n.exps["y"] - m.exps["y"])
                self.g, self.h = v(ms[0], ms[1]), v(ms[2], ms[3])
                valid.append(((self.g, self.h), True))
                self.ms = ms
                return tuple(ms)

            def back(self, env):
                got = env[self.name]
                c.true(builtins.len(got) == 1, "one layout")
                os, na, nb = got[0]
                c.valid(t(os[0]) >= t(os[1]), "width >= height")
                for out in (na, nb):
                    c.true(isinstance(out, tuple) and out[0] == "changed" and isinstance(out[3], Shifted), "polynomials in new generators")
                c.true(na[1] is nb[1] and na[2] is nb[2], "the same generators for both polynomials")
                vec = lambda m: (m.exps["x"], m.exps["y"])
                for gen, o, out in ((na[1], os[0], na), (na[2], os[1], nb)):
                    poly = out[3].poly
                    first, second, d = (self.ms[0], self.ms[1], self.g) if poly is pa else (self.ms[2], self.ms[3], self.h)
                    c.true(builtins.all(same(p, q) for p, q in zip(vec(gen), d)), "the generator is the quotient of two terms of its own polynomial")
                    c.true(out[3].by is first or builtins.all(same(p, q) for p, q in zip(vec(out[3].by), vec(first))), "the polynomial is divided by the first of the two terms")
                    c.valid(t(o) == me.get_order(d).z, "the order is the period of the generator")
                c.true({na[3].poly.name, nb[3].poly.name} == {"A", "B"}, "both polynomials")

            def done(self, env):
                env[self.name].append("layouts")
        with loops.cut(quantum.BBCode, "get_equivalent_toric_layout_code_data", {0: Candidates(), 1: Layouts()}):
            got = quantum.BBCode.get_equivalent_toric_layout_code_data(me)
        if got == ["layouts"]:
            c.true(True, "all layouts")
        else:
            c.true(list(got) == [] and ("connected", False) in [tuple(e) for e in ctx.log], "no layout only for codes that are not connected")
    P("get_equivalent_toric_layout_code_data: every layout is given by a valid basis of quotients of terms; every valid basis gives one",
      B + "get_equivalent_toric_layout_code_data", toric, min_paths=6, nx=ToricNX())

    def probe(ctx, c, F):
        m = monomial(ctx)
        coeff, got = quantum.QCCode.get_coefficient_and_exponents(m)
        c.valid(t(coeff) == 1, "all coefficients are 1")
    P("all coefficients are 1", QC + "get_coefficient_and_exponents", probe, expect="fail")


class _MonoInt(type(sym_int)):
    def __call__(cls, x=0, *a):
        return x.coeff if isinstance(x, Mono) and not x.exps else sym_int(x, *a)


class mono_int(metaclass=_MonoInt):
    pass


def poly_monomial(self, source):
    m = Mono(1, {s: fresh("e") for s in self.symbols})
    m.source = source
    return m


PolyToken.monomial = poly_monomial


class ToricNX:
    @staticmethod
    def is_weakly_connected(g):
        return CTX[-1].decide("connected")

    def __getattr__(self, k):
        raise Unsupported(f"nx.{k}")


class Pairs:
    def __init__(self, monomials):
        self.monomials = monomials


class ToricPairs:
    def __init__(self, pairs):
        self.pairs = pairs

    def sample(self):
        out = []
        for p in self.pairs:
            poly = p.monomials.of
            out.append((poly.monomial(poly.name), poly.monomial(poly.name)))
        return tuple(out)


class ToricItertools(Itertools):
    @staticmethod
    def combinations(x, n):
        if isinstance(x, Monomials) and n == 2:
            return Pairs(x)
        if isinstance(x, Monomials):
            raise Unsupported("combinations")
        return _itertools.combinations(x, n)

    @staticmethod
    def product(*its):
        if its and builtins.all(isinstance(i, Pairs) for i in its):
            return ToricPairs(its)
        return Itertools.product(*its)
