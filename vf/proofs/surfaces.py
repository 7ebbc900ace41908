"""Surface and toric codes (C19): the layouts of their checks, for every number of rows and columns."""
from __future__ import annotations

import ast
import builtins
import itertools
import sys

import numpy as np
import z3

from vf import env, lemma  # noqa: F401
from vf.sym import loops, scalar, shim
from vf.sym.mat import CTX, Unsupported
from vf.sym.prove import prove

from .transversal import Between, Length, Slots, Whole, between

from qldpc import codes
from qldpc.codes import quantum

QU = "qldpc.codes.quantum."
MODS = [quantum]
TRUSTED = [
    "numpy: zeros, ravel (row by row), count_nonzero, ndindex (row by row), array of a list of rows, view (C19: surfaces)",
    "galois: GF(q) is the field with q elements",
]


def t(x):
    r = scalar.term(x)
    if r is None:
        raise Unsupported("a number")
    return r


def num(x):
    return scalar.SInt(t(x))


class Patch:
    """A grid of zeros in which some entries are set to one."""

    def __init__(self, c, rows, cols):
        self.c, self.rows, self.cols, self.ones = c, rows, cols, []

    def __setitem__(self, idx, v):
        if not (isinstance(idx, tuple) and len(idx) == 2) or not v == 1:
            raise Unsupported("entry")
        i, j = map(num, idx)
        for x, n in ((i, self.rows), (j, self.cols)):
            self.c.valid((x >= 0).f, "an index inside of the grid")  # negative indices would wrap around
            self.c.valid((x < n).f, "an index inside of the grid")
        self.ones.append((i.z, j.z))

    def entry(self, i, j):
        return z3.Or([z3.And(a == i, b == j) for a, b in self.ones])

    def count(self):
        terms = [z3.If(z3.Or([z3.And(a == x, b == y) for x, y in self.ones[:k]]), 0, 1) for k, (a, b) in enumerate(self.ones)]
        return scalar.SInt(z3.Sum(terms) if terms else z3.IntVal(0))

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("order")
        return Flat(self)

    flatten = ravel

    def reshape(self, *shape):
        if shape not in ((-1,), ((-1,),)):
            raise Unsupported("shape")
        return Flat(self)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a grid")

    __iter__ = None


class Flat:
    def __init__(self, patch):
        self.patch = patch

    def any(self):
        return self.patch.count() > 0

    def sum(self):
        return self.patch.count()

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a check")

    __iter__ = None


class Collected:
    """A list of checks; the events of the current iteration."""

    def __init__(self, name):
        self.name, self.events = name, []

    def append(self, x):
        self.events.append(x)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a list")

    __iter__ = None


class Checks:
    """The matrix whose rows are the collected checks."""

    def __init__(self, c, name):
        self.c, self.name, self.columns = c, name, []

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        if len(shape) != 2 or not isinstance(shape[0], int) or shape[0] != -1:
            raise Unsupported("shape")
        self.columns.append(shape[1])
        return self

    def astype(self, dtype):
        return self


class Numpy:
    def __init__(self, c):
        self.c = c

    def zeros(self, shape, dtype=None):
        if not (isinstance(shape, tuple) and len(shape) == 2):
            raise Unsupported("shape")
        return Patch(self.c, *map(num, shape))

    def count_nonzero(self, x):
        if not isinstance(x, (Flat, Patch)):
            raise Unsupported("count")
        return (x.patch if isinstance(x, Flat) else x).count()

    sum = count_nonzero

    def array(self, x, dtype=None):
        if not isinstance(x, Collected):
            raise Unsupported("array")
        return Checks(self.c, x.name)

    asarray = vstack = array

    def __getattr__(self, name):
        raise Unsupported(f"numpy.{name}")


class Outer(Whole):
    """for row in ...: checks of this row of tiles are added to the lists."""

    mutates = loops.ANY
    rebinds = True

    def __init__(self, c, st):
        self.c, self.st = c, st

    def enter(self, it, env):
        st = self.st
        if not isinstance(it, Between) or it.step != 1 or st.row is not None:
            raise Unsupported("iteration")
        if any(env.get(r) != [] for r in self.roots) or self.roots != set(st.names):
            raise Unsupported("the lists")
        st.rows_range = it

    def havoc(self, env):
        st = self.st
        st.row = scalar.SInt(f"row{next(CTX[-1].fresh)}")
        it = st.rows_range
        scalar.assume(st.row >= it.lo)
        scalar.assume(st.row < it.hi)
        st.lists = {n: Collected(n) for n in self.roots}
        return dict(st.lists)

    def item(self, env):
        return self.st.row

    def back(self, env):
        st = self.st
        if not st.inner.whole or any(env.get(n) is not x for n, x in st.lists.items()):
            raise Unsupported("the rest of the loop")


class Inner(Whole):
    mutates = loops.ANY
    rebinds = True

    def __init__(self, c, st):
        self.c, self.st = c, st

    def enter(self, it, env):
        st = self.st
        if not isinstance(it, Between) or it.step != 1 or st.row is None:
            raise Unsupported("iteration")
        if any(env.get(n) is not x or x.events for n, x in st.lists.items()) or self.roots != set(st.names):
            raise Unsupported("the lists")
        st.cols_range = it

    def havoc(self, env):
        st = self.st
        st.col = scalar.SInt(f"col{next(CTX[-1].fresh)}")
        scalar.assume(st.col >= st.cols_range.lo)
        scalar.assume(st.col < st.cols_range.hi)
        return dict(st.lists)

    def item(self, env):
        return self.st.col

    def back(self, env):
        st, c = self.st, self.c
        if any(env.get(n) is not x for n, x in st.lists.items()):
            raise Unsupported("the lists")
        st.claim(c)


class State:
    row = None


def named_lists(make, size=(4, 6)):
    """The names of the lists from which the returned matrices are made (from a run of the code)."""
    made = {}
    real = quantum.np

    class Recorder:
        def array(self, x, *a, **k):
            env = sys._getframe(1).f_locals
            got = real.array(x, *a, **k)
            made[id(got)] = (got, [n for n, v in env.items() if v is x])
            return got

        asarray = vstack = array

        def __getattr__(self, name):
            return getattr(real, name)

    with shim.patched(quantum, np=Recorder()):
        out = make(*size)
    names = [next((names for got, names in made.values() if np.shares_memory(got, m)), []) for m in out]
    if len(out) != 2 or any(len(n) != 1 for n in names) or names[0] == names[1]:
        raise Unsupported("the lists of checks")
    return [n[0] for n in names]


def nested_loops(fn):
    """Loops of the function itself (numbers in order of the text): exactly one nest of two."""
    _, node = loops.source_function(fn)
    number = itertools.count()
    found = []

    def visit(n, inside):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                visit(ch, None)
            elif isinstance(ch, (ast.For, ast.While)):
                k = next(number)
                if inside is not None:
                    found.append((k, inside))
                visit(ch, k if inside is not None else None)
            else:
                visit(ch, inside)
    visit(node, -1)
    if len(found) != 2 or found[0][1] != -1 or found[1][1] != found[0][0]:
        raise Unsupported("the loops over tiles")
    return found[0][0], found[1][0]


def layout(h):
    def family(cls, periodic):
        def body(ctx, c, F):
            R, C = Length("rows"), Length("cols")
            scalar.assume(R >= 1)
            scalar.assume(C >= 1)
            if periodic:
                scalar.assume(R.z % 2 == 0)
                scalar.assume(C.z % 2 == 0)
            raw = cls.__dict__["get_rotated_checks"]
            k_out, k_in = nested_loops(raw.__func__)
            st = State()
            st.names = named_lists(cls.get_rotated_checks)
            x, z = st.names

            def claim(c):
                # tiles are numbered from -1 (from 0 if periodic), whatever the loops count from
                lo = 0 if periodic else -1
                for got, n, what in ((st.rows_range, R, "rows"), (st.cols_range, C, "columns")):
                    size = num(got.hi) - num(got.lo)
                    c.valid((size >= n - lo).f, f"all {what} of tiles are visited")
                    if size != n - lo:
                        raise Unsupported("more iterations than tiles")
                r = (st.row - st.rows_range.lo + lo).z
                q = (st.col - st.cols_range.lo + lo).z
                even = (r + q) % 2 == 0
                if periodic:
                    member = {x: even, z: z3.Not(even)}
                else:
                    member = {x: z3.And(even, r >= 0, r < R.z - 1, q >= -1, q <= C.z - 1), z: z3.And(z3.Not(even), r >= -1, r <= R.z - 1, q >= 0, q < C.z - 1)}
                i, j = z3.Ints("i j")
                grid = z3.And(i >= 0, i < R.z, j >= 0, j < C.z)
                if periodic:
                    n1 = z3.If(r + 1 == R.z, 0, r + 1)
                    m1 = z3.If(q + 1 == C.z, 0, q + 1)
                    tile = z3.And(z3.Or(i == r, i == n1), z3.Or(j == q, j == m1))
                else:
                    tile = z3.And(z3.Or(i == r, i == r + 1), z3.Or(j == q, j == q + 1))
                for name, kind in ((x, "X"), (z, "Z")):
                    got = st.lists[name].events
                    if not got:
                        c.valid(z3.Not(member[name]), f"a tile of kind {kind} is a check")
                        continue
                    c.valid(member[name], f"only tiles of kind {kind} are {kind}-type checks")
                    for check in got:
                        if not isinstance(check, Flat):
                            raise Unsupported("a check")
                        c.valid(z3.Implies(grid, check.patch.entry(i, j) == tile), "a check acts on the qubits of its tile")
                        c.valid(z3.And((check.patch.rows == R).f, (check.patch.cols == C).f), "the grid")

            st.claim = claim
            st.inner = Inner(c, st)
            outer = Outer(c, st)
            with shim.patched(quantum, np=Numpy(c), range=between), loops.cut(cls, "get_rotated_checks", {k_out: outer, k_in: st.inner}):
                got = cls.get_rotated_checks(R, C)
            c.true(outer.whole, "all rows")
            if not isinstance(got, tuple) or len(got) != 2 or not all(isinstance(m, Checks) for m in got) or [m.name for m in got] != [x, z]:
                raise Unsupported("the result")
            for m in got:
                for n in m.columns:
                    c.valid(num(n).z == R.z * C.z, "one column for each qubit")

        return body

    for cls, periodic, name in ((codes.SurfaceCode, False, "surface"), (codes.ToricCode, True, "toric")):
        body = family(cls, periodic)
        where = f"{QU}{cls.__name__}.get_rotated_checks"
        prove(h, f"rotated {name} codes: tiles with an even (odd) sum of coordinates are the X-type (Z-type) checks", where, body, MODS, plain=True, min_paths=4)


class Matrix:
    """A matrix of checks; `where` tells which multiples its columns were given."""

    def __init__(self, name, field=None):
        self.name, self.field, self.flips, self.last = name, field, [], None

    def view(self, field):
        self.last = Matrix(self.name, field)
        self.last.flips = self.flips  # a view: the same entries
        return self.last

    def __getitem__(self, idx):
        if idx == slice(None, -1, None):
            return Matrix((self.name, "without the last row"), self.field) if not self.flips else Dropped(self)
        return Part(self, idx)

    def __setitem__(self, idx, v):
        if not (isinstance(v, Part) and v.of is self and v.idx is idx and v.factor is not None):
            raise Unsupported("entries")
        self.flips.append((idx, v.factor, self.field))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a matrix")

    __iter__ = None


class Dropped(Matrix):
    def __init__(self, m):
        super().__init__((m.name, "without the last row"), m.field)
        self.flips = m.flips


class Part:
    def __init__(self, of, idx, factor=None):
        self.of, self.idx, self.factor = of, idx, factor

    def __mul__(self, k):
        if self.factor is not None or not isinstance(k, builtins.int):
            raise Unsupported("product")
        return Part(self.of, self.idx, k)

    __rmul__ = __imul__ = __mul__

    def __neg__(self):
        return self * -1

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of entries")

    __iter__ = None


class Sites:
    """np.ndindex(rows, cols): one arbitrary site."""

    def __init__(self, c, rows, cols):
        self.shape = rows, cols
        self.site = tuple(Length(f"{n}{next(CTX[-1].fresh)}") for n in "ij")
        for x, n in zip(self.site, self.shape):
            scalar.assume(x >= 0)
            scalar.assume(x < n)
        i, j = self.site
        self.number = scalar.SInt(f"number{next(CTX[-1].fresh)}")  # i * cols + j, which only serves as a name of the site

    def __iter__(self):
        yield self.site


class Enumerated:
    def __init__(self, sites):
        self.sites = sites

    def __iter__(self):
        yield self.sites.number, self.sites.site


class GF:
    def __init__(self, c, order):
        self.c, self.order, self.field = c, order, None

    def GF(self, q, **k):
        self.c.valid((num(q) == self.order).f, "the field that was asked for")
        if self.field is None:
            self.field = type("Field", (), {"order": self.order})
        return self.field

    def __getattr__(self, name):
        raise Unsupported(f"galois.{name}")


def codes_of(h):
    def family(cls, periodic):
        def body(ctx, c, F):
            R, square = Length("rows"), ctx.decide("square")
            C = R if square else Length("cols")
            low = 2
            for x in (R, C):
                scalar.assume(x >= low)
            if ctx.decide("field"):
                q = scalar.SInt("q")
                scalar.assume(q >= 2)
                given = order = q
            else:
                given, order = None, 2
            rotated = ctx.decide("rotated")
            made, sites, hgp, init = [], [], [], []
            gal = GF(c, order if isinstance(order, scalar.SInt) else scalar.SInt(z3.IntVal(order)))

            class Code(cls):
                def __init__(self):
                    pass

            def checks(a, b):
                c.true(rotated, "the rotated layout")
                c.valid((num(a) == R).f, "rows")
                c.valid((num(b) == C).f, "columns")
                made.append((Matrix("X"), Matrix("Z")))
                return made[-1]

            class Np:
                def ndindex(self, *shape):
                    if len(shape) == 1:
                        shape = tuple(shape[0])
                    c.valid((num(shape[0]) == R).f, "rows")
                    c.valid((num(shape[1]) == C).f, "columns")
                    sites.append(Sites(c, *shape))
                    return sites[-1]

                def __getattr__(self, name):
                    raise Unsupported(f"numpy.{name}")

            class Chain:
                def __init__(self, kind, bits, field=None):
                    self.kind, self.bits = kind, num(bits)
                    c.true(field is given, "field")

                def __getattr__(self, name):
                    raise Unsupported(f"attribute {name} of a code")

            class Product:
                def __init__(self, a, b=None, field=None, **k):
                    if not isinstance(a, Chain) or not isinstance(b, Chain) or k:
                        raise Unsupported("the product")
                    c.true(not rotated, "the original layout")
                    c.true(field in (None, given) or field is given, "field")
                    want = "ring" if periodic else "repetition"
                    c.true(a.kind == want and b.kind == want, f"a product of {want} codes")
                    c.valid((a.bits == R).f, "rows")
                    c.valid((b.bits == C).f, "columns")
                    self.matrix_x, self.matrix_z = Matrix("product X", "field"), Matrix("product Z", "field")
                    hgp.append(self)

                class sector_size:
                    def __class_getitem__(cls, idx):
                        return ("sector", idx)

                def __getattr__(self, name):
                    raise Unsupported(f"attribute {name} of a code")

            def css(code, mx, mz, field=None, **k):
                init.append((mx, mz, field, k))

            class CSS:
                __init__ = staticmethod(css)

            def one(kind):
                return lambda bits, field=None: Chain(kind, bits, field)

            odd = z3.Or(R.z % 2 == 1, C.z % 2 == 1)
            old = cls.__dict__["get_rotated_checks"]
            cls.get_rotated_checks = staticmethod(checks)
            code = Code()
            args = (R,) if square and ctx.decide("one size") else (R, C)
            kw = {} if given is None else {"field": given}
            try:
                with shim.patched(quantum, galois=gal, np=Np(), RepetitionCode=one("repetition"), RingCode=one("ring"), HGPCode=Product, CSSCode=CSS,
                                  enumerate=lambda s: Enumerated(s)), cls_base(cls, CSS):
                    try:
                        cls.__init__(code, *args, rotated=rotated, **kw)
                    except ValueError:
                        c.true(periodic and rotated, "sizes are accepted")
                        c.valid(odd, "even sizes are accepted")
                        return
            finally:
                cls.get_rotated_checks = old
            if periodic and rotated:
                c.valid(z3.Not(odd), "odd sizes are rejected")
            if len(init) != 1:
                raise Unsupported("the matrices")
            mx, mz, field, k = init[0]
            if not (isinstance(mx, Matrix) and isinstance(mz, Matrix)):
                raise Unsupported("the matrices")
            c.true(field is given or field is gal.field, "the field")
            promise = k.get("promise_equal_distance_xz", False)
            if not isinstance(promise, (bool, scalar.SBool)):
                raise Unsupported("promise")
            if not square and bool(promise):
                c.valid((R == C).f, "equal distances are promised only for squares")
            names = mx.name, mz.name
            if rotated:
                if names == (("X", "without the last row"), ("Z", "without the last row")):
                    c.true(periodic, "a check is missing")
                    c.valid(z3.And((R == 2).f, (C == 2).f), "a check is missing")
                else:
                    c.true(names == ("X", "Z"), "the checks of the layout")
                    if periodic:
                        c.valid(z3.Not(z3.And((R == 2).f, (C == 2).f)), "the 2x2 rotated toric code has each check once")
                c.true(not mx.flips, "the X-type checks are sums")
                c.valid(z3.Implies(num(order).z > 2, z3.BoolVal(len(mz.flips) > 0)), "the Z-type checks are alternating sums")
                if len(mz.flips) > 1:
                    raise Unsupported("several factors")
                for idx, factor, fld in mz.flips:
                    c.true(factor == -1 and (fld is gal.field), "entries are negated in the field")
                    if not (isinstance(idx, tuple) and len(idx) == 2 and idx[0] == slice(None) and isinstance(idx[1], list) and len(sites) == 1):
                        raise Unsupported("columns")
                    i, j = sites[0].site
                    flag = any(x is sites[0].number for x in idx[1])
                    if len(idx[1]) > flag:
                        raise Unsupported("columns")
                    odd_site = (i.z + j.z) % 2 == 1
                    same = odd_site if flag else z3.Not(odd_site)
                    if scalar.implied(z3.Not(same)):
                        raise Unsupported("the other half of the columns")
                    c.valid(same, "the columns that are negated alternate")
                    c.true(mz.field is fld, "the matrix over the field")
            else:
                c.true(names == ("product X", "product Z") and not mx.flips and not mz.flips, "the checks of the product")
            if periodic:
                c.valid((num(code._dimension) == 2).f, "dimension")
                for d in (code._distance_x, code._distance_z):
                    d = num(d)
                    c.valid(z3.And((d <= R).f, (d <= C).f, z3.Or((d == R).f, (d == C).f)), "distances: the smaller side")
            else:
                c.valid((num(code._dimension) == 1).f, "dimension")
                c.valid((num(code._distance_x) == C).f, "distance of X-type operators")
                c.valid((num(code._distance_z) == R).f, "distance of Z-type operators")

        return body

    for cls, periodic, name in ((codes.SurfaceCode, False, "surface"), (codes.ToricCode, True, "toric")):
        prove(h, f"{name} codes: signs of checks, dimension and distances", f"{QU}{cls.__name__}.__init__", family(cls, periodic), MODS, plain=True, min_paths=4)


class cls_base:
    """super().__init__ and CSSCode.__init__ mean the same."""

    def __init__(self, cls, css):
        self.cls, self.css = cls, css

    def __enter__(self):
        base = self.cls.__bases__[0]
        self.base, self.old = base, base.__dict__["__init__"]
        base.__init__ = lambda code, *a, **k: self.css.__init__(code, *a, **k)

    def __exit__(self, *a):
        self.base.__init__ = self.old


def surface_lemmas(h):
    lemma.check(h, "Surface")


def product_lemmas(h):
    lemma.check(h, "Products")


def product_codes(h):
    from vf.sym.prove import M

    from .blocks import MODS as ALL

    k, eye, block = shim.np_kron, shim.np_eye, shim.np_block

    def hgp(ctx, c, F):
        a, b = M(F, "A", "m1", "n1", "A"), M(F, "B", "m2", "n2", "B")
        code = codes.HGPCode(a, b, set_logicals=False)
        (m1, n1), (m2, n2) = a.shape, b.shape
        c.equal(code.matrix_x, block([k(a, eye(n2)), k(eye(m1), b.T)]), "X-type checks: words of sector 0 in the columns of A, of sector 1 in the rows of B")
        c.equal(code.matrix_z, block([-k(eye(n1), b), k(a.T, eye(m2))]), "Z-type checks")
        c.untouched()

    prove(h, "hypergraph products have the checks of the lemmas", QU + "HGPCode.__init__", hgp, ALL)

    def shp(ctx, c, F):
        a, b = M(F, "A", "m1", "n1", "A"), M(F, "B", "m2", "n2", "B")
        code = codes.SHPCode(a, b, set_logicals=False)
        c.equal(code.matrix_x, k(a, eye(b.shape[1])), "X-type gauge operators")
        c.equal(code.matrix_z, k(eye(a.shape[1]), b), "Z-type gauge operators")
        c.untouched()

    prove(h, "subsystem hypergraph products have the gauge operators of the lemmas", QU + "SHPCode.__init__", shp, ALL)


class Seed:
    """A classical code of a family, known by its parameters (C19: chains, hamming)."""

    def __init__(self, kind, size, field=None):
        self.kind, self.size, self.field = kind, size, field
        self.distance = scalar.SInt(f"distance{next(COUNT)}")

    def get_distance(self, **k):
        if k:
            raise Unsupported("bounds")
        return self.distance

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a code")


COUNT = itertools.count()


def product_seeds(h):
    """Which classical codes the members of families of products are built from."""

    def stub(record, name="SHPCode"):
        class Product:
            def __init__(self, a, b=None, field=None, *, set_logicals=True):
                if not isinstance(a, Seed) or not (b is None or isinstance(b, Seed)):
                    raise Unsupported("the product")
                record.append((a, a if b is None else b, field, set_logicals))

        Product.__name__ = name
        return Product

    def blank(cls):
        class Code(cls):
            def __init__(self):
                pass

        return Code()

    def logicals(ctx):
        if ctx.decide("logicals"):
            return {"set_logicals": False}
        return {}

    def bacon(ctx, c, F):
        R = Length("rows")
        scalar.assume(R >= 1)
        if square := ctx.decide("square"):
            C = None
        else:
            C = Length("cols")
            scalar.assume(C >= 1)
        given = None if ctx.decide("no field") else scalar.SInt("q")
        record, kw = [], logicals(ctx)
        base = stub(record)
        code = blank(codes.BaconShorCode)
        with shim.patched(quantum, SHPCode=base, RepetitionCode=lambda bits, field=None: Seed("repetition", bits, field)), cls_base(codes.BaconShorCode, base):
            codes.BaconShorCode.__init__(code, *([R] if square and C is None else [R, C]), **({} if given is None else {"field": given}), **kw)
        c.true(len(record) == 1, "one product")
        (a, b, field, flag), = record
        c.valid((num(a.size) == R).f, "the first repetition code")
        c.valid((num(b.size) == (R if C is None else C)).f, "the second repetition code")
        c.true(a.field is given and b.field is given and (field is given or field is None), "field")
        c.true(flag is kw.get("set_logicals", True), "logical operators on request")

    prove(h, "Bacon-Shor codes are products of repetition codes", QU + "BaconShorCode.__init__", bacon, MODS, plain=True, min_paths=4)

    def shyps(ctx, c, F):
        X, Z = scalar.SInt("dim_x"), scalar.SInt("dim_z")
        scalar.assume(z3.And(X.z >= 1, Z.z >= 1))
        square = ctx.decide("square")
        record, kw = [], logicals(ctx)
        base = stub(record)
        code = blank(codes.SHYPSCode)
        with shim.patched(quantum, SHPCode=base, SimplexCode=lambda dim: Seed("simplex", dim)), cls_base(codes.SHYPSCode, base):
            codes.SHYPSCode.__init__(code, *([X] if square else [X, Z]), **kw)
        c.true(len(record) == 1, "one product")
        (a, b, field, flag), = record
        c.valid((num(a.size) == X).f, "the simplex code of X-type gauge operators")
        c.valid((num(b.size) == (X if square else Z)).f, "the simplex code of Z-type gauge operators")
        c.true(field in (None, 2) and flag is kw.get("set_logicals", True), "field, logical operators on request")
        c.valid((num(code._dimension) == num(a.size) * num(b.size)).f, "dimension: the product of the dimensions")
        c.valid((num(code._distance_x) == b.distance).f, "X-type distance: the distance of the second code")
        c.valid((num(code._distance_z) == a.distance).f, "Z-type distance: the distance of the first code")

    prove(h, "SHYPS codes are products of simplex codes and have their dimension and distances", QU + "SHYPSCode.__init__", shyps, MODS, plain=True, min_paths=4)

    def iceberg(ctx, c, F):
        m = Length("m")
        scalar.assume(m >= 2)
        alternative = ctx.decide("alternative")
        if alternative:
            scalar.assume(m > 3)
        init = []

        class Css:
            def __init__(self, x, z, field=None, **k):
                init.append((x, z, field, k))

        code = blank(codes.IcebergCode)
        with shim.patched(quantum, CSSCode=Css), cls_base(codes.IcebergCode, Css):
            codes.IcebergCode.__init__(code, m, **({"alternative_logicals": True} if alternative else {}))
        c.true(len(init) == 1, "one code")
        (x, z, field, k), = init
        for checks in (x, z):
            if not (isinstance(checks, list) and len(checks) == 1 and isinstance(checks[0], Slots)):
                raise Unsupported("checks")
            c.true(checks[0].init == 1, "the sum of all bits")
            c.valid((num(checks[0].length) == 2 * num(m)).f, "number of qubits")
        c.true(field in (None, 2) and not k.get("is_subsystem_code") and set(k) <= {"is_subsystem_code", "promise_equal_distance_xz"}, "a stabilizer code over GF(2)")
        c.valid((num(code._dimension) == 2 * num(m) - 2).f, "dimension")
        c.valid(z3.And((num(code._distance_x) == 2).f, (num(code._distance_z) == 2).f), "distances")

    prove(h, "iceberg codes: checks, dimension and distances", QU + "IcebergCode.__init__", iceberg, MODS, plain=True, min_paths=2)
