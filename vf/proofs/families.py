"""Families of classical and quantum codes (C19): entries of their matrices, for every size and field."""
from __future__ import annotations

import builtins
import itertools

import galois
import numpy as np
import z3

from vf import env, lemma  # noqa: F401
from vf.sym import loops, scalar, shim
from vf.sym.mat import CTX, Unsupported
from vf.sym.prove import prove

from .transversal import Between, Length, Whole, between

from qldpc import codes
from qldpc.codes import classical, quantum

CL, QU = "qldpc.codes.classical.", "qldpc.codes.quantum."
MODS = [classical, quantum]
TRUSTED = [
    "galois: the matrix of zeros, conversion of integers to field elements, arithmetic (integers act as multiples of 1)",
    "itertools.product lists all strings over an alphabet, the constant string of the first letter first",
]


def fresh(name):
    return Length(f"{name}{next(CTX[-1].fresh)}")


class Index(Length):
    """The number of an arbitrary iteration."""

    __slots__ = ()

    def _op(self, o, f, swap=False):
        r = super()._op(o, f, swap)
        return r if r is NotImplemented else Index(r.z)

    def __mod__(self, m):
        if self >= 0 and self < m:
            return self
        if self == m:
            return Index(scalar.term(0))
        raise Unsupported("remainder")


class Table:
    """A matrix of integers (multiples of 1): entries are a function of row and column."""

    def __init__(self, c, rows, cols, f, name="matrix"):
        self.c, self.rows, self.cols, self.f, self.name, self.version = c, rows, cols, f, name, 0

    @property
    def shape(self):
        return self.rows, self.cols

    def _at(self, idx):
        if not (isinstance(idx, tuple) and len(idx) == 2):
            raise Unsupported("part of a matrix")
        out = []
        for x, n in zip(idx, (self.rows, self.cols)):
            t = scalar.term(x)
            if t is None:
                raise Unsupported("index")
            x = scalar.SInt(t)
            self.c.valid((x >= 0).f, "an index inside of the matrix")
            self.c.valid((x < n).f, "an index inside of the matrix")
            out.append(t)
        return out

    def __getitem__(self, idx):
        return scalar.SInt(z3.simplify(self.f(*self._at(idx))))

    def __setitem__(self, idx, v):
        i, j = self._at(idx)
        v, f = scalar.term(v), self.f
        if v is None:
            raise Unsupported("entry")
        self.f = lambda a, b: z3.If(z3.And(a == i, b == j), v, f(a, b))
        self.version += 1

    def __len__(self):
        raise Unsupported("length outside the shim")

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a matrix")

    __iter__ = None


class Field:
    """A finite field with q elements."""

    def __init__(self, c, q):
        self.c, self.order = c, q
        self.made = []

    def Zeros(self, shape, dtype=None):
        if not (isinstance(shape, tuple) and len(shape) == 2):
            raise Unsupported("shape")
        rows, cols = (scalar.SInt(scalar.term(x)) for x in shape)
        t = Table(self.c, rows, cols, lambda i, j: z3.IntVal(0))
        self.made.append(t)
        return t

    def __call__(self, x):
        if isinstance(x, builtins.int) or isinstance(x, scalar.SInt):
            return scalar.SInt(scalar.term(x))
        if hasattr(x, "in_field"):
            return x.in_field(self)
        raise Unsupported("field elements")

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a field")


class EachRow(Whole):
    """for row in range(rows): the entries of this row, and of no other one, are set."""

    mutates = loops.ANY

    def __init__(self, c, code, rows, spec):
        self.c, self.code, self.rows, self.spec = c, code, rows, spec

    def enter(self, it, env):
        if not isinstance(it, Between) or it.step != 1:
            raise Unsupported("iteration")
        c = self.c
        self.table = self.code._matrix
        if not isinstance(self.table, Table) or self.table.version or not all(env.get(r) in (self.code, self.table) for r in self.roots):
            raise Unsupported("the matrix")
        # rows without an iteration would stay empty
        c.valid((it.lo <= 0).f, "the first row")
        c.valid((it.hi >= self.rows).f, "the last row")
        if it.lo != 0 or it.hi != self.rows:
            raise Unsupported("more iterations than rows")

    def havoc(self, env):
        self.r = Index(f"row{next(CTX[-1].fresh)}")
        scalar.assume(self.r >= 0)
        g = z3.Function(f"G{next(CTX[-1].fresh)}", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = self.r.z
        self.before = lambda i, j: z3.If(i < r, g(i, j), 0)
        self.table.f = self.before
        return {}

    def more(self, env):
        go = super().more(env)
        scalar.assume(self.r < self.rows if go else self.r == self.rows)
        return go

    def item(self, env):
        return self.r

    def back(self, env):
        c = self.c
        if self.code._matrix is not self.table:
            raise Unsupported("the matrix")
        i, j = scalar.SInt(f"i{next(CTX[-1].fresh)}"), scalar.SInt(f"j{next(CTX[-1].fresh)}")
        inside = z3.And((i >= 0).f, (i < self.table.rows).f, (j >= 0).f, (j < self.table.cols).f)
        r = self.r.z
        c.valid(z3.Implies(z3.And(inside, i.z != r), self.table.f(i.z, j.z) == self.before(i.z, j.z)), "other rows stay as they are")
        self.spec(c, lambda col: self.table.f(r, col), self.r, z3.And(inside, i.z == r), j.z)

    def done(self, env):
        self.version = self.table.version


class Galois:
    def __init__(self, c, q):
        self.c, self.q, self.asked, self.field = c, q, [], None

    def GF(self, order, **k):
        if k:
            raise Unsupported("arguments of GF")
        self.asked.append(order)
        if self.field is None:
            self.field = Field(self.c, order if isinstance(order, scalar.SInt) else scalar.SInt(scalar.term(order)))
        return self.field

    def __getattr__(self, name):
        raise Unsupported(f"galois.{name}")


class Bare:
    """An instance of a class of codes that is about to be initialized."""

    @staticmethod
    def of(cls, **attributes):
        class Code(cls):
            def __init__(self):
                pass

            field = property(lambda self: self._field)

        for k, v in attributes.items():
            setattr(Code, k, v)
        return Code()


def asked_field(ctx, c):
    """A field is named, or not."""
    if ctx.decide("field"):
        q = scalar.SInt("q")
        scalar.assume(q >= 2)
        return q, q
    return None, 2


def chains(h):
    def family(name, rows_less):
        def body(ctx, c, F):
            bits = Length("bits")
            scalar.assume(bits >= 1)
            given, order = asked_field(ctx, c)
            gal = Galois(c, order)
            cls = getattr(codes, name)
            code = Bare.of(cls)

            def spec(c, entry, r, inside, j):
                """The row says that entries r and r + 1 (around the ring) are equal; it is empty if they are the same."""
                nxt = z3.If(r.z + 1 == bits.z, 0, r.z + 1)
                c.valid(z3.Implies(z3.And(inside, j != r.z, j != nxt), entry(j) == 0), "other entries are zero")
                c.valid(z3.Implies(nxt != r.z, z3.Or(entry(r.z) == 1, entry(r.z) == -1)), "the entry of the bit")
                c.valid(z3.Implies(nxt != r.z, entry(r.z) + entry(nxt) == 0), "the entry of the next bit")
                c.valid(z3.Implies(nxt == r.z, entry(r.z) == 0), "no condition on a single bit")

            rows = bits - rows_less
            loop = EachRow(c, code, rows, spec)
            with shim.patched(classical, galois=gal, range=between), loops.cut(cls, "__init__", {0: loop}):
                cls.__init__(code, bits, given)
            c.true(len(gal.asked) >= 1, "a field")
            for a in gal.asked:
                c.valid((scalar.SInt(scalar.term(a)) == order).f, "the field that was asked for")
            m = code._matrix
            c.true(loop.whole is True and m is loop.table and m.version == loop.version, "the matrix with these rows")
            c.valid((m.rows == rows).f, "number of checks")
            c.valid((m.cols == bits).f, "number of bits")
            c.valid((scalar.SInt(scalar.term(code._dimension)) == 1).f, "dimension")
            c.valid((scalar.SInt(scalar.term(code._distance)) == bits).f, "distance")

        return body

    prove(h, "the repetition code: adjacent bits are equal", CL + "RepetitionCode.__init__", family("RepetitionCode", 1), MODS, plain=True, min_paths=4)
    prove(h, "the ring code: adjacent bits are equal, around a ring", CL + "RingCode.__init__", family("RingCode", 0), MODS, plain=True, min_paths=4)


# ---- Reed-Muller codes


class Power:
    """2 ** m"""

    def __init__(self, m):
        self.m = m

    def of(self, m):
        return bool(self.m == m)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a power")


class Size(Length):
    __slots__ = ()

    def _op(self, o, f, swap=False):
        r = super()._op(o, f, swap)
        return r if r is NotImplemented else Size(r.z)

    def __rpow__(self, base):
        if base != 2:
            raise Unsupported("power")
        return Power(self)

    def __format__(self, spec):
        return "size"

    __str__ = __repr__ = lambda self: "size"


class Generator:
    """A matrix: ("ones", m), ("identity", m), ("code", r, m), ("blocks", [[..]]), or zeros like another one."""

    def __init__(self, *what):
        self.what = what

    def astype(self, t):
        if t not in (int, np.int_, builtins.int):
            raise Unsupported("type")
        return self

    @property
    def shape(self):
        raise Unsupported("shape")

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a matrix")


class NP:
    def ones(self, shape, dtype=None):
        if not (isinstance(shape, tuple) and len(shape) == 2 and shape[0] == 1 and isinstance(shape[1], Power)):
            raise Unsupported("shape")
        return Generator("ones", shape[1].m)

    def identity(self, n, dtype=None):
        if not isinstance(n, Power):
            raise Unsupported("shape")
        return Generator("identity", n.m)

    eye = identity

    def zeros_like(self, a, dtype=None):
        return Generator("zero", a)

    def block(self, rows):
        return Generator("blocks", rows)

    def __getattr__(self, name):
        raise Unsupported(f"numpy.{name}")


def reed_muller(h):
    def generator(ctx, c, F):
        r, m = Size("order"), Size("size")
        asked = []
        ok = ctx.decide("valid")
        if ok:
            scalar.assume(m >= 0)
            scalar.assume(r >= 0)
            scalar.assume(r <= m)
        else:
            scalar.assume(z3.Or((m < 0).f, (r < 0).f, (r > m).f))

        real = codes.ReedMullerCode.__dict__["get_generator"].__func__

        def again(a, b):
            a, b = (scalar.SInt(scalar.term(x)) for x in (a, b))
            for f in (b >= 0, a >= 0, a <= b):
                c.valid(f.f, "valid arguments of the recursion")
            c.valid((b < m).f, "the recursion ends")
            return Generator("code", a, b)

        old = codes.ReedMullerCode.__dict__["get_generator"]
        codes.ReedMullerCode.get_generator = staticmethod(again)
        try:
            with shim.patched(classical, np=NP()):
                try:
                    got = real(r, m)
                except ValueError:
                    c.true(not ok, "valid arguments are accepted")
                    return
        finally:
            codes.ReedMullerCode.get_generator = old
        c.true(ok, "invalid arguments are rejected")
        if not isinstance(got, Generator):
            raise Unsupported("generator")
        kind = got.what[0]
        if kind == "ones":
            c.valid((r == 0).f, "the constant word: order 0")
            c.valid((got.what[1] == m).f, "its length")
        elif kind == "identity":
            c.valid((r == m).f, "all words: highest order")
            c.valid((got.what[1] == m).f, "their length")
        elif kind == "blocks":
            rows = got.what[1]
            if not (len(rows) == 2 and all(len(x) == 2 for x in rows)):
                raise Unsupported("blocks")
            (a, a2), (z, b) = rows
            if not all(isinstance(x, Generator) for x in (a, a2, z, b)):
                raise Unsupported("blocks")
            c.true(a.what[0] == a2.what[0] == b.what[0] == "code" and z.what[0] == "zero" and z.what[1] is b, "rows (u | u) and (0 | v)")
            for x, order in ((a, r), (a2, r), (b, r - 1)):
                c.valid((x.what[1] == order).f, "order of a smaller code")
                c.valid((x.what[2] == m - 1).f, "size of a smaller code")
        else:
            raise Unsupported("generator")

    prove(h, "the generator of a Reed-Muller code: constant words, all words, or (u | u + v)", CL + "ReedMullerCode.get_generator", generator, MODS, plain=True, min_paths=4)

    def init(ctx, c, F):
        r, m = Size("order"), Size("size")
        scalar.assume(m >= 0)
        scalar.assume(r >= 0)
        scalar.assume(r <= m)
        given, order = asked_field(ctx, c)
        gal = Galois(c, order)
        gen, made = object(), []

        class RM(codes.ReedMullerCode):
            def __init__(self):
                pass

        def generator(a, b):
            c.valid((scalar.SInt(scalar.term(a)) == r).f, "order")
            c.valid((scalar.SInt(scalar.term(b)) == m).f, "size")
            return gen

        class Dual:
            def __init__(self, matrix, field=None):
                c.true(matrix is gen, "the code with these checks")
                made.append(field)

            generator = "dual"

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a code")

        real = codes.ReedMullerCode.__init__
        old = codes.ReedMullerCode.__dict__["get_generator"]
        codes.ReedMullerCode.get_generator = staticmethod(generator)
        code = RM()
        try:
            with shim.patched(classical, ClassicalCode=Dual, galois=gal, len=lambda x: "rows" if x is gen else builtins.len(x)):
                real(code, r, m, given)
        finally:
            codes.ReedMullerCode.get_generator = old
        c.true(code._matrix == "dual", "the checks generate the dual code")
        c.true(made == [given] or len(made) == 1 and made[0] is gal.field, "over the same field")
        for a in gal.asked:
            c.valid((scalar.SInt(scalar.term(a)) == order).f, "the field that was asked for")
        c.true(code._field is gal.field, "field")
        c.true(code._dimension == "rows", "the rows of the generator are independent")
        d = code._distance
        c.true(isinstance(d, Power), "distance")
        c.valid((d.m == m - r).f, "distance 2 ** (size - order)")

    prove(h, "a Reed-Muller code has the checks that annihilate its generator, and distance 2 ** (size - order)", CL + "ReedMullerCode.__init__", init, MODS, plain=True, min_paths=2)


# ---- Hamming codes


class Letters:
    """range(q) or [0, 1]"""

    def __init__(self, q):
        self.q = q


class Strings:
    """All strings of a length over an alphabet (in lexicographic order), without the first `skip` ones."""

    def __init__(self, q, length, skip=0):
        self.q, self.length, self.skip = q, length, skip

    def __getitem__(self, idx):
        if isinstance(idx, slice) and idx.stop is None and idx.step is None and isinstance(idx.start, builtins.int) and idx.start >= 0:
            return Strings(self.q, self.length, self.skip + idx.start)
        raise Unsupported("part of a list of strings")

    def comprehension(self, cond, elt):
        x = Text([("any", self.length)])
        if cond(x) is not True:
            raise Unsupported("selection of strings")
        return [Texts(self, elt(x))]

    def in_field(self, field):
        return Columns([self], field)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of strings")

    __iter__ = None


class Text:
    """A tuple, as runs of equal letters; ("any", m): m arbitrary letters."""

    def __init__(self, runs):
        self.runs = list(runs)

    @staticmethod
    def of(x):
        return x if isinstance(x, Text) else Text([(y, scalar.SInt(scalar.term(1))) for y in x])

    def __add__(self, o):
        if not isinstance(o, (tuple, Text)):
            raise Unsupported("concatenation")
        return Text(self.runs + Text.of(o).runs)

    def __radd__(self, o):
        if not isinstance(o, tuple):
            raise Unsupported("concatenation")
        return Text(Text.of(o).runs + self.runs)

    __iter__ = None


class Count(Index):
    """A number by which tuples can be repeated."""

    __slots__ = ()

    def _op(self, o, f, swap=False):
        r = super()._op(o, f, swap)
        return r if r is NotImplemented else Count(r.z)

    def __mul__(self, o):
        if isinstance(o, tuple):
            if len(o) != 1:
                raise Unsupported("repetition")
            return Text([(o[0], self)])
        return super().__mul__(o)

    __rmul__ = __mul__


class Texts:
    """One tuple for each string of a family."""

    def __init__(self, over, text):
        self.over, self.text = over, text


class Rows(Between):
    """A range: one item for each number."""

    def comprehension(self, cond, elt):
        x = Count(f"top{next(CTX[-1].fresh)}")
        scalar.assume(x >= self.least)
        scalar.assume(x <= self.most)
        if cond(x) is not True:
            raise Unsupported("selection")
        return [(self, x, elt(x))]

    @property
    def least(self):
        return self.lo if self.step == 1 else self.hi + 1

    @property
    def most(self):
        return self.hi - 1 if self.step == 1 else self.lo


class Columns:
    """A matrix whose rows (columns, if turned) are the given strings."""

    def __init__(self, parts, field, turned=False):
        self.parts, self.field, self.turned = parts, field, turned

    @property
    def T(self):
        return Columns(self.parts, self.field, not self.turned)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a matrix")

    __iter__ = None


class Listed(list):
    def in_field(self, field):
        return Columns(list(self), field)


def hamming(h):
    def body(ctx, c, F):
        r = Count("rank")
        scalar.assume(r >= 1)
        given, order = asked_field(ctx, c)
        gal = Galois(c, order)

        class Iter:
            def product(self, letters, repeat=1):
                q = letters.q if isinstance(letters, Letters) else scalar.SInt(scalar.term(len(letters))) if list(letters) == list(range(len(letters))) else None
                if q is None:
                    raise Unsupported("alphabet")
                return Strings(q, scalar.SInt(scalar.term(repeat)))

            def __getattr__(self, name):
                raise Unsupported(f"itertools.{name}")

        def numbers(*a):
            if len(a) == 1 and not isinstance(a[0], Count) and isinstance(a[0], scalar.SInt):
                return Letters(a[0])
            if len(a) == 1:
                a = (0,) + a
            if any(isinstance(x, scalar.SInt) for x in a):
                step = a[2] if len(a) > 2 else 1
                if step not in (1, -1):
                    raise Unsupported("range")
                return Rows(Count(scalar.term(a[0])), Count(scalar.term(a[1])), step)
            return builtins.range(*a)

        class Ham(codes.HammingCode):
            def __init__(self):
                pass

            field = property(lambda self: self._field)

        def length(x):
            if isinstance(x, Columns):
                if not x.turned:
                    raise Unsupported("orientation")
                return r
            if isinstance(x, Ham):
                return scalar.SInt("columns")
            return builtins.len(x)

        code = Ham()
        old, loops.NESTED[0] = loops.NESTED[0], lambda parts: Listed(parts)
        try:
            with shim.patched(classical, galois=gal, itertools=Iter(), range=numbers, len=length, list=lambda *a: a[0] if a and isinstance(a[0], Strings) else builtins.list(*a)), \
                    loops.cut(codes.HammingCode, "__init__", {}):
                codes.HammingCode.__init__(code, r, given)
        finally:
            loops.NESTED[0] = old
        for a in gal.asked:
            c.valid((scalar.SInt(scalar.term(a)) == order).f, "the field that was asked for")
        m = code._matrix
        if not isinstance(m, Columns) or not m.turned or len(m.parts) != 1:
            raise Unsupported("the matrix")
        part = m.parts[0]
        if isinstance(part, Strings):
            c.valid(scalar.SInt(scalar.term(order)).z == 2, "all strings but zero are different directions for bits only")
            c.valid((part.q == 2).f, "strings of bits")
            c.valid((part.length == r).f, "length of columns")
            c.true(part.skip == 1, "all strings but the first one, which is zero")
        else:
            over, top, inner = part
            if not (isinstance(inner, list) and len(inner) == 1 and isinstance(inner[0], Texts)):
                raise Unsupported("columns")
            tail, text = inner[0].over, inner[0].text
            c.valid((over.least == 0).f, "the leading entry can be the first one")
            c.valid((over.most == r - 1).f, "the leading entry can be the last one")
            runs = [x for x in text.runs]
            if len(runs) != 3 or runs[2][0] != "any":
                raise Unsupported("columns")
            c.true(runs[0][0] == 0 and runs[1][0] == 1, "zeros, then a one, then anything")
            c.valid((runs[1][1] == 1).f, "one leading entry")
            c.valid((runs[0][1] == top).f, "the position of the leading entry")
            c.valid((tail.q == order).f, "all field elements")
            c.true(tail.skip == 0, "all strings")
            c.valid((runs[2][1] == r - top - 1).f, "the rest of the column")
        c.valid((scalar.SInt(scalar.term(code._dimension)) == scalar.SInt("columns") - r).f, "dimension")
        c.valid((scalar.SInt(scalar.term(code._distance)) == 3).f, "distance")

    prove(h, "the columns of a Hamming code are the vectors whose leading entry is 1", CL + "HammingCode.__init__", body, MODS, plain=True, min_paths=3)


class Bits:
    """A matrix of bits whose entries are a function of row and column; rows can be added to rows."""

    def __init__(self, rows, cols, f):
        self.rows, self.cols, self.f = rows, cols, f

    @property
    def shape(self):
        return self.rows, self.cols

    def _row(self, i):
        i = scalar.term(i)
        if i is None:
            raise Unsupported("part of a matrix")
        return i

    def __getitem__(self, i):
        i = self._row(i)
        f = self.f
        return Line(self.cols, lambda j: f(i, z3.IntVal(j) if isinstance(j, builtins.int) else j))

    def __setitem__(self, i, v):
        if not isinstance(v, Line):
            raise Unsupported("row")
        i, f = self._row(i), self.f
        if not scalar.implied(i == 0):
            raise Unsupported("other combinations of rows")
        self.f = lambda a, b: z3.If(a == i, v.f(b), f(a, b))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a matrix")

    __iter__ = None


class Line:
    def __init__(self, size, f):
        self.size, self.f = size, f

    def __add__(self, o):
        if not isinstance(o, Line):
            raise Unsupported("sum")
        f, g = self.f, o.f
        return Line(self.size, lambda j: z3.Xor(f(j), g(j)))

    __iadd__ = __sub__ = __isub__ = __add__

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a row")

    __iter__ = None


class Stacks:
    """numpy: rows and columns are added to a matrix of bits."""

    int_ = int

    def zeros(self, n, dtype=None):
        return Line(scalar.SInt(scalar.term(n)), lambda j: z3.BoolVal(False))

    def ones(self, n, dtype=None):
        return Line(scalar.SInt(scalar.term(n)), lambda j: z3.BoolVal(True))

    def _two(self, parts):
        parts = list(parts)
        if len(parts) != 2 or not isinstance(parts[0], Line) or not isinstance(parts[1], Bits):
            raise Unsupported("stack")
        return parts

    def column_stack(self, parts):
        a, m = self._two(parts)
        if not a.size == m.rows:
            raise Unsupported("length of a column")
        f = m.f
        return Bits(m.rows, m.cols + 1, lambda i, j: z3.If(j == 0, a.f(i), f(i, j - 1)))

    def vstack(self, parts):
        a, m = self._two(parts)
        if not a.size == m.cols:
            raise Unsupported("length of a row")
        f = m.f
        return Bits(m.rows + 1, m.cols, lambda i, j: z3.If(i == 0, a.f(j), f(i - 1, j)))

    def __getattr__(self, name):
        raise Unsupported(f"numpy.{name}")


def extended(h):
    def body(ctx, c, F):
        r, n = Count("rank"), Count("bits")
        scalar.assume(r >= 1)
        scalar.assume(n >= 1)
        g = z3.Function("H", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        asked = []

        class Ham:
            def __init__(self, rank, field=None):
                c.valid((scalar.SInt(scalar.term(rank)) == r).f, "rank of the Hamming code")
                c.true(field in (None, 2), "bits")
                self.matrix = Bits(r, n, lambda i, j: g(i, j))

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a code")

        class Ext(codes.ExtendedHammingCode):
            def __init__(self):
                pass

        def init(code, matrix, field=None):
            c.true(field in (None, 2), "bits")
            asked.append(matrix)
            code._matrix = matrix

        class Classical:
            __init__ = staticmethod(init)

        code = Ext()

        def length(x):
            if x is code:
                return asked[-1].cols
            return x.rows if isinstance(x, Bits) else builtins.len(x)

        with shim.patched(classical, HammingCode=Ham, ClassicalCode=Classical, np=Stacks(), len=length):
            codes.ExtendedHammingCode.__init__(code, r)
        m = code._matrix
        if not isinstance(m, Bits) or m is not asked[-1]:
            raise Unsupported("the matrix")
        c.valid((m.rows == r + 1).f, "number of checks")
        c.valid((m.cols == n + 1).f, "number of bits")
        i, j = z3.Int("i"), z3.Int("j")
        inside = z3.And(i >= 0, i < r.z, j >= 0, j < n.z)
        c.valid(z3.Implies(inside, z3.And(z3.Not(m.f(i + 1, 0)), m.f(i + 1, j + 1) == g(i, j))), "checks of the Hamming code on all bits but the first one")
        # the first row: all ones, up to the first of the other rows
        row = lambda j: m.f(z3.IntVal(0), j)
        col = z3.And(j >= 0, j <= n.z)
        if not scalar.implied(z3.Implies(col, row(j))):
            c.valid(z3.Implies(col, row(j) == z3.Not(m.f(z3.IntVal(1), j))), "the parity of all bits is a check")
        c.valid((scalar.SInt(scalar.term(code._dimension)) == n - r).f, "dimension")
        c.valid((scalar.SInt(scalar.term(code._distance)) == 4).f, "distance")

    prove(h, "an extended Hamming code has the checks of the Hamming code and a parity of all bits", CL + "ExtendedHammingCode.__init__", body, MODS, plain=True, min_paths=1)


def family_lemmas(h):
    lemma.check(h, "Families")
