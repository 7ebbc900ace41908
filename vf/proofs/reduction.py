"""C12 (and inverses of C10): null spaces, row reduction and inverses over group algebras, of every shape.

Row reduction is followed by its row operations: each turns the rows v into u v_r (u a unit) and v_i + c v_r, or drops a row
that lies in the left span of the rows that are kept. That these operations keep the left span, that a consistent system over
the field is a left-linear combination over the ring, and that field-valued null vectors of the regular lift are the ring-valued
null vectors, is proved in vf/lemmas/GroupAlgebra.lean.
"""
from __future__ import annotations

import builtins

import numpy

from vf import lemma
from qldpc import abstract

from ..sym import loops
from ..sym.mat import CTX, PathEnd, Unsupported
from . import modules
from .modules import A, G, MODS, NP, ORDER, Arr, Axis, FakeArray, Size, SymRingArray, _RA, same, sym_len
from ..sym.prove import prove

TRUSTED = modules.TRUSTED + [
    "numpy.ndarray.copy() is a new array; rows of object arrays are combined entry by entry with the products of the ring (C10)",
]
R = abstract.RingArray
EXTRA = dict(np=NP(), RingArray=SymRingArray, len=sym_len)


def decide(key, what):
    """One decision per path for each key."""
    d = CTX[-1].__dict__.setdefault("decided", {})
    if key not in d:
        d[key] = CTX[-1].decide(what)
    return d[key]


def P(h, name, target, body, **k):
    patches = {**EXTRA, **k.pop("extra", {})}
    prove(h, name, A + target, body, MODS, plain=True, **patches, **k)


# ------------------------------------------------------------------ null spaces
def null_space(h):
    class Lifted(Arr):
        def null_space(self):
            t = Axis("t", "nullity")
            return Arr([[t], self.axes[1]], ("kernel", self.entry, "t", *(x.index for x in self.axes[1])))

    class Fake(FakeArray):
        def regular_lift(self):
            return Lifted([[Axis("i", "m"), Axis("a", G)], [Axis("j", "n"), Axis("b", G)]], ("lifted", "regular", self.arr.entry, "a", "b"))

        def lift(self):
            return Lifted([[Axis("i", "m"), Axis("a", "lift_dim")], [Axis("j", "n"), Axis("b", "lift_dim")]], ("lifted", "lift", self.arr.entry, "a", "b"))

    def body(expect):
        def run(ctx, c, F):
            x = Fake([[Axis("i", "m")], [Axis("j", "n")]], ("M", "i", "j"))
            calls = []

            def row_reduce(self, *, force_heuristic=True):
                calls.append((self, force_heuristic))
                return "reduced"
            flag = ctx.decide("force_heuristic")
            Arr.row_reduce = row_reduce
            try:
                out = R.__dict__["null_space"](x, force_heuristic=flag)
            finally:
                del Arr.row_reduce
            c.true(out == "reduced" and len(calls) == 1, f"the result is the row reduction: {out!r}")
            kernel = ("kernel", ("lifted", "regular", ("M", "i", "j"), "a", "b"), "t", "j", "b")
            same(c, calls[0][0], [[("t", "nullity")], [("j", "n")]], expect(("element", kernel, "b")), "null vectors")
            c.true(calls[0][1] is flag, "the flag is handed on")
        return run
    P(h, "null_space: row t has the transposes of the entries whose coefficients are the kernel vector t of the regular lift",
      "RingArray.null_space", body(lambda e: ("tr", e)), min_paths=2)
    P(h, "null vectors are not transposed", "RingArray.null_space", body(lambda e: e), expect="fail")
    lemma.check(h, "GroupAlgebra", {"null_iff", "annihilated_smul", "annihilated_add", "tr_add", "tr_smul"})


# ------------------------------------------------------------------ row operations
class Idx:
    """A row or column index, up to a shift; only identity counts."""

    def __init__(self, name, shift=0):
        self.name, self.shift = name, shift

    def __add__(self, k):
        return Idx(self.name, self.shift + k)

    __radd__ = __add__

    def __sub__(self, k):
        return Idx(self.name, self.shift - k)

    def __eq__(self, o):
        if isinstance(o, Idx) and o.name == self.name:
            return self.shift == o.shift
        raise Unsupported("comparison of indices")

    def _no(self, *a):
        raise Unsupported("arithmetic of an index")

    __lt__ = __le__ = __gt__ = __ge__ = __index__ = __bool__ = __int__ = __mul__ = _no
    __hash__ = None

    def at(self, name, shift=0):
        return self.name == name and self.shift == shift


class Coef:
    """A member of the ring as a polynomial of letters, with u e = e u = 1 for the entry e and its inverse u."""

    __array_ufunc__ = None

    def __init__(self, t):
        self.t = {}
        for m, k in t.items():
            out = []
            for x in m:
                if out and {out[-1], x} == {"e", "u"}:
                    out.pop()
                else:
                    out.append(x)
            self.t[tuple(out)] = self.t.get(tuple(out), 0) + k
        self.t = {m: k for m, k in self.t.items() if k}

    def __mul__(self, o):
        if isinstance(o, Coef):
            return Coef({m + n: k * l for (m, k), (n, l) in _pairs(self.t, o.t)})
        if isinstance(o, Row):
            return o.left(self)
        return NotImplemented

    def __neg__(self):
        return Coef({m: -k for m, k in self.t.items()})

    def __add__(self, o):
        out = dict(self.t)
        for m, k in o.t.items():
            out[m] = out.get(m, 0) + k
        return Coef(out)

    def __sub__(self, o):
        return self + -o

    def unit(self):
        return builtins.len(self.t) == 1 and all(abs(k) == 1 and set(m) <= {"e", "u"} for m, k in self.t.items())

    def one(self):
        return self.t == {(): 1}

    def inverse(self):
        if self.t != {("e",): 1}:
            raise Unsupported("the inverse of an entry that was not looked at")
        return Coef({("u",): 1}) if decide("inv", "the entry is invertible") else None

    def __bool__(self):
        if self.unit():
            return True
        return decide(("nonzero", repr(self.t)), "a member is not zero")

    def __repr__(self):
        return " + ".join(f"{k if k != 1 else ''}{''.join(m) or '1'}" for m, k in self.t.items()) or "0"


def _pairs(a, b):
    return [(x, y) for x in a.items() for y in b.items()]


ONE = Coef({(): 1})


class Row:
    """A left-linear combination of the rows that the matrix had."""

    __array_ufunc__ = None

    def __init__(self, comb, axis=None, mat=None):
        self.comb = {b: k for b, k in comb.items() if k.t}
        self.axis = axis  # None: a vector; 0: a matrix with this single row

    def left(self, k):
        return Row({b: k * x for b, x in self.comb.items()}, self.axis)

    def __rmul__(self, o):
        if isinstance(o, Coef):
            return self.left(o)
        if isinstance(o, (int, numpy.integer)):
            return self.left(Coef({(): int(o)}))
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, (Coef, Column)):
            CTX[-1].claims.true(False, f"a row is multiplied by {o!r} from the right: this is no operation on left modules")
        return NotImplemented

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] is None and k[1] == slice(None) and self.axis is None:
            return Row(self.comb, 0)
        if isinstance(k, Idx) and self.axis is None:
            return entry(self.comb, k)
        raise Unsupported(f"row[{k!r}]")

    def _more(self, o, s):
        if not isinstance(o, Row):
            return NotImplemented
        out = dict(self.comb)
        for b, k in o.comb.items():
            out[b] = out.get(b, Coef({})) + (k if s > 0 else -k)
        return Row(out, self.axis)

    def __add__(self, o):
        return self._more(o, 1)

    def __sub__(self, o):
        return self._more(o, -1)

    def __neg__(self):
        return self.left(Coef({(): -1}))

    def copy(self):
        return Row(self.comb, self.axis)

    def comprehension(self, cond, elt):
        raise Unsupported("entries of a row")

    def __iter__(self):
        raise Unsupported("entries of a row")

    def __repr__(self):
        return " + ".join(f"({k}) {b}" for b, k in self.comb.items()) or "0"


def entry(comb, col):
    """The entry of a combination of rows at a column."""
    out = Coef({})
    for b, k in comb.items():
        letter = "e" if b == "v_r" and col.at("col") else f"[{b} at {col.name}{col.shift:+d}]"
        out = out + k * Coef({(letter,): 1})
    return out


class Column:
    """The entries of a block of rows at a column: an arbitrary one of them."""

    __array_ufunc__ = None

    def __init__(self, part, coef):
        self.part, self.coef = part, coef

    def __mul__(self, o):
        if isinstance(o, Row):
            if o.axis != 0:
                raise Unsupported("a column times a row without a new axis")
            return Block(self.part, o.left(self.coef).comb)
        if isinstance(o, Coef):
            return Column(self.part, self.coef * o)
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, Coef):
            return Column(self.part, o * self.coef)
        return NotImplemented

    def __neg__(self):
        return Column(self.part, -self.coef)

    def __repr__(self):
        return f"entry {self.coef}"


class Block:
    """A block of consecutive rows: an arbitrary one of them."""

    __array_ufunc__ = None

    def __init__(self, part, comb):
        self.part, self.comb = part, comb

    def _more(self, o, s):
        if not isinstance(o, Block):
            return NotImplemented
        if o.part != self.part:
            CTX[-1].claims.true(False, f"rows {self.part} are combined with rows {o.part}")
        return Block(self.part, Row(self.comb)._more(Row(o.comb), s).comb)

    def __add__(self, o):
        return self._more(o, 1)

    def __sub__(self, o):
        return self._more(o, -1)

    def __isub__(self, o):
        raise Unsupported("in-place operation on a view")

    __iadd__ = __isub__


class RowMat:
    """A matrix whose rows are left-linear combinations of the rows v that it had at the start of an iteration."""

    __array_ufunc__ = None
    ndim = 2

    def __init__(self, owner):
        self.owner = owner
        self.reset()

    def reset(self):
        self.rows = {"r": {"v_r": ONE}, "below": {"v_below": ONE}, "above": {"v_above": ONE}}
        self.written = False

    @property
    def shape(self):
        return (Size("m"), Size("n"))

    def length(self):
        return Size("m")

    def part(self, k):
        if isinstance(k, Idx) and k.at("r"):
            return "r"
        if isinstance(k, slice) and k.step is None:
            lo, hi = k.start, k.stop
            end = hi is None or isinstance(hi, Size) and hi == Size("m")
            start = lo is None or isinstance(lo, int) and lo == 0
            if start and isinstance(hi, Idx) and hi.name == "r":
                return "below" if hi.shift == 0 else None if hi.shift < 0 else self._overlap(k)
            if end and isinstance(lo, Idx) and lo.name == "r":
                return "above" if lo.shift == 1 else None if lo.shift > 1 else self._overlap(k)
        raise Unsupported(f"rows {k!r}")

    def _overlap(self, k):
        raise Unsupported(f"a slice of rows that contains the current one")

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if builtins.len(k) == 3 and k[2] is None and isinstance(k[1], Idx):
                p = self.part(k[0])
                if p is None or p == "r":
                    raise Unsupported("column")
                return Column(p, entry(self.rows[p], k[1]))
            if builtins.len(k) == 2 and isinstance(k[0], Idx) and isinstance(k[1], Idx):
                return entry(self.rows[self.part(k[0])], k[1])
            raise Unsupported(f"matrix[{k!r}]")
        p = self.part(k)
        if p == "r":
            return Row(self.rows["r"])
        if p is None:
            raise Unsupported("a part of the rows")
        return Block(p, self.rows[p])

    def __setitem__(self, k, v):
        p = self.part(k)
        if self.owner == "caller":
            CTX[-1].claims.true(False, "the matrix of the caller is modified")
        if p == "r" and isinstance(v, Row) and v.axis is None or p in ("below", "above") and isinstance(v, Block) and v.part == p:
            self.rows[p], self.written = dict(v.comb), True
            return
        if p == "r" and isinstance(v, Row) or isinstance(v, Block) and p != v.part:
            CTX[-1].claims.true(False, f"rows {p} are replaced by others")
        raise Unsupported("assignment of rows")

    def copy(self):
        return RowMat("new")

    def __bool__(self):
        raise Unsupported("truth value of a matrix")


class RowEntries(loops.Loop):
    """for col, entry in enumerate(row_vector)"""

    def enter(self, it, env):
        if not (isinstance(it, builtins.enumerate) or isinstance(it, Enumerated)):
            raise Unsupported("entries of the row")

    def havoc(self, env):
        return {"inverse": None}

    def item(self, env):
        v = env["row_vector"]
        if not (isinstance(v, Row) and v.comb == {"v_r": v.comb.get("v_r")} and v.comb["v_r"].one()):
            raise Unsupported("entries of another row")
        col = Idx("col")
        return col, entry(v.comb, col)

    def back(self, env):
        CTX[-1].claims.true(not env["inverse"], "the search goes on after an invertible entry was found")


class Enumerated:
    def __init__(self, x):
        self.x = x


def sym_enumerate(x, *a):
    return Enumerated(x) if isinstance(x, (Row, RowMat)) and not a else builtins.enumerate(x, *a)


class AnyList:
    """A list of row indices, about which nothing is known."""

    def __bool__(self):
        return decide(id(self), "rows are left")

    def append(self, x):
        pass

    def copy(self):
        return AnyList()


def span_kept(c, m):
    """The rows have the left span that they had (lemma row_step)."""
    r = m.rows["r"]
    c.true(set(r) == {"v_r"} and r["v_r"].unit(), f"row r is a unit times itself: {Row(r)}")
    for p in ("below", "above"):
        row = m.rows[p]
        c.true(set(row) <= {f"v_{p}", "v_r"} and f"v_{p}" in row and row[f"v_{p}"].one(),
               f"another row becomes itself plus a multiple of row r: {Row(row)}")


class Rows(loops.Loop):
    """for row in rows_to_reduce"""

    mutates = loops.ANY

    def enter(self, it, env):
        span_kept(CTX[-1].claims, env["matrix"])

    def havoc(self, env):
        if not set(self.roots) <= {"matrix", "noninvertible_rows"}:
            raise Unsupported(f"modified: {self.roots}")
        env["matrix"].reset()
        return {"row_reductions_made": bool(decide(object(), "reductions were made"))}

    def item(self, env):
        return Idx("r")

    def back(self, env):
        span_kept(CTX[-1].claims, env["matrix"])


class Rounds(loops.Loop):
    """while row_reductions_made and noninvertible_rows"""

    mutates = loops.ANY

    def enter(self, it, env):
        m = env["matrix"]
        CTX[-1].claims.true(isinstance(m, RowMat) and m.owner == "new" and not m.written, "the reduction starts from a copy of the matrix")

    def havoc(self, env):
        if not set(self.roots) <= {"matrix", "noninvertible_rows"}:
            raise Unsupported(f"modified: {self.roots}")
        env["matrix"].reset()
        return {"row_reductions_made": bool(decide(object(), "a round was made")), "noninvertible_rows": AnyList()}

    def back(self, env):
        span_kept(CTX[-1].claims, env["matrix"])


def pivots(h):
    def body(ctx, c, F):
        x = RowMat("caller")
        with loops.cut(R, "_reduce_rows_with_invertible_entries", {0: Rounds(), 1: Rows(), 2: RowEntries()}):
            out = R.__dict__["_reduce_rows_with_invertible_entries"](x)
        c.true(isinstance(out, RowMat) and out.owner == "new", "the reduced copy is returned")
        span_kept(c, out)
    P(h, "row reduction by invertible entries: every iteration keeps the left span",
      "RingArray._reduce_rows_with_invertible_entries", body, min_paths=4,
      extra=dict(enumerate=sym_enumerate, range=lambda *a: AnyRange(a), list=lambda *a: AnyList() if a and isinstance(a[0], AnyRange) else builtins.list(*a)))

    def probe(ctx, c, F):
        x = RowMat("caller")
        m = x.copy()
        m[Idx("r")] = Coef({("c",): 1}) * m[Idx("r")]
        span_kept(c, m)
    P(h, "rows may be multiplied by any member", "RingArray._reduce_rows_with_invertible_entries", probe, expect="fail")
    lemma.check(h, "GroupAlgebra", {"row_step", "inverse_left", "inverse_right"})


class AnyRange:
    def __init__(self, a):
        self.a = a


# ------------------------------------------------------------------ selections of rows
class RowSet:
    """A selection of rows of a matrix: a predicate over the atoms of an arbitrary row."""

    def __init__(self, f):
        self.f = f

    def __invert__(self):
        f = self.f
        return RowSet(lambda s: not f(s))

    def __and__(self, o):
        return RowSet(lambda s, f=self.f, g=o.f: f(s) and g(s))

    def __or__(self, o):
        return RowSet(lambda s, f=self.f, g=o.f: f(s) or g(s))


class PivotMask(RowSet):
    def __init__(self):
        super().__init__(lambda s: s["pivot"])
        self.zero = True

    def __setitem__(self, k, v):
        if not isinstance(k, ColumnRow):
            raise Unsupported("another entry of the mask")
        CTX[-1].mask_set = True  # the row is nonzero: the invariant "pivot rows are nonzero" is kept, whatever v is

    def copy(self):
        raise Unsupported("copy")


class ColumnRow:
    """A row with a nonzero entry in a column."""


class Table:
    """matrix.astype(bool)"""

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] == slice(None) and isinstance(k[1], AnyCol):
            return TableCol()
        raise Unsupported(f"table[{k!r}]")


class TableCol:
    pass


class AnyCol:
    def __getitem__(self, k):
        if k == 0:
            return self
        raise Unsupported("column")


class Counts:
    def __eq__(self, o):
        return ColMask() if isinstance(o, int) and o == 1 else ColMask()

    __hash__ = None

    def __gt__(self, o):
        return ColMask()

    __lt__ = __ge__ = __le__ = __ne__ = __gt__


class ColMask:
    pass


class Found:
    """np.argwhere of a column that has a nonzero entry."""

    def __getitem__(self, k):
        return ColumnRow() if k == (0, 0) else FoundRow() if k == 0 or k == -1 else self._no()

    def _no(self):
        raise Unsupported("argwhere")


class FoundRow:
    def __getitem__(self, k):
        if k == 0:
            return ColumnRow()
        raise Unsupported("argwhere")


class Cols:
    def comprehension(self, *a):
        raise Unsupported("columns")

    def __iter__(self):
        raise Unsupported("columns")


class Pick:
    """Some rows of the matrix."""

    def __init__(self, rows, root):
        self.rows, self.root = rows, root

    def view(self, *a):
        return self

    def __getitem__(self, k):
        if isinstance(k, RowSet):
            return Pick(self.rows & k, self.root)
        if isinstance(k, tuple) and builtins.len(k) == 2 and isinstance(k[0], ColumnRow) and isinstance(k[1], AnyCol):
            return EntryArray()
        raise Unsupported(f"rows[{k!r}]")

    def astype(self, t):
        if t is not bool:
            raise Unsupported("astype")
        return Table()

    def length(self):
        return Size("rows")

    @property
    def shape(self):
        return (Size("rows"), Size("n"))

    @property
    def size(self):
        return decide(("size", id(self)), "rows are left")


class EntryArray:
    def __getitem__(self, k):
        return self

    def inverse(self):
        return "inverse" if decide(object(), "invertible") else None


class SplitNP(NP):
    @staticmethod
    def zeros(shape, dtype=None):
        if isinstance(shape, Size) and dtype is bool:
            return PivotMask()
        raise Unsupported("zeros")

    @staticmethod
    def sum(x, axis=None):
        if isinstance(x, Table) and axis == 0:
            return Counts()
        raise Unsupported("sum")

    count_nonzero = sum

    @staticmethod
    def argwhere(x):
        if isinstance(x, ColMask):
            return Cols()
        if isinstance(x, TableCol):
            return Found()
        raise Unsupported("argwhere")

    @staticmethod
    def any(x, axis=None):
        if isinstance(x, Pick) and axis in (1, -1):
            return RowSet(lambda s: s["nonzero"])
        raise Unsupported("any")

    @staticmethod
    def vstack(xs):
        return Stack(list(xs))


class Stack:
    def __init__(self, parts):
        self.parts = parts

    def view(self, *a):
        return self


class Columns(loops.Loop):
    mutates = ("pivot_rows",)

    def enter(self, it, env):
        if not (isinstance(it, Cols) and isinstance(env["pivot_rows"], PivotMask)):
            raise Unsupported("columns")

    def item(self, env):
        return AnyCol()


STATES = [dict(pivot=p, nonzero=n) for p in (False, True) for n in (False, True) if n or not p]


def split(h):
    def body(ctx, c, F):
        x = Pick(RowSet(lambda s: True), "M")
        kw = {"allow_non_units": False} if ctx.decide("units only") else {}
        with loops.cut(R, "_split_by_pivots", {0: Columns()}):
            out = R.__dict__["_split_by_pivots"](x, **kw)
        c.true(isinstance(out, tuple) and len(out) == 2 and all(isinstance(p, Pick) for p in out), "two selections of rows")
        for s in STATES:
            got = [bool(p.rows.f(s)) for p in out]
            c.true(any(got) or not s["nonzero"], f"a nonzero row is in no part ({s})")
            c.true(not got[0] or s["nonzero"], f"a zero row is in the first part ({s})")
    P(h, "_split_by_pivots: each nonzero row is in one of the parts", "RingArray._split_by_pivots", body, min_paths=2,
      extra=dict(np=SplitNP()))

    def whole(ctx, c, F):
        class Mat(Pick):
            def _reduce_rows_with_invertible_entries(self):
                return Mat(RowSet(lambda s: True), ("reduced", self.root))

            def _split_by_pivots(self, *, allow_non_units=True):
                return Mat(RowSet(lambda s: s["pivot"]), ("pivots", self.root)), Mat(RowSet(lambda s: s["rest"]), ("rest", self.root))

            def _remove_linearly_dependent_rows(self):
                return Mat(RowSet(lambda s: True), ("trimmed", self.root))
        out = R.__dict__["_heuristic_row_reduce"](Mat(RowSet(lambda s: True), "M"))
        c.true(isinstance(out, Stack), "rows are stacked")
        red = ("reduced", "M")
        roots = [p.root for p in out.parts]
        c.true(len(roots) == 2 and ("pivots", red) in roots and (("trimmed", ("rest", red)) in roots or ("rest", red) in roots),
               f"the result has the pivot rows and rows with the span of the others: {roots}")
    P(h, "_heuristic_row_reduce: the parts have the left span of the reduced matrix", "RingArray._heuristic_row_reduce", whole, min_paths=2,
      extra=dict(np=SplitNP()))

    def dispatch(ctx, c, F):
        class Ring:
            is_semisimple = property(lambda s: decide("ss", "semisimple"))

        class Mat:
            ndim = 2
            ring = Ring()

            def _exact_row_reduce(self):
                return R.__dict__["_exact_row_reduce"](self)

            def _heuristic_row_reduce(self):
                return ("reduced", self)
        x = Mat()
        kw = {"force_heuristic": ctx.decide("forced")} if ctx.decide("flag given") else {}

        class Warn:
            @staticmethod
            def warn(*a, **k):
                pass
        try:
            with modules.contextlib.ExitStack():
                out = R.__dict__["row_reduce"](x, **kw)
        except NotImplementedError:
            c.true(kw.get("force_heuristic") is False and ctx.decided["ss"], "only exact reduction over semisimple rings is missing")
            return
        c.true(out[0] == "reduced" and out[1] is x, "the result is the heuristic row reduction")
    P(h, "row_reduce: the result is the heuristic row reduction", "RingArray.row_reduce", dispatch, min_paths=3,
      extra=dict(warnings=_Warnings()))


class _Warnings:
    @staticmethod
    def warn(*a, **k):
        pass


# ------------------------------------------------------------------ dropping dependent rows
class Keep:
    """rows_to_keep: a boolean array over (row, group member); constant along the group."""

    def __init__(self):
        self.r = True  # the current row; the others are described by the invariant
        self.touched = False

    def __setitem__(self, k, v):
        if isinstance(k, Idx) and k.at("r"):
            k = (k, slice(None))
        if isinstance(k, tuple) and builtins.len(k) == 2 and isinstance(k[0], Idx) and k[0].at("r") and k[1] == slice(None) and isinstance(v, bool):
            self.r = v
            return
        raise Unsupported(f"rows_to_keep[{k!r}] = {v!r}")

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return KeepRows(self, "rows", self.r)
        raise Unsupported(f"rows_to_keep[{k!r}]")

    def ravel(self):
        return KeepRows(self, "rows x group", self.r)

    flatten = ravel

    def any(self, axis=None):
        if axis in (1, -1):
            return KeepRows(self, "rows", self.r)
        raise Unsupported("any")

    all = any


class KeepRows:
    def __init__(self, mask, kind, r):
        self.mask, self.kind, self.r = mask, kind, r


class NonzeroRows:
    def __init__(self, arr):
        self.arr = arr


class FieldArr(Arr):
    """Arrays over the field, with the operations that dropping rows uses."""

    def _keep(self, a):
        return FieldArr(a.axes, a.entry, a.cls)

    def reshape(self, *s):
        return self._keep(Arr.reshape(self, *s))

    def view(self, cls=None):
        return self._keep(Arr.view(self, cls))

    def row_reduce(self):
        if builtins.len(self.axes) != 2:
            raise Unsupported("row_reduce")
        return FieldArr([[Axis("t", "rows of the rref")], self.axes[1]], ("rref", modules.canonical(self.entry, [x.index for x in self.atoms()]), "t", *(x.index for x in self.axes[1])))

    def __getitem__(self, k):
        if isinstance(k, NonzeroRows):
            if k.arr is not self:
                raise Unsupported("a mask of other rows")
            return FieldArr([[Axis(self.axes[0][0].index, "rank")], *self.axes[1:]], self.entry)
        if isinstance(k, KeepRows):
            want = "rows" if builtins.len(self.axes[0]) == 1 else "rows x group"
            if want != k.kind or self.axes[0][0].size != "rank" or builtins.len(self.axes[0]) == 2 and self.axes[0][1].size != G:
                CTX[-1].claims.true(False, f"a mask for {k.kind} selects from rows {self.axes[0]}")
            return Kept(self, k)
        if isinstance(k, Idx):
            if not (builtins.len(self.axes[0]) == 1 and self.axes[0][0].size == "rank"):
                CTX[-1].claims.true(False, f"one row of {self.axes}")
            return OneRow(self, k)
        raise Unsupported(f"array[{k!r}]")

    def regular_lift(self):
        (i,), (j,) = self.axes
        return FieldArr([[i, Axis("a", G)], [j, Axis("b", G)]], ("lifted", "regular", self.entry, "a", "b"))

    def lift(self):
        (i,), (j,) = self.axes
        return FieldArr([[i, Axis("a", "lift_dim")], [j, Axis("b", "lift_dim")]], ("lifted", "lift", self.entry, "a", "b"))

    def __invert__(self):
        return self._keep(Arr.__invert__(self))

    def to_field_array(self):
        g = f"g{next(CTX[-1].fresh)}"
        return FieldArr([*self.axes, [Axis(g, G)]], ("coef", self.entry, g))


class Kept:
    """The rows of an array that a mask selects."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def view(self, *a):
        return self


class OneRow:
    def __init__(self, arr, row):
        self.arr, self.row = arr, row

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] is None:
            return self
        raise Unsupported("row")


class System:
    def __init__(self, lhs, rhs, transposed=False):
        self.lhs, self.rhs, self.transposed = lhs, rhs, transposed

    @property
    def T(self):
        return System(self.lhs, self.rhs, not self.transposed)

    def transpose(self):
        return self.T

    def view(self, *a):
        return self

    def row_reduce(self):
        if not self.transposed:
            CTX[-1].claims.true(False, "the rows of the system are reduced, and not its columns")
        return Reduced(self)


class Reduced:
    def __init__(self, system):
        self.system = system

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2:
            rows, cols = k
            if rows == slice(None) and cols == -1:
                return LastCol(self)
            if isinstance(rows, BadRow) and isinstance(cols, slice) and (cols.start, cols.stop, cols.step) == (None, -1, None):
                return Coefs(self)
        raise Unsupported(f"rref[{k!r}]")


class LastCol:
    def __init__(self, red):
        self.red = red


class LastRows:
    def __init__(self, red):
        self.red = red

    def __iter__(self):
        raise Unsupported("rows")


class BadRow:
    """A row of the rref whose last entry is not zero."""


class Coefs:
    def __init__(self, red):
        self.red = red


class TrimNP(NP):
    @staticmethod
    def any(x, axis=None):
        if isinstance(x, FieldArr) and axis in (1, -1):
            return NonzeroRows(x)
        if isinstance(x, Coefs) and axis is None:
            return decide(id(x), "the row has other nonzero entries")
        raise Unsupported("any")

    @staticmethod
    def ones(shape, dtype=None):
        if isinstance(shape, tuple) and builtins.len(shape) == 2 and shape[0] == Size("rank") and shape[1] == ORDER and dtype is bool:
            return Keep()
        raise Unsupported("ones")

    @staticmethod
    def vstack(xs):
        xs = list(xs)
        if builtins.len(xs) == 2 and isinstance(xs[0], Kept) and isinstance(xs[1], OneRow):
            return System(xs[0], xs[1])
        raise Unsupported("vstack")

    @staticmethod
    def argwhere(x):
        if isinstance(x, LastCol):
            return LastRows(x.red)
        raise Unsupported("argwhere")


class TrimRows(loops.Loop):
    """for row in ...: the left span of the kept rows is that of all rows"""

    mutates = ("rows_to_keep",)

    def enter(self, it, env):
        if not isinstance(it, AnyRange):
            raise Unsupported("the loop is not over a range of rows")

    def havoc(self, env):
        env["rows_to_keep"].r = True
        return {}

    def item(self, env):
        env["rows_to_keep"].r = bool(CTX[-1].decide("the row is still kept"))
        CTX[-1].kept_before = env["rows_to_keep"].r
        return Idx("r")

    def back(self, env):
        ctx, c, mask = CTX[-1], CTX[-1].claims, env["rows_to_keep"]
        if mask.r or not ctx.kept_before:
            c.true(True, "nothing is dropped")
            return
        s = getattr(ctx, "no_contradiction", None)
        c.true(s is not None, "a row is dropped only after its system was found to be solvable")
        c.true(s.lhs.mask.r is False, "the system has the rows that stay, without the dropped one")
        c.true(s.rhs.row.at("r"), "the right-hand side is the row that is dropped")
        lhs, rhs = s.lhs.arr, s.rhs.arr
        e = RINGMATRIX[0]
        same(c, lhs, [[("i", "rank"), ("a", G)], [("j", "n"), ("b", G)]], ("lifted", "regular", e, "a", "b"), "left-hand side")
        same(c, rhs, [[("i", "rank")], [("j", "n"), ("b", G)]], ("coef", ("tr", e), "b"), "right-hand side")


RINGMATRIX = [None]


class Contradiction(loops.Loop):
    """for row_rref in np.argwhere(linear_system_rref[:, -1])"""

    mutates = ("rows_to_keep",)

    def enter(self, it, env):
        if not isinstance(it, LastRows):
            raise Unsupported("rows with a nonzero last entry")
        self.it = it

    def havoc(self, env):
        return {}

    def item(self, env):
        self.row = BadRow()
        self.n = builtins.len(CTX[-1].__dict__.setdefault("decided", {}))
        return self.row

    def back(self, env):
        new = list(CTX[-1].decided.values())[self.n:]
        CTX[-1].claims.true(len(new) == 1 and new[0] is True, "the search passes over a contradiction in the system")

    def done(self, env):
        CTX[-1].no_contradiction = self.it.red.system


def sym_range(*a):
    return AnyRange(a)


def trim(h):
    class RA(metaclass=_RA):
        @staticmethod
        def from_field_array(r, x):
            out = modules.abstract_from_field_array(r, x)
            return FieldArr(out.axes, out.entry, "RingArray")

    class Fake(FakeArray):
        field = property(lambda self: "field")

        def to_field_array(self):
            return FieldArr([[Axis("i", "m")], [Axis("j", "n")], [Axis("g", G)]], ("coef", ("M", "i", "j"), "g"))

        def copy(self):
            raise Unsupported("copy")

    def body(ctx, c, F):
        x = Fake([[Axis("i", "m")], [Axis("j", "n")]], ("M", "i", "j"))
        rref = ("rref", modules.canonical(("coef", ("M", "i", "j"), "g"), ["i", "j", "g"]), "i", "j", "g")
        RINGMATRIX[0] = ("element", rref, "g")
        with loops.cut(R, "_remove_linearly_dependent_rows", {0: TrimRows(), 1: Contradiction()}):
            out = R.__dict__["_remove_linearly_dependent_rows"](x)
        c.true(isinstance(out, Kept) and out.mask.kind == "rows", f"kept rows: {out!r}")
        same(c, out.arr, [[("i", "rank")], [("j", "n")]], RINGMATRIX[0], "rows")
    P(h, "_remove_linearly_dependent_rows: a row is dropped only if it is a left-linear combination of the rows that stay",
      "RingArray._remove_linearly_dependent_rows", body, min_paths=5, extra=dict(np=TrimNP(), RingArray=RA, range=sym_range, len=trim_len))
    lemma.check(h, "GroupAlgebra", {"lift_row", "in_left_span", "consistent", "removed_row", "field_span"})


def trim_len(x):
    r = sym_len(x)
    if isinstance(r, Size) and not isinstance(r, Count):
        return Count(*r.atoms)
    return r


class Count(Size):
    def __sub__(self, k):
        return Idx("len", -k)

    __add__ = __sub__


# ------------------------------------------------------------------ inverses
class Terms:
    """_vec.items(), with the number of terms that are not zero decided."""

    def items(self):
        return self

    def dict_comprehension(self, cond, key, value):
        g, x = Letter("g"), Letter("x_g")
        x.truth = False
        if cond(g, x):
            CTX[-1].claims.true(False, "terms that are zero are kept")
        x.truth = True
        if not cond(g, x):
            CTX[-1].claims.true(False, "terms that are not zero are dropped")
        if key(g, x) is not g or value(g, x) is not x:
            raise Unsupported("other terms")
        return TermDict(g, x)


class Letter:
    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return self.truth

    def __pow__(self, k):
        return (self.name, k)

    def __invert__(self):
        return (self.name, -1)


class TermDict:
    def __init__(self, g, x):
        self.g, self.x = g, x

    def length(self):
        if not decide("some", "there are terms"):
            return 0
        return 1 if decide("single", "there is one term") else 2 + 0 * self.many()

    def many(self):
        CTX[-1].many = True
        return 0

    def __bool__(self):
        return self.length() > 0

    def items(self):
        if self.length() == 1:
            return [(self.g, self.x)]
        raise Unsupported("all terms")

    def __iter__(self):
        if self.length() == 1:
            return iter([self.g])
        raise Unsupported("all terms")

    def __getitem__(self, k):
        return self.x if k is self.g else self._no()

    def _no(self):
        raise Unsupported("terms")


class InvNP(NP):
    class linalg:
        LinAlgError = numpy.linalg.LinAlgError

        @staticmethod
        def inv(m):
            if not isinstance(m, MatrixOf):
                raise Unsupported("inverse")
            if decide("singular", "the matrix is singular"):
                raise numpy.linalg.LinAlgError
            return InverseOf(m)


class MatrixOf:
    def __init__(self, kind):
        self.kind = kind

    def view(self, *a):
        return self


class InverseOf:
    def __init__(self, m):
        self.m = m

    def view(self, *a):
        return self

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] == slice(None):
            return ("column", self.m.kind, k[1])
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[1] == slice(None):
            return ("row", self.m.kind, k[0])
        raise Unsupported("entries of the inverse")


class Recorded:
    """RingMember as a constructor."""

    def __new__(cls, ring, *terms):
        return ("terms", ring, terms)

    @staticmethod
    def from_vector(ring, vec):
        return ("vector", ring, vec)


RM = abstract.RingMember


def inverses(h):
    def body(ctx, c, F):
        class Grp:
            identity = "identity"

            @staticmethod
            def index(x):
                return ("index", x)

        class Me:
            _vec = Terms()
            ring, group, field = "ring", Grp(), "field"

            def regular_lift(self):
                return MatrixOf("regular")

            def lift(self):
                return MatrixOf("lift")
        with loops.cut(RM, "inverse", {}) as inverse:
            out = inverse(Me())
        d = ctx.decided
        if not d["some"]:
            c.true(out is None, "zero has no inverse")
        elif d["single"] and "singular" not in d:
            c.true(out == ("terms", "ring", ((("x_g", -1), ("g", -1)),)), f"inverse of a single term: {out}")
        elif d["singular"]:
            c.true(out is None, "an element with a singular regular lift has no inverse")
        else:
            c.true(out == ("vector", "ring", ("column", "regular", ("index", "identity"))),
                   f"the inverse has the column of the identity of the inverse matrix: {out}")
    P(h, "RingMember.inverse: None exactly if there is none, the inverse otherwise", "RingMember.inverse", body, min_paths=4,
      extra=dict(np=InvNP(), RingMember=Recorded))
    lemma.check(h, "GroupAlgebra", {"inverse_right", "inverse_left", "no_inverse", "inverse_term", "lift_one"})
