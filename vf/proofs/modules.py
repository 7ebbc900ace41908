"""C12 (and the arrays of C10): matrices over group algebras, over every group and field, of every shape.

An array is described by its axes (lists of atomic axes) and by a term for its generic entry. The left span of the rows of a
matrix is tracked through its row operations; that the terms mean what the properties say is proved in vf/lemmas/GroupAlgebra.lean.
"""
from __future__ import annotations

import builtins
import contextlib

from vf import lemma
from qldpc import abstract

from ..sym import loops
from ..sym.mat import CTX, PathEnd, Unsupported
from ..sym.prove import prove

TRUSTED = [
    "numpy: reshape keeps the order of entries, np.block puts blocks side by side, np.array stacks, boolean masks select rows, np.any / np.argwhere",
    "galois: null_space() is a basis of the kernel; row_reduce() is a reduced row echelon form with the same row span; np.linalg.inv raises LinAlgError exactly for singular matrices",
]
A = "qldpc.abstract."
MODS = [abstract]


# ------------------------------------------------------------------ arrays
class Size:
    """A product of atomic sizes."""

    def __init__(self, *atoms):
        self.atoms = tuple(atoms)

    def __mul__(self, o):
        if isinstance(o, Size):
            return Size(*self.atoms, *o.atoms)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, Size):
            return sorted(self.atoms) == sorted(o.atoms)
        raise Unsupported("comparison of a size with a number")

    def __mod__(self, o):
        if isinstance(o, Size):
            rest = list(self.atoms)
            if all(a in rest and not rest.remove(a) for a in o.atoms):
                return 0
        raise Unsupported("remainder of a size")

    __floordiv__ = __bool__ = __index__ = __mod__
    __hash__ = None

    def __repr__(self):
        return "*".join(self.atoms) or "1"


G = "|G|"
ORDER = Size(G)


class Axis:
    """An atomic axis: its index has a name."""

    def __init__(self, index, size):
        self.index, self.size = index, size

    def __eq__(self, o):
        return isinstance(o, Axis) and (self.index, self.size) == (o.index, o.size)

    __hash__ = None

    def __repr__(self):
        return f"{self.index}<{self.size}"


def rename(term, old, new):
    if term == old:
        return new
    return tuple(rename(t, old, new) for t in term) if isinstance(term, tuple) else term


class Arr:
    """axes: tuple of tuples of atomic axes; entry: term over the names of their indices."""

    __array_ufunc__ = None

    def __init__(self, axes, entry, cls=None):
        self.axes, self.entry, self.cls = tuple(tuple(a) for a in axes), entry, cls

    @property
    def shape(self):
        return tuple(Size(*(x.size for x in a)) for a in self.axes)

    ndim = property(lambda self: builtins.len(self.axes))

    @property
    def size(self):
        return Nonempty(self)

    def atoms(self):
        return [x for a in self.axes for x in a]

    def reshape(self, *shape):
        if builtins.len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        atoms, out, todo = self.atoms(), [], list(shape)
        wild = [i for i, s in enumerate(todo) if not isinstance(s, Size)]
        if any(todo[i] != -1 for i in wild) or builtins.len(wild) > 1:
            raise Unsupported(f"shape {shape}")
        known = sum(builtins.len(s.atoms) for s in todo if isinstance(s, Size))
        for s in todo:
            k = builtins.len(s.atoms) if isinstance(s, Size) else builtins.len(atoms) - known
            take, rest = atoms[:sum(map(builtins.len, out)) + k][sum(map(builtins.len, out)):], None
            if isinstance(s, Size) and not Size(*(x.size for x in take)) == s:
                CTX[-1].claims.true(False, f"entries of an array with axes {self.axes} are regrouped to the shape {shape}")
            out.append(take)
        if sum(map(builtins.len, out)) != builtins.len(atoms):
            CTX[-1].claims.true(False, f"an array with axes {self.axes} is reshaped to {shape}")
        return Arr(out, self.entry, self.cls)

    def ravel(self):
        return Arr([self.atoms()], self.entry, self.cls)

    flatten = ravel

    def view(self, cls=None):
        return Arr(self.axes, self.entry, cls)

    def __len__(self):
        raise Unsupported("len of a symbolic array")

    def length(self):
        return self.shape[0]

    def comprehension(self, cond, elt):
        first, rest = self.axes[0], self.axes[1:]
        if cond(None) is not True:
            raise Unsupported("a condition on entries")
        item = Arr(rest, self.entry) if rest else RingEntry(self.entry)
        return Generic(first, elt(item))

    def __iter__(self):
        raise Unsupported("iteration over an array")

    def __invert__(self):
        return Arr(self.axes, ("tr", self.entry), self.cls)

    def transpose(self, *a):
        if a or self.ndim != 2:
            raise Unsupported("transpose")
        return Arr(self.axes[::-1], self.entry, self.cls)

    def __repr__(self):
        return f"{self.entry} for {self.axes}"


class Nonempty:
    def __init__(self, arr):
        self.arr = arr

    def __bool__(self):
        d = CTX[-1].__dict__.setdefault("nonempty", {})
        k = repr(self.arr.axes)
        if k not in d:
            d[k] = CTX[-1].decide("the array has entries")
        return d[k]

    def __eq__(self, o):
        if o == 0:
            return not bool(self)
        raise Unsupported("size")

    def __gt__(self, o):
        if o == 0:
            return bool(self)
        raise Unsupported("size")

    def __mod__(self, o):
        return Size(*(x.size for x in self.arr.atoms())) % o

    __hash__ = None


class RingEntry:
    """A member of the ring: term."""

    def __init__(self, term):
        self.term = term

    @property
    def T(self):
        return RingEntry(("tr", self.term))

    def to_vector(self):
        g = f"g{next(CTX[-1].fresh)}"
        return Arr([[Axis(g, G)]], ("coef", self.term, g))

    def _lift(self, kind):
        a, b = (f"g{next(CTX[-1].fresh)}" for _ in range(2))
        s = G if kind == "regular" else "lift_dim"
        return Arr([[Axis(a, s)], [Axis(b, s)]], ("lifted", kind, self.term, a, b))

    def regular_lift(self):
        return self._lift("regular")

    def lift(self):
        return self._lift("lift")


class Generic:
    """A list with one item for each index of an axis."""

    def __init__(self, axis, item):
        self.axis, self.item = axis, item


def stacked(x):
    """np.array of (nested) generic lists."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, Generic):
        inner = stacked(x.item)
        return Arr([x.axis, *inner.axes], inner.entry, inner.cls)
    if isinstance(x, RingEntry):
        return Arr([], x.term)
    raise Unsupported(f"array of {type(x).__name__}")


class Zeros:
    def __init__(self, shape):
        self.shape = tuple(shape)

    def view(self, *a):
        return self


class Field:
    def Zeros(self, shape):
        return Zeros(shape)

    def __call__(self, x):
        return stacked(x)


class NP:
    """numpy, on arrays that are described by a generic entry."""

    def __getattr__(self, k):
        import numpy
        v = getattr(numpy, k)
        if isinstance(v, type) or k in ("linalg", "ndarray", "newaxis"):
            return v
        return lambda *a, **kw: self._any(k, v, a, kw)

    def _any(self, k, v, a, kw):
        if any(isinstance(x, (Arr, Generic, RingEntry, Mask, Rows)) for x in a):
            raise Unsupported(f"np.{k}")
        return v(*a, **kw)

    @staticmethod
    def block(x):
        if not (isinstance(x, Generic) and isinstance(x.item, Generic) and isinstance(x.item.item, Arr) and x.item.item.ndim == 2):
            raise Unsupported("np.block of something else")
        b = x.item.item
        return Arr([list(x.axis) + list(b.axes[0]), list(x.item.axis) + list(b.axes[1])], b.entry)

    @staticmethod
    def array(x, dtype=None, **k):
        return stacked(x)

    asarray = asanyarray = array

    @staticmethod
    def stack(x, axis=0):
        if axis != 0:
            raise Unsupported("np.stack")
        return stacked(x)

    @staticmethod
    def prod(x):
        x = list(x)
        out = x[0]
        for y in x[1:]:
            out = out * y
        return out


def ring(field=None):
    r = object.__new__(abstract.GroupRing)
    r._group, r._field = FakeGroup(), field or Field()
    return r


class FakeGroup(abstract.Group):
    def __init__(self):
        pass

    order = property(lambda self: ORDER)
    lift_dim = property(lambda self: Size("lift_dim"))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class FakeArray:
    """A RingArray with generic entries: the methods under test are run on it."""

    def __init__(self, axes, entry="M"):
        self.arr = Arr(axes, entry)
        self.ring = ring()

    field = property(lambda self: self.ring.field)
    group = property(lambda self: self.ring.group)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.arr, k)

    def __invert__(self):
        return ~self.arr


def matrix(entry=("M", "i", "j")):
    return FakeArray([[Axis("i", "m")], [Axis("j", "n")]], entry)


def sym_len(x):
    if hasattr(x, "length"):
        return x.length()
    return builtins.len(x)


class _RA(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (FakeArray, Arr))

    def __call__(cls, data, ring=None):
        return Arr(stacked(data).axes, stacked(data).entry, "RingArray")

    @staticmethod
    def from_field_array(r, x):
        return abstract_from_field_array(r, x)


class SymRingArray(metaclass=_RA):
    pass


def abstract_from_field_array(r, x):
    """Contract of RingArray.from_field_array (proved below): the last axis becomes the coefficients of a member."""
    last = x.axes[-1]
    if builtins.len(last) != 1 or last[0].size != G:
        CTX[-1].claims.true(False, f"the last axis {last} of the coefficients is not the group")
    return Arr(x.axes[:-1], ("element", x.entry, last[0].index), "RingArray")


def simplify(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(simplify(x) for x in t)
    if t[0] == "tr" and isinstance(t[1], tuple) and t[1][0] == "tr":
        return t[1][1]
    if t[0] == "element" and isinstance(t[1], tuple) and t[1][0] == "coef" and t[1][2] == t[2]:
        return t[1][1]
    if t[0] == "coef" and isinstance(t[1], tuple) and t[1][0] == "element":
        return simplify(rename(t[1][1], t[1][2], t[2]))
    return t


def canonical(t, bound):
    """Names of indices by position, so that terms can be compared."""
    for i, n in enumerate(bound):
        t = rename(t, n, f"#{i}")
    return simplify(t)


def same(c, arr, axes, entry, what):
    """The array has these axes (as sizes) and this generic entry (over the names given in axes)."""
    c.true(isinstance(arr, Arr), f"{what}: an array")
    got = [[x.size for x in a] for a in arr.axes]
    want = [[s for _, s in a] for a in axes]
    c.true(got == want, f"{what}: axes {arr.axes}, and not {axes}")
    a = canonical(arr.entry, [x.index for x in arr.atoms()])
    b = canonical(entry, [n for a_ in axes for n, _ in a_])
    c.true(a == b, f"{what}: entries {a}, and not {b}")


# ------------------------------------------------------------------ proofs about arrays
EXTRA = dict(np=NP(), RingArray=SymRingArray, len=sym_len)
R = abstract.RingArray


def arrays(h):
    P = lambda name, target, body, **k: prove(h, name, A + target, body, MODS, plain=True, **{**EXTRA, **k.pop("extra", {})}, **k)

    def lift(kind):
        def body(ctx, c, F):
            x = matrix()
            name = "regular_lift" if kind == "regular" else "lift"
            with loops.cut(R, name, {}):
                out = R.__dict__[name](x)
            s = G if kind == "regular" else "lift_dim"
            if isinstance(out, Zeros):
                c.true(not ctx.nonempty[repr(x.arr.axes)], "only matrices without entries are replaced by zeros")
                c.true(builtins.len(out.shape) == 2 and out.shape[0] == Size("m", s) and out.shape[1] == Size("n", s), f"shape {out.shape}")
                return
            same(c, out, [[("i", "m"), ("a", s)], [("j", "n"), ("b", s)]], ("lifted", kind, ("M", "i", "j"), "a", "b"), "blocks")
        return body
    P("regular_lift: blocks are the regular lifts of the entries", "RingArray.regular_lift", lift("regular"))
    P("lift: blocks are the lifts of the entries", "RingArray.lift", lift("lift"))

    def invert(ctx, c, F):
        x = matrix()
        with loops.cut(R, "__invert__", {}):
            out = R.__dict__["__invert__"](x)
        same(c, out, [[("i", "m")], [("j", "n")]], ("tr", ("M", "i", "j")), "~M")
    P("~M: entries are transposed, in place", "RingArray.__invert__", invert)

    def transpose(ctx, c, F):
        out = R.__dict__["T"].fget(matrix())
        same(c, out, [[("j", "n")], [("i", "m")]], ("tr", ("M", "i", "j")), "M.T")
    P("M.T: the transpose with transposed entries", "RingArray.T", transpose)

    def from_vector(r, vec):
        if not (isinstance(vec, Arr) and vec.ndim == 1 and builtins.len(vec.axes[0]) == 1 and vec.axes[0][0].size == G):
            CTX[-1].claims.true(False, f"coefficients of one member: {vec!r}")
        return RingEntry(("element", vec.entry, vec.axes[0][0].index))

    class Member:
        pass
    Member.from_vector = staticmethod(from_vector)

    def from_field(ctx, c, F):
        r = ring()
        x = Arr([[Axis("i", "m")], [Axis("j", "n")], [Axis("g", G)]], ("X", "i", "j", "g"))
        with loops.cut(R, "from_field_array", {}):
            out = R.__dict__["from_field_array"].__func__(SymRingArray, r, x)
        same(c, out, [[("i", "m")], [("j", "n")]], ("element", ("X", "i", "j", "g"), "g"), "from_field_array")
    P("from_field_array: entry (i, j) has the coefficients X[i, j, :]", "RingArray.from_field_array", from_field, extra=dict(RingMember=Member))

    def to_field(ctx, c, F):
        x = matrix()
        with loops.cut(R, "to_field_array", {}):
            out = R.__dict__["to_field_array"](x)
        same(c, out, [[("i", "m")], [("j", "n")], [("g", G)]], ("coef", ("M", "i", "j"), "g"), "to_field_array")
        back = abstract_from_field_array(x.ring, out)
        same(c, back, [[("i", "m")], [("j", "n")]], ("M", "i", "j"), "from_field_array(to_field_array(M))")
    P("to_field_array: X[i, j, :] are the coefficients of entry (i, j); inverse of from_field_array", "RingArray.to_field_array", to_field)

    def vectors(ctx, c, F):
        r = ring()
        v = Arr([[Axis("j", "n"), Axis("g", G)]], ("X", "j", "g"))
        out = R.__dict__["from_field_vector"].__func__(SymRingArray, r, v)
        same(c, out, [[("j", "n")]], ("element", ("X", "j", "g"), "g"), "from_field_vector")
        x = FakeArray([[Axis("j", "n")]], ("v", "j"))
        with loops.cut(R, "to_field_vector", {}):
            out = R.__dict__["to_field_vector"](x)
        same(c, out, [[("j", "n"), ("g", G)]], ("coef", ("v", "j"), "g"), "to_field_vector")
    P("from_field_vector and to_field_vector", "RingArray.to_field_vector", vectors)

    def probe(ctx, c, F):
        out = R.__dict__["T"].fget(matrix())
        same(c, out, [[("j", "n")], [("i", "m")]], ("M", "i", "j"), "M.T")
    P("the transpose keeps entries", "RingArray.T", probe, expect="fail")
    lemma.check(h, "GroupAlgebra", {"lift_reg_mulVec", "lift_reg_apply"})
