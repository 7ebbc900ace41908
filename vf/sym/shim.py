"""Run live functions of /repo on symbolic matrices.

The globals np, galois, scipy, len, range, ... of the modules of /repo are replaced, for the duration of a proof, by
versions that understand SymArr and that behave as before on everything else. What they assume about numpy, scipy and
galois is written out in this file and listed in the evidence as trusted.
"""
from __future__ import annotations

import builtins
import contextlib
import operator
import sys

import numpy
import scipy.linalg
import galois as _galois

from . import mat, scalar
from .mat import CTX, Axis, Context, Dim, PathEnd, Perm, Sel, SymArr, Unsupported

TRUSTED = [
    "numpy: kron, eye, zeros, zeros_like, block, hstack, vstack, array_equal, any, asarray, transpose, reshape, indexing by slices act on blocks as documented (vf/sym/shim.py, vf/sym/mat.py)",
    "scipy.linalg.block_diag puts its arguments on the diagonal",
    "galois: field arithmetic is that of the field; null_space() returns a basis (in row-reduced form) of the vectors that a matrix annihilates; row_reduce() returns the reduced row echelon form",
]


class Order:
    """The order of a field that is not F_2."""

    def __eq__(self, o):
        if isinstance(o, Order):
            return self is o
        if o == 2:
            return False
        raise Unsupported("the order of the field is inspected")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


class SymField(SymArr):
    order = Order()
    characteristic = None
    degree = None

    @classmethod
    def Zeros(cls, shape, dtype=None):
        r, c = (mat.segments(x) for x in shape)
        sp = CTX[-1].splits
        return mat.zeros(cls, sp.get(r, r), sp.get(c, c))

    @classmethod
    def Identity(cls, n, dtype=None):
        return mat.identity(cls, mat.segments(n))

    def __new__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymArr):
            return a[0].view(cls)
        return object.__new__(cls)

    def __init__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymArr):
            return
        SymArr.__init__(self, *a, **k)

    def null_space(self):
        return null_space(self)

    def row_reduce(self, **k):
        return row_reduce(self)


class SymField2(SymField):
    order = 2
    characteristic = 2
    degree = 1


for _c in (SymField, SymField2):
    _galois.FieldArray.register(_c)


def _key(a):
    return (tuple(a.axes[0].segs), tuple(a.axes[1].segs),
            tuple(sorted((k, tuple(sorted(CTX[-1].normal(b).items()))) for k, b in a.cells.items())))


def memo(name, a):
    store = CTX[-1].__dict__.setdefault("memo", {})
    return store.setdefault(name, {}), _key(a)


def null_space(a):
    """Contract: rows form a basis, in reduced row echelon form, of { v : a @ v = 0 }."""
    a._field_op()
    a = a.flat2d()
    store, key = memo("null", a)
    if key not in store:
        ctx = CTX[-1]
        i = next(ctx.fresh)
        dim = f"nul{i}"
        segs = a.axes[1].segs
        new = mat.matrix(type(a), [dim], segs, {(0, j): f"N{i}_{j}" for j in range(len(segs))}) \
            if all(len(s) == 1 for s in segs) else None
        if new is None:  # over a tensor product axis: only what it is the null space of is known
            new = mat.matrix(type(a), [dim], segs, {(0, j): f"N{i}_{j}" for j in range(len(segs))})
            for key_, b in list(new.cells.items()):
                new.cells[key_] = {((((f"N{i}_{key_[1]}", False),),)): 1}
            ctx.facts.append(("basis of kernel", new, a))
            store[key] = new
            return new.copy()
        assume_zero(a @ new.T)
        ctx.facts.append(("basis of kernel", new, a))
        ctx.__dict__.setdefault("rref", []).append(new)
        store[key] = new
    return store[key].copy()


def factor(v, basis):
    """v = K @ basis for some K, if the rows of basis span the kernel of a matrix that annihilates the rows of v."""
    for f in CTX[-1].facts:
        if f[0] == "basis of kernel" and f[1].axes == basis.axes and is_zero(f[1] - basis):
            if is_zero(f[2] @ v.T):
                i = next(CTX[-1].fresh)
                rows = v.axes[0].segs
                if any(builtins.len(s) != 1 for s in rows):
                    raise Unsupported("factor")
                k = mat.matrix(type(v), rows, basis.axes[0].segs, {(j, 0): f"K{i}_{j}" for j in builtins.range(builtins.len(rows))})
                return k, k @ basis
    return None


def row_reduce(a):
    """Contract: U @ a for an invertible U, in reduced row echelon form (zero rows last)."""
    a._field_op()
    a = a.flat2d()
    store, key = memo("rref", a)
    if key not in store and a.axes[1].segs and a.axes[1].segs[0] == ("1",) and \
            any(f[0] == "nonzero" and same(f[1], a[:, Sel(0)].T) for f in CTX[-1].facts):
        store[key] = _row_reduce_pivot(a)
        return store[key].copy()
    if key not in store:
        ctx = CTX[-1]
        if len(a.axes[0].segs) != 1 or len(a.axes[0].segs[0]) != 1:
            raise Unsupported("row reduction of a matrix with several row segments")
        for r in ctx.__dict__.get("rref", []):
            if r.axes == a.axes and all(ctx.is_zero(b) for b in (r - a).cells.values()):
                return a.copy()  # already reduced: the form is unique
        i = next(ctx.fresh)
        seg = a.axes[0].segs
        u = mat.matrix(type(a), seg, seg, {(0, 0): f"U{i}"})
        v = mat.matrix(type(a), seg, seg, {(0, 0): f"Uinv{i}"})
        one = mat.identity(type(a), seg)
        assume_zero(u @ v - one)
        assume_zero(v @ u - one)
        new = u @ a
        ctx.__dict__.setdefault("rref", []).append(new)
        ctx.facts.append(("row reduced", new, a, v))
        store[key] = new
    return store[key].copy()


def _row_reduce_pivot(a):
    """Row reduction of a matrix whose first column is not zero: that column becomes (1, 0, ..., 0)."""
    ctx = CTX[-1]
    if len(a.axes[0].segs) != 1 or len(a.axes[0].segs[0]) != 1:
        raise Unsupported("row reduction of a matrix with several row segments")
    i = next(ctx.fresh)
    (k,), = a.axes[0].segs
    rest = f"{k}'"
    ctx.sizes[k] = Dim.of(rest) + 1
    F = type(a)
    u = mat.matrix(F, ["1", rest], [k], {(0, 0): f"U{i}_0", (1, 0): f"U{i}_1"})
    v = mat.matrix(F, [k], ["1", rest], {(0, 0): f"V{i}_0", (0, 1): f"V{i}_1"})
    first = a[:, Sel(0)]
    assume_zero(first - v[:, Sel(0)])  # a = v @ (u @ a), and the first column of u @ a is (1, 0)
    assume_zero(u @ v - mat.identity(F, [("1",), (rest,)]))
    assume_zero(v @ u - mat.identity(F, [(k,)]))
    ctx.facts.append(("row reduced with pivot", u, v, a))
    return u @ a


def inverse(a):
    a._field_op()
    a = a.flat2d()
    if a.axes[0].segs != a.axes[1].segs or len(a.axes[0].segs) != 1:
        raise Unsupported("inverse")
    store, key = memo("inv", a)
    if key not in store:
        i = next(CTX[-1].fresh)
        seg = a.axes[0].segs
        new = mat.matrix(type(a), seg, seg, {(0, 0): f"Inv{i}"})
        one = mat.identity(type(a), seg)
        assume_zero(a @ new - one)
        assume_zero(new @ a - one)
        store[key] = new
    return store[key].copy()


def assume_zero(arr):
    for b in arr.cells.values():
        CTX[-1].assume_zero(b)


def is_zero(arr):
    return CTX[-1].holds_zero(arr)


def same(a, b):
    """Equal matrices (a vector counts as a matrix with one row)."""
    a, b = a.as_row() if a.is_vec else a, b.as_row() if b.is_vec else b
    return a.axes == b.axes and is_zero(a.view(FIELD[0]) - b.view(FIELD[0]))


def any_nonzero(arr):
    if is_zero(arr):
        return False
    ctx = CTX[-1]
    key = ("any", arr.__repr__())
    known = ctx.__dict__.setdefault("known_any", {})
    if key not in known:
        known[key] = ctx.decide("a matrix is nonzero")
        if not known[key]:
            assume_zero(arr)
        else:
            ctx.facts.append(("nonzero", arr))
    return known[key]


class Pivots:
    """first_nonzero_cols of a reduced matrix of full row rank."""

    def __init__(self, arr):
        self.arr = arr


class SymRange:
    def __init__(self, n, start=0, step=1):
        self.n, self.start, self.step = n, start, step

    def __iter__(self):
        if self.start != 0 or self.step != 1 or not isinstance(self.n, Dim):
            raise Unsupported("iteration over a symbolic range")
        if sys._getframe(1).f_code.co_name == "<genexpr>":  # the variable of a generator expression, which must be
            return iter([mat.GenericIndex(self.n)])  # consumed by something that knows GenericElement
        raise Unsupported("iteration over a symbolic range")


class GenericPos:
    """An arbitrary position inside one segment of an axis."""

    def __init__(self, start, seg, starts):
        self.start, self.seg, self.starts = start, seg, starts  # starts: positions of the axis' other segments of size one

    def _at(self, o):
        o = Dim.of(o)
        if any(s.same(o) for s in self.starts):
            return o
        raise Unsupported("comparison of a generic position")

    def __eq__(self, o):
        if isinstance(o, GenericPos):
            return o is self
        self._at(o)
        return False

    __hash__ = None

    def __lt__(self, o):
        o = Dim.of(o)
        if not (o < Dim.of(self.start) + mat.seg_size(self.seg)):
            return True
        if not (Dim.of(self.start) < o):
            return False
        raise Unsupported("comparison of a generic position")

    def __ge__(self, o):
        return not self < o


def _comprehension(self, cond, elt):
    """[x for x in range(n) if ...]: the positions that are kept, as whole segments."""
    if self.start != 0 or self.step != 1 or not isinstance(self.n, Dim):
        raise Unsupported("comprehension over a symbolic range")
    segs = mat.segments(self.n)
    starts, acc = [], Dim.of(0)
    for s in segs:
        starts.append(acc)
        acc = Dim.of(acc + mat.seg_size(s))
    single = [st for st, s in zip(starts, segs) if s == ("1",)]
    keep = []
    for i, (st, s) in builtins.enumerate(zip(starts, segs)):
        x = st if s == ("1",) else GenericPos(st, s, single)
        if cond(x):
            if elt(x) is not x:
                raise Unsupported("comprehension of computed positions")
            keep.append(i)
    return mat.Sel(*keep)


SymRange.comprehension = _comprehension


def np_roll(a, shift, axis=None):
    if not isinstance(a, SymArr):
        return numpy.roll(a, shift, axis=axis)
    a = a.flat2d()
    if axis is None:
        raise Unsupported("roll of a flattened array")
    segs = a.axes[axis].segs
    total = Dim.of(a.axes[axis].size)
    acc = Dim.of(0)
    for i in builtins.range(builtins.len(segs) + 1):
        if acc.same(-Dim.of(shift)) or acc.same(total - Dim.of(shift)):
            order = mat.Sel(*builtins.range(i, builtins.len(segs)), *builtins.range(i))
            r = a[order, :] if axis == 0 else a[:, order]
            return r.view(numpy.ndarray)
        if i < builtins.len(segs):
            acc = Dim.of(acc + mat.seg_size(segs[i]))
    raise Unsupported(f"roll by {shift}")


def sym_len(x):
    if isinstance(x, Perm):
        return x.length()
    if isinstance(x, (list, tuple)) and builtins.len(x) == 1 and isinstance(x[0], mat.GenericElement):
        return x[0].perm.length()
    if isinstance(x, SymArr):
        return x.shape[0]
    f = type(x).__dict__.get("__len__")
    if f is None:
        for c in type(x).__mro__:
            if "__len__" in c.__dict__:
                f = c.__dict__["__len__"]
                break
    if f is not None and type(x).__module__.startswith("qldpc"):
        return f(x)
    return builtins.len(x)


def sym_range(*a):
    if any(isinstance(x, (Dim, scalar.SInt)) for x in a):
        if builtins.len(a) == 1:
            return SymRange(a[0])
        return SymRange(a[1], *a[:1], *a[2:])
    return builtins.range(*a)


def has_sym(x):
    if isinstance(x, (SymArr, Dim, LazyInt)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class Weight:
    """The number of nonzero entries of a vector."""

    def __init__(self, vec):
        self.vec = vec


class Support:
    """a | b for vectors of integers: nonzero where any of them is."""

    def __init__(self, parts):
        self.parts = parts

    def __or__(self, o):
        return Support(self.parts + (o.parts if isinstance(o, Support) else [o]))


def np_count_nonzero(a, *r, **k):
    if isinstance(a, (SymArr, Support)):
        if r or k:
            raise Unsupported("count_nonzero along an axis")
        return Weight(a)
    return numpy.count_nonzero(a, *r, **k)


class LazyInt:
    """An integer array eye(n) or zeros of symbolic size, adapted to the array that it is combined with."""

    def __init__(self, what, shape):
        self.what, self.shape = what, shape
        self.ndim = builtins.len(shape)

    def view(self, *_):
        return self

    def astype(self, *_):
        return self

    __array_ufunc__ = None


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (numpy.ndarray, SymArr))


class SymNDArray(metaclass=_NDMeta):
    is_symbolic_ndarray = True


class Shim:
    """A module with some functions replaced."""

    def __init__(self, base, **over):
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._base, name)


FIELD = mat.FIELD
FIELD[0] = SymField


def concrete(a):
    return FIELD[0], a


def _dtype(dtype):
    return int if dtype is scalar.sym_int else dtype


def np_eye(n, m=None, dtype=None, **k):
    if isinstance(n, Dim) or isinstance(m, Dim):
        if m is not None and not (m is n):
            raise Unsupported("rectangular identity")
        r = mat.identity(FIELD[0], mat.segments(n))
        r.kind = "field"  # the entries 0 and 1 are those of every field
        return r
    return numpy.eye(n, m, dtype=dtype or float, **k)


def np_zeros(shape, dtype=None, **k):
    dtype = _dtype(dtype)
    if has_sym(shape) and isinstance(shape, tuple) and builtins.len(shape) == 2:
        return FIELD[0].Zeros(shape)
    if isinstance(shape, Dim):
        return mat.zeros(FIELD[0], [("1",)], mat.segments(shape)).as_vec()
    if has_sym(shape):
        raise Unsupported(f"zeros({shape})")
    return numpy.zeros(shape, dtype=dtype or float, **k)


def np_zeros_like(a, *r, **k):
    if isinstance(a, SymArr):
        a._use()
        return type(a)(a.axes, {}, a.groups, a.kind)
    return numpy.zeros_like(a, *r, **k)


def np_kron(a, b):
    if isinstance(a, SymArr) and isinstance(b, SymArr):
        return mat.kron(a, b)
    if has_sym([a, b]):
        raise Unsupported("Kronecker product with a concrete matrix")
    return numpy.kron(a, b)


def np_stack(axis, real):
    def f(arrs, **k):
        arrs = list(arrs)
        if not has_sym(arrs):
            return real(arrs, **k)
        sym = [a for a in arrs if isinstance(a, SymArr)]
        if builtins.len(sym) != builtins.len(arrs):
            raise Unsupported("stacking of symbolic with concrete arrays")
        return mat.stack(arrs, axis)
    return f


def np_block(arrs):
    if not has_sym(arrs):
        return numpy.block(arrs)
    if isinstance(arrs, SymArr):
        return arrs
    rows = [mat.stack(r, 1) if isinstance(r, (list, tuple)) else None for r in arrs]
    if all(r is not None for r in rows):
        return mat.stack(rows, 0)
    if all(r is None for r in rows):
        return mat.stack(arrs, 1)
    raise Unsupported("block nesting")


def np_any(a, axis=None, **k):
    if isinstance(a, SymArr):
        if axis is not None:
            return RowTest(a, axis)
        return any_nonzero(a)
    return numpy.any(a, axis=axis, **k)


class RowTest:
    """np.any(matrix, axis): which rows (columns) are nonzero."""

    def __init__(self, arr, axis):
        self.arr, self.axis = arr, axis


def np_array_equal(a, b, **k):
    if isinstance(a, SymArr) and isinstance(b, SymArr):
        if a.axes != b.axes:
            if a.shape != b.shape:
                return False
            return CTX[-1].decide("two arrays with different segments are equal")
        a, b = a.view(FIELD[0]), b.view(FIELD[0])
        return not any_nonzero(a - b)
    if has_sym([a, b]):
        raise Unsupported("comparison of a symbolic with a concrete array")
    return numpy.array_equal(a, b, **k)


def np_asarray(a, dtype=None, **k):
    dtype = _dtype(dtype)
    if isinstance(a, SymArr):
        r = a.view()
        if dtype is not None:
            r.kind = "int"
        return r
    if has_sym(a):
        raise Unsupported("array of symbolic values")
    return numpy.asarray(a, dtype=dtype, **k)


def np_asanyarray(a, dtype=None, **k):
    dtype = _dtype(dtype)
    if isinstance(a, SymArr):
        return a.view()
    if has_sym(a):
        raise Unsupported("array of symbolic values")
    return numpy.asanyarray(a, dtype=dtype, **k)


def np_array(a, dtype=None, **k):
    dtype = _dtype(dtype)
    if isinstance(a, SymArr):
        r = a.copy()
        if dtype is not None:
            r.kind = "int"
        return r
    if has_sym(a):
        raise Unsupported("array of symbolic values")
    return numpy.array(a, dtype=dtype, **k) if dtype is not None else numpy.array(a, **k)


def np_argsort(a, *r, **k):
    if isinstance(a, Perm):
        return a.inverse()
    if has_sym(a):
        raise Unsupported("argsort")
    return numpy.argsort(a, *r, **k)


def np_outer(a, b, **k):
    if has_sym([a, b]):
        a, b = list(a), list(b)
        o = numpy.empty((builtins.len(a), builtins.len(b)), dtype=object)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                o[i, j] = Dim.of(x * y) if has_sym([x, y]) else x * y
        return o
    return numpy.outer(a, b, **k)


def sp_block_diag(*arrs):
    if has_sym(arrs):
        if not all(isinstance(a, SymArr) for a in arrs):
            raise Unsupported("block_diag of symbolic and concrete arrays")
        return mat.block_diag(arrs)
    return scipy.linalg.block_diag(*arrs)


def galois_GF(order, *a, **k):
    if isinstance(order, Order):
        return SymField
    if order == 2 and FIELD[0] is SymField2:
        return SymField2
    if isinstance(order, Dim):
        raise Unsupported("field of symbolic order")
    return _galois.GF(order, *a, **k)


def np_inv(a):
    if isinstance(a, SymArr):
        return inverse(a)
    return numpy.linalg.inv(a)


def first_nonzero(real):
    def f(a):
        if isinstance(a, SymArr):
            a = a.flat2d()
            for r in CTX[-1].__dict__.get("rref", []):
                if r.axes == a.axes and is_zero(r.view(FIELD[0]) - a.view(FIELD[0])):
                    return Pivots(a)
            raise Unsupported("pivots of a matrix that is not known to be reduced")
        return real(a)
    return f


def pivot_matrix(arr):
    """P with P[i, pivot of row i] = 1: arr @ P.T = 1, if arr is reduced and has full row rank."""
    arr = arr.flat2d()
    store, key = memo("pivots", arr)
    if key not in store:
        full = any(f[0] == "basis of kernel" and f[1].axes == arr.axes and _same_rows(f[1], arr) for f in CTX[-1].facts)
        if not full:
            raise Unsupported("pivots of a matrix that is not known to have full rank")
        i = next(CTX[-1].fresh)
        p = mat.matrix(type(arr), arr.axes[0].segs, arr.axes[1].segs, {(0, j): f"P{i}_{j}" for j in builtins.range(builtins.len(arr.axes[1].segs))})
        assume_zero(arr @ p.T - mat.identity(type(arr), arr.axes[0].segs))
        store[key] = p
    return store[key].copy()


def _same_rows(basis, arr):
    """arr is an invertible multiple of basis."""
    if is_zero(basis - arr):
        return True
    return any(f[0] == "row reduced" and f[2].axes == basis.axes and is_zero(f[2] - basis) and is_zero(f[1] - arr)
               for f in CTX[-1].facts)


def _any(self, axis=None, **k):
    return np_any(self, axis=axis)


SymArr.any = _any
_plain_set = SymArr.__setitem__


def _setitem(self, idx, value):
    if isinstance(idx, tuple) and builtins.len(idx) == 2 and isinstance(idx[0], SymRange) and isinstance(idx[1], Pivots):
        if self.cells or value != 1 or not Dim.of(idx[0].n).same(self.shape[0]) or idx[1].arr.axes != self.axes:
            raise Unsupported("assignment at pivots")
        self.cells = dict(pivot_matrix(idx[1].arr).cells)
        return
    _plain_set(self, idx, value)


SymArr.__setitem__ = _setitem
_plain_get = SymArr.__getitem__


def _getitem(self, idx):
    if isinstance(idx, RowTest) or (isinstance(idx, tuple) and idx and isinstance(idx[0], RowTest)):
        # matrix[np.any(matrix, axis=1)]: the nonzero rows; for a reduced matrix these are its first rows, and a basis
        t = idx if isinstance(idx, RowTest) else idx[0]
        rest = () if isinstance(idx, RowTest) else idx[1:]
        if t.axis != 1 or any(r != slice(None) for r in rest) or t.arr.axes != self.axes or not is_zero(t.arr - self):
            raise Unsupported("selection of rows")
        return nonzero_rows(self)
    return _plain_get(self, idx)


SymArr.__getitem__ = _getitem


def nonzero_rows(a):
    """Contract: the nonzero rows C of a reduced matrix a: a basis of its row space: a = E @ C and C = S @ a."""
    store, key = memo("rows", a)
    if key not in store:
        ctx = CTX[-1]
        if any(f[0] == "nonzero rows" and f[1].axes == a.axes and is_zero(f[1] - a) for f in ctx.facts):
            return a.copy()
        if not any(r.axes == a.axes and is_zero(r - a) for r in ctx.__dict__.get("rref", [])):
            raise Unsupported("nonzero rows of a matrix that is not known to be reduced")
        i = next(ctx.fresh)
        dim = f"rk{i}"
        seg = a.axes[0].segs
        s = mat.matrix(type(a), [dim], seg, {(0, 0): f"S{i}"})
        new = s @ a
        e = mat.matrix(type(a), seg, [dim], {(0, 0): f"E{i}"})
        assume_zero(e @ new - a)
        ctx.facts.append(("nonzero rows", new, a, e))
        ctx.__dict__.setdefault("rref", []).append(new)
        store[key] = new
    return store[key].copy()


def np_shim():
    return Shim(
        numpy, eye=np_eye, identity=np_eye, zeros=np_zeros, zeros_like=np_zeros_like, kron=np_kron, vstack=np_stack(0, numpy.vstack),
        hstack=np_stack(1, numpy.hstack), block=np_block, any=np_any, array_equal=np_array_equal, asarray=np_asarray,
        asanyarray=np_asanyarray, array=np_array, argsort=np_argsort, outer=np_outer, ndarray=SymNDArray,
        count_nonzero=np_count_nonzero, roll=np_roll,
        linalg=Shim(numpy.linalg, inv=np_inv),
    )


@contextlib.contextmanager
def patched(*modules, **extra):
    """Replace the globals of the given modules of /repo."""
    saved = []
    np_, sp = np_shim(), Shim(scipy, linalg=Shim(scipy.linalg, block_diag=sp_block_diag))
    ga = Shim(_galois, GF=galois_GF)
    over = {**dict(np=np_, scipy=sp, galois=ga, len=sym_len, range=sym_range), **extra}
    missing = object()
    try:
        for m in modules:
            d = dict(over)
            if "first_nonzero_cols" in vars(m):
                d["first_nonzero_cols"] = first_nonzero(vars(m)["first_nonzero_cols"])
            for k, v in d.items():
                if k in vars(m) or k in ("len", "range", "int", "min", "max", "isinstance", "sum", "abs", "any", "all", "enumerate", "sorted", "zip", "tuple", "set", "list", "reversed", "dict"):
                    saved.append((m, k, vars(m).get(k, missing)))
                    setattr(m, k, v)
        yield
    finally:
        for m, k, v in reversed(saved):
            if v is missing:
                delattr(m, k)
            else:
                setattr(m, k, v)


def deliberate(exc):
    """Was the exception raised by a raise or assert statement of /repo (and not by an operation on symbolic values)?"""
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    name, line = tb.tb_frame.f_code.co_filename, tb.tb_lineno
    if "/qldpc/" not in name:
        return False
    import ast
    import linecache
    try:
        tree = ast.parse("".join(linecache.getlines(name)))
    except SyntaxError:
        return False
    return any(isinstance(n, (ast.Raise, ast.Assert)) and n.lineno <= line <= n.end_lineno for n in ast.walk(tree))


def explore(fn, field, modules, limit=1024, **extra):
    """Run fn on every path; yields (context, result or exception)."""
    todo, out = [[]], []
    old = FIELD[0]
    FIELD[0] = field
    try:
        with patched(*modules, **extra):
            while todo:
                if builtins.len(out) >= limit:
                    raise Unsupported("too many paths")
                ctx = Context(char=field.characteristic, decisions=todo.pop())
                CTX.append(ctx)
                try:
                    try:
                        res = fn(ctx)
                        out.append((ctx, res, None))
                    except (Unsupported, PathEnd):
                        raise
                    except Exception as e:
                        if not deliberate(e):
                            raise
                        out.append((ctx, None, e))
                finally:
                    CTX.pop()
                todo += ctx.pending
    finally:
        FIELD[0] = old
    return out
