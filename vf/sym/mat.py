"""Block matrices of symbolic shape over an arbitrary field.

A SymArr stands for a matrix whose axes are split into segments of symbolic sizes; each block is a linear combination,
with integer coefficients, of tensor products of words in named matrices and their transposes. The functions of /repo
run on these objects natively (see shim.py). An equation between two matrices is proved by rewriting the normal form of
their difference with the hypotheses (equations between blocks) of the current path.
"""
from __future__ import annotations

import itertools
import operator


class Unsupported(Exception):
    """The code does something that the symbolic domain does not cover; the obligation stays undecided."""


class PathEnd(Exception):
    """The current path is infeasible or cut."""


# ---------------------------------------------------------------------------------------------- sizes


class Dim:
    """A size: polynomial with integer coefficients in named sizes (each an arbitrary natural number)."""

    __slots__ = ("t", "segs")

    def __init__(self, t, segs=None):
        self.t = {k: v for k, v in t.items() if v}
        self.segs = segs  # the segments of the axis that this is the size of, if known

    @staticmethod
    def of(x):
        if isinstance(x, Dim):
            return x
        if isinstance(x, str):
            return Dim({(x,): 1} if x != "1" else {(): 1})
        try:
            x = operator.index(x)
        except TypeError:
            raise Unsupported(f"size {x!r}") from None
        return Dim({(): x})

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def _bin(self, o, f):
        if not isinstance(o, Dim):
            try:
                o = Dim.of(o)
            except Unsupported:
                return NotImplemented
        return simp(f(self, o))

    def __add__(self, o, swap=False):
        r = self._bin(o, lambda a, b: Dim({k: a.t.get(k, 0) + b.t.get(k, 0) for k in {**a.t, **b.t}}))
        if isinstance(r, Dim) and r.segs is None:  # an axis of this size may be cut after the first summand
            a, b = _segs_or_none(self), _segs_or_none(o)
            if a is not None and b is not None:
                r = Dim(r.t, b + a if swap else a + b)
        return r

    def __radd__(self, o):
        return self.__add__(o, swap=True)

    def __neg__(self):
        return simp(Dim({k: -v for k, v in self.t.items()}))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Dim({k: a.t.get(k, 0) - b.t.get(k, 0) for k in {**a.t, **b.t}}))

    def __rsub__(self, o):
        return Dim.of(o) - self

    @staticmethod
    def _mul(a, b):
        t = {}
        for k, v in a.t.items():
            for l, w in b.t.items():
                m = tuple(sorted(k + l))
                t[m] = t.get(m, 0) + v * w
        return Dim(t)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("repetition by a symbolic number")
        return self._times(o, self, o)

    def __rmul__(self, o):
        return self._times(o, o, self)

    def _times(self, o, first, second):
        r = self._bin(o, Dim._mul)
        if isinstance(r, Dim) and r.segs is None and isinstance(o, Dim):
            a, b = _segs_or_none(first), _segs_or_none(second)
            if a is not None and b is not None and len(b) == 1:  # the axis of a Kronecker product
                r = Dim(r.t, tuple(tuple(x) + tuple(y) for x in a for y in b))
        return r

    def __divmod__(self, o):
        o = Dim.of(o)
        q = exact_div(self, o)
        if q is None:
            raise Unsupported(f"division {self} / {o}")
        c = o.const()
        if c and self.segs and len(self.segs) % c == 0:
            m = len(self.segs) // c
            if all(self.segs[i] == self.segs[i % m] for i in range(len(self.segs))):
                q = Dim(q.t, self.segs[:m])
        return simp(q), 0

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __rfloordiv__(self, o):
        return Dim.of(o) // self

    def __rmod__(self, o):
        return Dim.of(o) % self

    def __eq__(self, o):
        if not isinstance(o, Dim):
            try:
                o = Dim.of(o)
            except Unsupported:
                return NotImplemented
        d = canon(Dim({k: self.t.get(k, 0) - o.t.get(k, 0) for k in {**self.t, **o.t}}))
        c = d.const()
        if c is not None:
            return c == 0
        return CTX[-1].decide_dim(d)

    def same(self, o):
        return canon(self).t == canon(o).t

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def _cmp(self, o):
        d = Dim.of(self) - Dim.of(o)
        if not isinstance(d, Dim):
            return d
        raise Unsupported(f"comparison of sizes {self}, {o}")

    def sign(self, o):
        """-1/0/+1 style comparison is only decided when all coefficients have one sign."""
        d = Dim.of(self)._bin(Dim.of(o), lambda a, b: Dim({k: a.t.get(k, 0) - b.t.get(k, 0) for k in {**a.t, **b.t}}))
        d = Dim.of(d)
        return d

    def __lt__(self, o):  # self < o  iff  o - self >= 1
        if hasattr(o, "z3"):
            return NotImplemented
        d = canon(Dim.of(o).sign(self))
        if all(v >= 0 for v in d.t.values()) and d.t.get((), 0) >= 1:
            return True
        if all(v <= 0 for v in d.t.values()):
            return False
        return CTX[-1].decide_order(self, o)

    def __ge__(self, o):
        if hasattr(o, "z3"):
            return NotImplemented
        return not self < o

    def __gt__(self, o):
        if hasattr(o, "z3"):
            return NotImplemented
        return Dim.of(o) < self

    def __le__(self, o):
        if hasattr(o, "z3"):
            return NotImplemented
        return not Dim.of(o) < self

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return not CTX[-1].decide_dim(self)

    def __repr__(self):
        return "+".join(("" if v == 1 and k else str(v)) + "*".join(k) for k, v in self.t.items()) or "0"

    def __format__(self, spec):
        return repr(self)


def _segs_or_none(d):
    if isinstance(d, int):
        return (("1",),) * d if 0 <= d <= 4 else None
    try:
        return tuple(segments(d))
    except Unsupported:
        return None


def canon(d):
    """Replace sizes by what they are known to be on this path (for example n by l + sx + sz)."""
    d = Dim.of(d)
    for name, value in CTX[-1].sizes.items():
        if any(name in m for m in d.t):
            out = Dim({})
            for m, c in d.t.items():
                term = Dim({tuple(x for x in m if x != name): c})
                for _ in range(m.count(name)):
                    term = Dim._mul(term, value)
                out = Dim({k: out.t.get(k, 0) + term.t.get(k, 0) for k in {**out.t, **term.t}})
            d = Dim(out.t, d.segs)
    return d


def simp(d):
    c = d.const()
    return c if c is not None else d


def exact_div(a, b):
    a, b = canon(a), canon(b)
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        t = {}
        for m, c in a.t.items():
            m = list(m)
            for x in mb:
                if x not in m:
                    return None
                m.remove(x)
            if c % cb:
                return None
            t[tuple(m)] = c // cb
        return Dim(t)
    # a polynomial divisor: try the quotient by the first monomial
    if not b.t:
        return None
    (mb, cb) = next(iter(b.t.items()))
    for m, c in a.t.items():
        rest = list(m)
        ok = True
        for x in mb:
            if x not in rest:
                ok = False
                break
            rest.remove(x)
        if ok and c % cb == 0:
            q = Dim({tuple(rest): c // cb})
            left = a - Dim._mul(q, b)
            left = Dim.of(left)
            if not left.t:
                return q
            if len(left.t) < len(a.t):
                r = exact_div(left, b)
                if r is not None:
                    return Dim.of(q + r)
    return None


# ---------------------------------------------------------------------------------------------- atoms and words

class Atom:
    """A named matrix with row and column sizes (leg names); symmetric if sym."""

    __slots__ = ("name", "row", "col")

    def __init__(self, name, row, col):
        self.name, self.row, self.col = name, row, col

    def __repr__(self):
        return self.name


# letter = (name, transposed); word = tuple of letters; term = tuple of words (one per leg); comb = {term: int}


def w_T(word):
    return tuple((n, not t) for n, t in reversed(word))


def c_T(comb):
    return {tuple(w_T(w) for w in term): c for term, c in comb.items()}


def c_add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        c = r.get(t, 0) + k * c
        if c:
            r[t] = c
        else:
            r.pop(t, None)
    return r


def c_mul(a, b):
    r = {}
    for s, x in a.items():
        for t, y in b.items():
            if len(s) != len(t):
                raise Unsupported("product of tensor products with different factors")
            u = tuple(p + q for p, q in zip(s, t))
            c = r.get(u, 0) + x * y
            if c:
                r[u] = c
            else:
                r.pop(u, None)
    return r


def c_kron(a, b):
    return {s + t: x * y for s, x in a.items() for t, y in b.items()}


def c_scale(a, k):
    return {t: c * k for t, c in a.items()} if k else {}


# ---------------------------------------------------------------------------------------------- contexts (hypotheses, paths)


class Context:
    """Hypotheses of a path, and the decisions taken on it."""

    def __init__(self, char=None, decisions=()):
        self.char = char
        self.rules = {}  # word -> {term(1 leg): coef}
        self.eqs = []  # one-leg equations, for the linear-algebra fallback
        self.trace = list(decisions)
        self.pos = 0
        self.log = []
        self.pending = []
        self.facts = []
        self.dim_facts = {}
        self.order_facts = {}
        self.fresh = itertools.count()
        self.frame = []  # writes to arrays owned by the caller
        self.sizes = {}  # name of a size -> Dim that it equals
        self.splits = {}  # segments of an axis -> the segments that new zero matrices get

    # -- paths
    def decide(self, label):
        """Both outcomes are possible: take one and remember to explore the other."""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            d = True
            self.pending.append(self.trace[:self.pos] + [False])
            self.trace.append(True)
            if len(self.trace) > 40:
                raise Unsupported("too many decisions on a path")
        self.pos += 1
        self.log.append((label, d))
        return d

    def decide_dim(self, d):
        """Is the size expression d zero?"""
        key = tuple(sorted(d.t.items()))
        neg = tuple(sorted((k, -v) for k, v in d.t.items()))
        for k in (key, neg):
            if k in self.dim_facts:
                return self.dim_facts[k]
        if all(v > 0 for v in d.t.values()) and d.t.get((), 0) > 0:
            return False
        if all(v < 0 for v in d.t.values()) and d.t.get((), 0) < 0:
            return False
        r = self.decide(f"size {d} == 0")
        self.dim_facts[key] = r
        if r:
            self.note_size_zero(d)
        return r

    def note_size_zero(self, d):
        pass  # equal sizes stay syntactically different: incomplete, never unsound

    def decide_order(self, a, b):
        key = (repr(a), repr(b))
        if key not in self.order_facts:
            self.order_facts[key] = self.decide(f"size {a} < {b}")
        return self.order_facts[key]

    # -- equations
    def reduce_coeff(self, comb):
        if self.char:
            return {t: c % self.char for t, c in comb.items() if c % self.char}
        return {t: c for t, c in comb.items() if c}

    def normal(self, comb):
        comb = self.reduce_coeff(comb)
        out, todo = {}, dict(comb)
        steps = 0
        while todo:
            term, c = todo.popitem()
            steps += 1
            if steps > 200000:
                raise Unsupported("rewriting takes too long")
            hit = self._rewrite(term)
            if hit is None:
                v = out.get(term, 0) + c
                if v:
                    out[term] = v
                else:
                    out.pop(term, None)
            else:
                for t, x in hit.items():
                    v = todo.get(t, 0) + c * x
                    if self.char:
                        v %= self.char
                    if v:
                        todo[t] = v
                    else:
                        todo.pop(t, None)
        return self.reduce_coeff(out)

    def _rewrite(self, term):
        for leg, word in enumerate(term):
            for i in range(len(word)):
                for lhs, rhs in self.rules.items():
                    if word[i:i + len(lhs)] == lhs:
                        res = {}
                        for (w,), c in rhs.items():
                            t = term[:leg] + (word[:i] + w + word[i + len(lhs):],) + term[leg + 1:]
                            res[t] = res.get(t, 0) + c
                        return res
        return None

    def assume_zero(self, comb):
        """Add the equation comb == 0 between one-leg blocks (other equations are ignored: incomplete, not unsound)."""
        comb = self.normal(comb)
        if not comb:
            return
        if any(len(t) != 1 for t in comb):
            return self._assume_tensor(comb)
        self.eqs.append(comb)
        for eq in (comb, c_T(comb)):
            eq = self.normal(eq)
            if not eq:
                continue
            lead = max(eq, key=lambda t: (len(t[0]), t))
            c = eq[lead]
            if self.char == 2 or c in (1, -1):
                self.rules[lead[0]] = {t: -c * x for t, x in eq.items() if t != lead}

    def _assume_tensor(self, comb):
        if len(comb) == 1:
            pass  # a single tensor product that vanishes: one of its factors does, which we do not know
        return

    def is_zero(self, comb):
        return not self.normal(comb)

    def holds_zero(self, arr):
        return all(self.is_zero(b) for b in arr.cells.values())


CTX = [Context()]


# ---------------------------------------------------------------------------------------------- arrays


class Seg(tuple):
    """A segment of an axis: its legs (names of sizes); the size is their product. () has size one."""


def seg_size(seg):
    d = Dim.of(1)
    for x in seg:
        d = Dim.of(d * Dim.of(x)) if not isinstance(x, int) else Dim.of(d * x)
    return d


class Axis:
    """An atomic axis: either n concrete positions, or segments of symbolic size."""

    __slots__ = ("n", "segs")

    def __init__(self, segs=None, n=None):
        self.segs = tuple(tuple(s) for s in segs) if segs is not None else None
        self.n = n

    @property
    def count(self):
        return self.n if self.segs is None else len(self.segs)

    @property
    def size(self):
        if self.segs is None:
            return self.n
        d = Dim.of(0)
        for s in self.segs:
            d = Dim.of(d + seg_size(s))
        return simp(Dim(d.t, self.segs))

    def __eq__(self, o):
        return self.segs == o.segs and self.n == o.n

    def __repr__(self):
        return f"<{self.n if self.segs is None else '|'.join('x'.join(map(str, s)) for s in self.segs)}>"


class Perm:
    """An index array that lists each position of an axis once. `matrix`: plain SymArr R with A[:, p] = A @ R."""

    def __init__(self, matrix):
        self.matrix = matrix

    @property
    def src(self):
        return self.matrix.axes[0]

    @property
    def dst(self):
        return self.matrix.axes[1]

    def inverse(self):
        return Perm(self.matrix.T)

    def length(self):
        return self.src.size

    def __getitem__(self, other):
        if isinstance(other, Perm):  # q[p] lists q[p[0]], q[p[1]], ...
            return Perm(self.matrix @ other.matrix)
        if isinstance(other, GenericIndex):
            if not Dim.of(other.n).same(self.length()):
                raise Unsupported("elements of a permutation")
            return GenericElement(self)
        raise Unsupported("indexing of a symbolic permutation")


class GenericIndex:
    """The variable of a comprehension over range(n)."""

    def __init__(self, n):
        self.n = n


class GenericElement:
    """p[i] for the variable i of a comprehension: the comprehension lists the elements of p in order."""

    def __init__(self, perm):
        self.perm = perm


def permutation(cls, name, src, dst):
    """An arbitrary permutation between axes with the given segments; its equations are assumed."""
    src = [s if isinstance(s, tuple) else (s,) for s in src]
    dst = [s if isinstance(s, tuple) else (s,) for s in dst]
    r = matrix(cls, src, dst, {(i, j): (name if len(src) == len(dst) == 1 else f"{name}{i}{j}") for i in range(len(src)) for j in range(len(dst))})
    for lhs, rhs in ((r @ r.T, identity(cls, src)), (r.T @ r, identity(cls, dst))):
        for b in (lhs - rhs).cells.values():
            CTX[-1].assume_zero(b)
    return Perm(r)


class Sel:
    """An index set that selects whole segments of an axis, in the given order."""

    def __init__(self, *positions):
        self.positions = list(positions)


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


FIELD = [None]  # the class of arrays over the current symbolic field


class SymArr:
    """See the module documentation. `axes`: atomic axes; `groups`: visible axes as tuples of atomic ones."""

    __array_ufunc__ = None
    __array_priority__ = 1000
    flip = False  # of a view: its cells are the transposes of those of the base

    @property
    def kind(self):
        return "int" if type(self) is SymArr else "field"

    @kind.setter
    def kind(self, kind):
        self.__class__ = SymArr if kind == "int" else FIELD[0]

    # the class doubles as the symbolic field; see shim.field()
    def __init__(self, axes, cells, groups=None, kind="field", owner=None, base=None):
        self.axes = list(axes)
        self.cells = {k: v for k, v in cells.items() if v}
        self.groups = [(i,) for i in range(len(self.axes))] if groups is None else list(groups)
        self.kind = kind
        self.owner = owner  # None: fresh; otherwise the name of the caller's object
        self.stale = False
        self.version = 0  # number of writes
        self.into = None  # of a view: the cell of the base that a cell of the view is
        self.base = base
        self.row_axis, self.col_axis = self._matrix_axes()

    # -- structure
    def _matrix_axes(self):
        sym = [i for i, a in enumerate(self.axes) if a.segs is not None]
        if len(sym) != 2:
            raise Unsupported("array without exactly two matrix axes")
        return sym

    @property
    def base(self):
        return self._base

    @base.setter
    def base(self, base):
        self._base, self._seen = base, base.version if base is not None else 0

    def _use(self):
        if self.stale:
            raise Unsupported("an array is used after a reshaped view of it was modified")
        x = self
        while x.base is not None:
            if x.base.version != x._seen:
                raise Unsupported("a view is used after its base was modified")
            x = x.base
        return self

    def _written(self):
        """The cells of this array were modified: so are those of the arrays that it is a view of."""
        self.version += 1
        if self.owner is not None:
            CTX[-1].frame.append(self.owner)
        b = self.base
        if b is None:
            return
        if self.into is None:
            b.stale = True
        else:
            for key in itertools.product(*[range(a.count) for a in self.axes]):
                if self.cells.get(key):
                    b.cells[self.into(key)] = c_T(self.cells[key]) if self.flip else self.cells[key]
                else:
                    b.cells.pop(self.into(key), None)
        b._written()
        self._seen = b.version

    def _like(self, axes, cells, groups=None, kind=None):
        return type(self)(axes, cells, groups, kind or self.kind)

    @property
    def shape(self):
        return tuple(self.axes[g[0]].size if len(g) == 1 else simp(Dim.of(_prod([self.axes[i].size for i in g])))
                     for g in self.groups)

    @shape.setter
    def shape(self, shape):
        new = self.reshape(shape)
        self.axes, self.cells, self.groups = new.axes, new.cells, new.groups
        self.row_axis, self.col_axis = self._matrix_axes()

    dtype = None

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def size(self):
        return simp(Dim.of(_prod(self.shape)))

    def __len__(self):
        raise Unsupported("len() of a symbolic array outside the shim")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def __bool__(self):
        raise Unsupported("truth value of a symbolic array")

    def flat2d(self):
        """The same array if it is a plain matrix (two visible axes, each one atomic)."""
        self._use()
        if len(self.axes) == 2 and self.groups == [(0,), (1,)]:
            return self
        raise Unsupported(f"not a plain matrix: {self.axes} {self.groups}")

    @property
    def T(self):
        self._use()
        if self.is_vec:
            return self
        if len(self.groups) == 2 and len(self.axes) == 2:
            new = self._like([self.axes[1], self.axes[0]], {(j, i): c_T(b) for (i, j), b in self.cells.items()})
            new.base, new.into, new.flip = self, (lambda key: (key[1], key[0])), True
            new.owner = self.owner
            return new
        raise Unsupported("transpose of an array with more than two axes")

    def transpose(self, *axes):
        if not axes:
            return self.T
        raise Unsupported("transpose with axes")

    # -- vectors: 1-by-n matrices whose row axis is hidden
    @property
    def is_vec(self):
        return len(self.axes) == 2 and self.groups == [(1,)]

    def as_row(self):
        self._use()
        return self._like(self.axes, self.cells)

    def as_vec(self):
        a = self.flat2d()
        if a.axes[0].segs != (("1",),):
            raise Unsupported("a matrix is used as a vector")
        return self._like(a.axes, a.cells, [(1,)])

    # -- arithmetic
    def _field_op(self, *others):
        for x in (self,) + others:
            x._use()
            if x.kind != "field":
                raise Unsupported("arithmetic with integers in place of field elements")

    def __neg__(self):
        self._field_op()
        return self._like(self.axes, {k: c_scale(b, -1) for k, b in self.cells.items()}, self.groups)

    def _coerce(self, o):
        if isinstance(o, SymArr):
            return o
        raise Unsupported(f"arithmetic of a symbolic array with {type(o).__name__}")

    def __add__(self, o, k=1):
        o = self._coerce(o)
        self._field_op(o)
        if self.axes != o.axes or self.groups != o.groups:
            raise Unsupported(f"sum of arrays with different structure {self.axes} {o.axes}")
        cells = dict(self.cells)
        for key, b in o.cells.items():
            cells[key] = c_add(cells.get(key, {}), b, k)
        return self._like(self.axes, cells, self.groups)

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __iadd__(self, o, k=1):
        new = self.__add__(o, k)
        if self.axes != new.axes:
            raise Unsupported("in-place sum of arrays with different structure")
        self.cells = dict(new.cells)
        self._written()
        return self

    def __isub__(self, o):
        return self.__iadd__(o, -1)

    def __mul__(self, k):
        if isinstance(k, int):
            self._field_op()
            return self._like(self.axes, {key: c_scale(b, k) for key, b in self.cells.items()}, self.groups)
        raise Unsupported("entrywise product")

    __rmul__ = __mul__

    def __or__(self, o):
        from .shim import Support, SymField
        if isinstance(self, SymField) or not isinstance(o, SymArr) or isinstance(o, SymField):
            raise Unsupported("bitwise or")
        return Support([self, o])

    def __matmul__(self, o):
        o = self._coerce(o)
        self._field_op(o)
        if self.is_vec and o.is_vec:
            return self.as_row() @ o.as_row().T  # a number: a 1-by-1 matrix
        if self.is_vec:
            return (self.as_row() @ o).as_vec()
        if o.is_vec:
            return (o.as_row() @ self.T).as_vec()
        a, b = self.flat2d(), o.flat2d()
        if a.axes[1] != b.axes[0]:
            raise Unsupported(f"product of matrices with different segments {a.axes[1]} {b.axes[0]}")
        cells = {}
        for (i, j), x in a.cells.items():
            for (k, l), y in b.cells.items():
                if j == k:
                    cells[i, l] = c_add(cells.get((i, l), {}), c_mul(x, y))
        return self._like([a.axes[0], b.axes[1]], cells)

    def __rmatmul__(self, o):
        raise Unsupported("product of a concrete with a symbolic array")

    # -- views
    def view(self, kind=None):
        self._use()
        import numpy as np
        new = type(self)(self.axes, self.cells, self.groups, self.kind, owner=self.owner, base=self)
        if kind is None:
            return new
        if kind is np.ndarray or getattr(kind, "is_symbolic_ndarray", False):
            new.kind = "int"
        elif kind is SymArr:
            new.kind = "int"
        elif isinstance(kind, type) and issubclass(kind, SymArr):
            new.kind = "field"
        else:
            raise Unsupported(f"view as {kind}")
        return new

    def astype(self, dtype, **_):
        self._use()
        return type(self)(self.axes, dict(self.cells), self.groups, self.kind)

    def copy(self):
        self._use()
        return type(self)(self.axes, dict(self.cells), self.groups, self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def reshape(self, *shape):
        self._use()
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        shape = [s if isinstance(s, Dim) else operator.index(s) for s in shape]
        total = Dim.of(self.size)
        if any(isinstance(s, int) and s == -1 for s in shape):
            known = Dim.of(_prod([s for s in shape if not (isinstance(s, int) and s == -1)]))
            q = exact_div(total, known)
            if q is None:
                raise Unsupported(f"reshape {self.shape} -> {shape}")
            shape = [simp(q) if isinstance(s, int) and s == -1 else s for s in shape]
        if not Dim.of(_prod(shape)).same(total):
            raise Unsupported(f"reshape {self.shape} -> {shape}")
        axes = [[a, None] for g in self.groups for a in [self.axes[i] for i in g]]
        order = [i for g in self.groups for i in g]
        if order != list(range(len(self.axes))):
            raise Unsupported("reshape of a transposed array")
        arr = self
        groups, pos = [], 0
        work = arr
        for s in shape:
            want = Dim.of(s)
            group, have = [], Dim.of(1)
            while not have.same(want) or (want.const() == 1 and not group and pos < len(work.axes) and work.axes[pos].size == 1):
                if pos >= len(work.axes):
                    raise Unsupported(f"reshape {self.shape} -> {tuple(shape)}")
                nxt = Dim.of(work.axes[pos].size)
                q = exact_div(want, Dim.of(have * nxt))
                if q is not None:
                    group.append(pos)
                    have = Dim.of(have * nxt)
                    pos += 1
                    continue
                need = exact_div(want, have)
                if need is None:
                    raise Unsupported(f"reshape {self.shape} -> {tuple(shape)}")
                work = work._split(pos, simp(need))
            groups.append(tuple(group))
        while pos < len(work.axes):
            if work.axes[pos].size == 1 and groups:
                groups[-1] = groups[-1] + (pos,)
                pos += 1
            else:
                raise Unsupported(f"reshape {self.shape} -> {tuple(shape)}")
        out = type(self)(work.axes, dict(work.cells), groups, self.kind, owner=self.owner, base=self)
        return out._merge()

    def _split(self, pos, need):
        """Split atomic axis pos into (need, rest)."""
        ax = self.axes[pos]
        if ax.segs is None:
            if not isinstance(need, int) or not need or ax.n % need:
                raise Unsupported("split of an axis")
            outer, inner = Axis(n=need), Axis(n=ax.n // need)
            cells = {k[:pos] + divmod(k[pos], inner.n) + k[pos + 1:]: b for k, b in self.cells.items()}
        elif isinstance(need, int):
            m = len(ax.segs)
            if need <= 0 or m % need or any(ax.segs[i] != ax.segs[i % (m // need)] for i in range(m)):
                raise Unsupported(f"split of axis {ax} into {need}")
            outer, inner = Axis(n=need), Axis(segs=ax.segs[:m // need])
            cells = {k[:pos] + divmod(k[pos], m // need) + k[pos + 1:]: b for k, b in self.cells.items()}
        else:
            # (c * s) with c copies of the needed size s: outer is the number of copies' complement
            m = len(ax.segs)
            for c in range(2, m + 1):
                if m % c == 0 and all(ax.segs[i] == ax.segs[i % (m // c)] for i in range(m)):
                    if Dim.of(Dim.of(need) * c).same(Dim.of(ax.size)):
                        raise Unsupported("split of an axis into a symbolic number of parts")
            raise Unsupported(f"split of axis {ax} into {need}")
        axes = self.axes[:pos] + [outer, inner] + self.axes[pos + 1:]
        groups = [(i,) for i in range(len(axes))]
        return type(self)(axes, cells, groups, self.kind, owner=self.owner)

    def _merge(self):
        """Merge a concrete axis with the following symbolic one when they are grouped: n copies of the segments."""
        for gi, g in enumerate(self.groups):
            for a, b in zip(g, g[1:]):
                if self.axes[a].segs is None and b == a + 1:
                    ax, bx = self.axes[a], self.axes[b]
                    if bx.segs is None:
                        new = Axis(n=ax.n * bx.n)
                    else:
                        new = Axis(segs=bx.segs * ax.n)
                    cnt = bx.count
                    cells = {k[:a] + (k[a] * cnt + k[b],) + k[b + 1:]: v for k, v in self.cells.items()}
                    axes = self.axes[:a] + [new] + self.axes[b + 1:]
                    groups, n = [], 0
                    for gj, h in enumerate(self.groups):
                        l = len(h) - (1 if gj == gi else 0)
                        groups.append(tuple(range(n, n + l)))
                        n += l
                    return type(self)(axes, cells, groups, self.kind, owner=self.owner, base=self.base)._merge()
        return self

    # -- indexing
    def _index_axis(self, gi, idx):
        """positions along the (single) atomic axis of visible axis gi, permutation word (or None), drop flag."""
        g = self.groups[gi]
        import numpy as np
        if isinstance(idx, slice) and idx == slice(None):
            return ("all",)
        if len(g) != 1:
            raise Unsupported("index on a merged axis")
        ax = self.axes[g[0]]
        if isinstance(idx, slice):
            step = 1 if idx.step is None else operator.index(idx.step)
            if ax.segs is None:
                return ("take", list(range(ax.n))[idx])
            if step != 1:
                raise Unsupported("slice with a step")
            if not ax.segs:
                return ("take", [])
            def bound(x, default):
                if x is None:
                    return default
                d = Dim.of(x)
                c = d.const()
                if c is not None and c < 0:
                    d = Dim.of(Dim.of(ax.size) + c)
                return d
            lo, hi = bound(idx.start, Dim.of(0)), bound(idx.stop, Dim.of(ax.size))
            acc, starts = Dim.of(0), [Dim.of(0)]
            for s in ax.segs:
                acc = Dim.of(acc + seg_size(s))
                starts.append(acc)
            def find(d):
                for i, s in enumerate(starts):
                    if s.same(d):
                        return i
                raise Unsupported(f"slice at {d} inside a segment of {ax}")
            # segments of size zero make positions ambiguous: take the widest consistent choice
            a, b = find(lo), find(hi)
            return ("take", list(range(a, b)))
        if isinstance(idx, Perm):
            return ("perm", idx)
        if isinstance(idx, (tuple, list)) and len(idx) == 1 and isinstance(idx[0], GenericElement):
            return ("perm", idx[0].perm)
        if isinstance(idx, Sel):
            return ("take", list(idx.positions))
        if isinstance(idx, (list, np.ndarray)) and len(idx) and all(isinstance(x, (Sel, slice)) for x in idx):
            pos = []
            for x in idx:
                pos += self._index_axis(gi, x)[1]
            return ("take", pos)
        if isinstance(idx, SymArr):
            raise Unsupported("index by a symbolic value")
        if isinstance(idx, Dim) and ax.segs is not None:
            return ("one", self._single(ax, idx))
        try:
            i = operator.index(idx)
        except TypeError:
            if isinstance(idx, (list, tuple, np.ndarray)) and ax.segs is None:
                return ("take", [operator.index(x) for x in idx])
            raise Unsupported(f"index {idx!r}") from None
        if ax.segs is not None:
            return ("one", self._single(ax, Dim.of(i) if i >= 0 else Dim.of(Dim.of(ax.size) + i)))
        return ("drop", range(ax.n)[i])

    @staticmethod
    def _single(ax, idx):
        """The segment of size one that starts at this position."""
        acc = Dim.of(0)
        for i, s in enumerate(ax.segs):
            if s == ("1",) and acc.same(idx):
                return i
            acc = Dim.of(acc + seg_size(s))
        raise Unsupported(f"position {idx} of {ax}")

    def _padded(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if any(x is Ellipsis for x in idx):
            k = next(i for i, x in enumerate(idx) if x is Ellipsis)
            idx = idx[:k] + (slice(None),) * (len(self.groups) - len(idx) + 1) + idx[k + 1:]
        idx = idx + (slice(None),) * (len(self.groups) - len(idx))
        if len(idx) != len(self.groups):
            raise Unsupported("too many indices")
        if sum(isinstance(x, (Perm, Sel, list, tuple)) for x in idx) > 1:
            raise Unsupported("several index arrays")
        return idx

    def _indices(self, idx):
        idx = self._padded(idx)
        return [self._index_axis(i, x) for i, x in enumerate(idx)]

    def __getitem__(self, idx):
        self._use()
        if self.is_vec:
            if isinstance(idx, tuple) and len(idx) == 1:
                idx = idx[0]
            r = self.as_row()[:, idx]
            return r if r.is_vec else r.as_vec()
        plan = self._indices(idx)
        ones = [gi for gi, p in enumerate(plan) if p[0] == "one"]
        if ones:
            if len(self.groups) != 2 or len(self.axes) != 2:
                raise Unsupported("single row of a reshaped array")
            full = [Sel(p[1]) if p[0] == "one" else x for p, x in zip(plan, self._padded(idx))]
            r = self[full[0], :][:, full[1]]
            if len(ones) == 2:
                return r
            other = 1 - ones[0]
            whole = isinstance(self._padded(idx)[other], slice) and self._padded(idx)[other] == slice(None)
            r = (r if ones == [0] else r.T).as_vec()
            if whole:  # a view
                at = plan[ones[0]][1]
                r.owner, r.base = self.owner, self
                r.into = (lambda key: (at, key[1])) if ones == [0] else (lambda key: (key[1], at))
                r.flip = ones == [1]
            return r
        padded = self._padded(idx)
        axes, groups, keymap = [], [], []
        perms = []
        for gi, p in enumerate(plan):
            g = self.groups[gi]
            if p[0] == "all":
                groups.append(tuple(range(len(axes), len(axes) + len(g))))
                for a in g:
                    axes.append(self.axes[a])
                    keymap.append((a, {i: [i] for i in range(self.axes[a].count)}))
            elif p[0] == "take":
                a = g[0]
                ax = self.axes[a]
                pos = p[1]
                new = Axis(n=len(pos)) if ax.segs is None else Axis(segs=[ax.segs[i] for i in pos])
                groups.append((len(axes),))
                axes.append(new)
                m = {}
                for j, i in enumerate(pos):
                    m.setdefault(i, []).append(j)
                keymap.append((a, m))
            elif p[0] == "perm":
                a = g[0]
                groups.append((len(axes),))
                axes.append(self.axes[a])
                keymap.append((a, {i: [i] for i in range(self.axes[a].count)}))
                perms.append((len(axes) - 1, a, p[1]))
            else:
                keymap.append((g[0], {p[1]: [None]}))
        cells = {}
        for key, b in self.cells.items():
            options = []
            for a, m in keymap:
                options.append(m.get(key[a], []))
            for combo in itertools.product(*options):
                cells[tuple(x for x in combo if x is not None)] = b
        out = type(self)(axes, cells, groups, self.kind)
        if all(p[0] != "take" or isinstance(x, slice) for p, x in zip(plan, padded)):  # otherwise a copy
            out.owner, out.base = self.owner, self
            if not perms:
                back = []
                for a, m in keymap:
                    inv = {j: i for i, js in m.items() for j in js}
                    back.append((a, inv))

                def into(key, back=back, n=len(self.axes)):
                    it, new = iter(key), [None] * n
                    for a, inv in back:
                        new[a] = inv[None] if None in inv else inv[next(it)]
                    return tuple(new)
                out.into = into
        for new_axis, _, perm in perms:
            out = out._permute(new_axis, perm)
        return out

    def _permute(self, axis, perm):
        ax = self.axes[axis]
        if ax != perm.src:
            raise Unsupported(f"permutation of {perm.src} on {ax}")
        row, col = self._matrix_axes()
        if axis not in (row, col):
            raise Unsupported("symbolic permutation of a concrete axis")
        cells = {}
        for k, b in self.cells.items():
            for (i, j), r in perm.matrix.cells.items():
                if k[axis] == i:
                    key = k[:axis] + (j,) + k[axis + 1:]
                    new = c_mul(b, r) if axis == col else c_mul(c_T(r), b)
                    cells[key] = c_add(cells.get(key, {}), new)
        axes = list(self.axes)
        axes[axis] = perm.dst
        return type(self)(axes, cells, self.groups)

    def __setitem__(self, idx, value):
        self._use()
        if self.is_vec:
            row = self.as_row()
            row[:, idx] = value
            self.cells = row.cells
            self._written()
            return
        plan = [("take", [p[1]]) if p[0] == "one" else p for p in self._indices(idx)]
        target = []
        perm = None
        for gi, p in enumerate(plan):
            g = self.groups[gi]
            if p[0] == "all":
                for a in g:
                    target.append((a, list(range(self.axes[a].count)), True))
            elif p[0] == "take":
                target.append((g[0], p[1], True))
            elif p[0] == "perm":
                raise Unsupported("assignment through a permutation")
            else:
                target.append((g[0], [p[1]], False))
        want_axes = []
        for a, pos, keep in target:
            if keep:
                ax = self.axes[a]
                want_axes.append(Axis(n=len(pos)) if ax.segs is None else Axis(segs=[ax.segs[i] for i in pos]))
        if isinstance(value, SymArr):
            value._use()
            if value.kind != "field" and self.kind == "field":
                pass  # entries are stored as they are
            if value.axes != want_axes:
                raise Unsupported(f"assignment of {value.axes} to {want_axes}")
            get = value.cells
        elif isinstance(value, int) and value == 0:
            get = {}
        elif isinstance(value, int) and all(len(a.segs or ()) == 1 and a.segs[0] == ("1",) for a in want_axes):
            get = {(0,) * len(want_axes): {((),): value}}
        else:
            raise Unsupported(f"assignment of {type(value).__name__}")
        for combo in itertools.product(*[list(enumerate(pos)) for _, pos, _ in target]):
            key = [None] * len(self.axes)
            src = []
            for (a, _, keep), (j, i) in zip(target, combo):
                key[a] = i
                if keep:
                    src.append(j)
            b = get.get(tuple(src), {})
            if b:
                self.cells[tuple(key)] = b
            else:
                self.cells.pop(tuple(key), None)
        self._written()

    # -- comparisons
    def __eq__(self, o):
        raise Unsupported("entrywise comparison")

    __hash__ = None

    def __repr__(self):
        return f"SymArr{self.axes}{ {k: show(v) for k, v in self.cells.items()} }"


def show(comb):
    def word(w):
        return "·".join(n + ("ᵀ" if t else "") for n, t in w) or "1"
    return " + ".join((f"{c}" if c != 1 else "") + "⊗".join(word(w) for w in t) for t, c in sorted(comb.items())) or "0"


# ---------------------------------------------------------------------------------------------- constructors


def matrix(cls, rows, cols, blocks, owner=None):
    """rows, cols: lists of segments (tuples of leg names or one name); blocks: {(i, j): comb or atom name}."""
    rows = [s if isinstance(s, tuple) else (s,) for s in rows]
    cols = [s if isinstance(s, tuple) else (s,) for s in cols]
    cells = {}
    for (i, j), b in blocks.items():
        if isinstance(b, str):
            if b == "1":
                if rows[i] != cols[j]:
                    raise ValueError("identity block that is not square")
                b = {tuple(() for _ in rows[i]): 1}
            else:
                t = b.endswith("'")
                b = {(((b.rstrip("'"), t),),): 1}
        cells[i, j] = b
    return cls([Axis(segs=rows), Axis(segs=cols)], cells, owner=owner)


def segments(d):
    """The segments of an axis of the given size."""
    d = Dim.of(d)
    if d.segs is not None:
        return d.segs
    if len(d.t) == 1:
        (m, c), = d.t.items()
        if 1 <= c <= 4 and len(m) == 1:
            return (m,) * c
    if not d.t:
        return ()
    raise Unsupported(f"no segments known for an axis of size {d}")


def identity(cls, segs):
    segs = [s if isinstance(s, tuple) else (s,) for s in segs]
    return cls([Axis(segs=segs), Axis(segs=segs)], {(i, i): {tuple(() for _ in s): 1} for i, s in enumerate(segs)})


def zeros(cls, rows, cols):
    return cls([Axis(segs=rows), Axis(segs=cols)], {})


def kron(a, b):
    a, b = a.flat2d(), b.flat2d()
    a._field_op() if a.kind == "field" else a._use()
    rows = [s + t for s in a.axes[0].segs for t in b.axes[0].segs]
    cols = [s + t for s in a.axes[1].segs for t in b.axes[1].segs]
    if (len(b.axes[0].segs) > 1 and len(a.axes[0].segs) >= 1 and not _unit(a.axes[0])) or \
            (len(b.axes[1].segs) > 1 and not _unit(a.axes[1])):
        # the second factor is the fast index: its segments interleave unless it has one segment
        raise Unsupported("Kronecker product with a segmented second factor")
    nb, mb = len(b.axes[0].segs), len(b.axes[1].segs)
    cells = {}
    for (i, j), x in a.cells.items():
        for (k, l), y in b.cells.items():
            cells[i * nb + k, j * mb + l] = c_kron(x, y)
    kind = "field" if "field" in (a.kind, b.kind) else "int"
    return type(a)([Axis(segs=rows), Axis(segs=cols)], cells, kind=kind)


def _unit(ax):
    return False


def stack(arrs, axis):
    if axis == 1 and all(a.is_vec for a in arrs):
        return stack([a.as_row() for a in arrs], 1).as_vec()
    arrs = [a.as_row() if a.is_vec and axis == 0 else a.flat2d() for a in arrs]
    other = 1 - axis
    ref = next((a for a in arrs if a.cells), arrs[0])
    for k, a in enumerate(arrs):  # a zero block can be cut into segments in any way
        if a.axes[other] != ref.axes[other] and not a.cells and Dim.of(a.axes[other].size).same(ref.axes[other].size):
            axes = list(a.axes)
            axes[other] = ref.axes[other]
            arrs[k] = type(a)(axes, {})
    if any(a.axes[other] != arrs[0].axes[other] for a in arrs):
        raise Unsupported(f"stacking of arrays with different segments {[a.axes[other] for a in arrs]}")
    segs, cells, off = [], {}, 0
    for a in arrs:
        for k, b in a.cells.items():
            k = list(k)
            k[axis] += off
            cells[tuple(k)] = b
        off += len(a.axes[axis].segs)
        segs += list(a.axes[axis].segs)
    axes = [None, None]
    axes[axis], axes[other] = Axis(segs=segs), arrs[0].axes[other]
    kind = "field" if all(a.kind == "field" for a in arrs) else "int"
    return type(arrs[0])(axes, cells, kind=kind)


def block_diag(arrs):
    arrs = [a.flat2d() for a in arrs]
    rows, cols, cells = [], [], {}
    for a in arrs:
        for (i, j), b in a.cells.items():
            cells[i + len(rows), j + len(cols)] = b
        rows += list(a.axes[0].segs)
        cols += list(a.axes[1].segs)
    return type(arrs[0])([Axis(segs=rows), Axis(segs=cols)], cells, kind="int")
