"""Decoders (C09): lookup tables, generalized union-find, integer programs, and decoders made of decoders."""
from __future__ import annotations

import builtins
import itertools
import operator
import types

import z3

from vf import env  # noqa: F401
from vf import lemma
from vf.harness import Ctx
from vf.sym import loops, scalar
from vf.sym.formal import Poly
from vf.sym.mat import CTX, Unsupported
from vf.sym.prove import prove
from vf.sym.scalar import SBool, SInt, assume, sym_int, term

import qldpc.decoders as D

TRUSTED = [
    "itertools: combinations(range(n), w) are the w-subsets of range(n), product(X, repeat=w) the tuples of length w over X in lexicographic order (the first one is the tuple of the first elements)",
    "galois null_space() returns vectors that span the kernel of a matrix; networkx neighbors() of a Tanner graph are the bits (checks) with a nonzero entry in the row (column) of a check (bit): proved for matrix_to_graph under C14",
    "cvxpy: problem.solve() returns a finite float only if the values of the variables satisfy the constraints and minimize the objective; boolean / integer variables have values in {0, 1} / the integers up to rounding",
    "ldpc, pymatching: the decoders behind BP-OSD, BP-LSD, BF and MWPM",
]
P_ = "qldpc.decoders."


class Any:
    """A value that is only passed on."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def sym_len(x):
    f = getattr(type(x), "sym_len", None)
    return f(x) if f else builtins.len(x)


class Shim:
    def __init__(self, base, **over):
        self.__dict__.update(over)
        self._base = base

    def __getattr__(self, k):
        return getattr(self._base, k)


# ---------------------------------------------------------------------------------------------------- lookup tables
class Range:
    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)


sym_range = Range


class Combos:
    def __init__(self, pool, r):
        self.pool, self.r = pool, r


class Prod:
    def __init__(self, pool, repeat):
        self.pool, self.repeat = pool, repeat

    def __getitem__(self, k):
        if k == slice(1, None, None) and isinstance(self.pool, Range) and isinstance(self.repeat, int):
            return Nonzero(self.pool, self.repeat)
        raise Unsupported("selection of errors")


class Nonzero:
    """All tuples over a range, except for the first one: the all-zero tuple."""

    def __init__(self, pool, repeat):
        self.pool, self.repeat = pool, repeat


class Itertools:
    combinations = staticmethod(lambda pool, r: Combos(pool, r))

    @staticmethod
    def product(*pools, repeat=1):
        if len(pools) != 1:
            raise Unsupported("product of several pools")
        return Prod(pools[0], repeat)


class Sites:
    def __init__(self, c):
        self.c = c

    def __iter__(self):
        return iter([self])


class Errors:
    """A tuple of `weight` local errors, or the array whose rows (transposed: columns) are these."""

    def __init__(self, src, t=False):
        self.src, self.t = src, t

    @property
    def T(self):
        return Errors(self.src, not self.t)


class Err:
    """An array of errors: zero, except for what was written."""

    def __init__(self, shape):
        self.shape, self.writes, self.flat = shape, [], False

    def __setitem__(self, k, v):
        self.writes.append((k, v))

    def ravel(self, *a, **k):
        if a or k:
            raise Unsupported("ravel")
        self.flat = True
        return self

    flatten = ravel

    def reshape(self, *a):
        if a in ((-1,), ((-1,),)):
            return self.ravel()
        raise Unsupported("reshape")

    def view(self, t):
        return self


class Syn:
    def __init__(self, m, e):
        self.m, self.e = m, e

    def view(self, t):
        return self

    def __iter__(self):
        return iter([self])


class Mat:
    def __init__(self, name, shape, field):
        self.name, self.shape, self.field = name, shape, field

    def __matmul__(self, e):
        if not isinstance(e, Err) or not e.flat:
            raise Unsupported("product with something else")
        return Syn(self, e)


class Table:
    def __init__(self):
        self.writes, self.first, self.absent = [], False, False

    def __setitem__(self, k, v):
        self.writes.append((k, v))
        self.first = self.absent

    def __contains__(self, k):
        r = CTX[-1].decide("the syndrome has an entry")
        self.absent = not r
        self.kept = r
        return r

    def setdefault(self, k, v):
        self.writes.append((k, v))
        self.first = True


class Field:
    def __init__(self):
        self.order = SInt("q")

    def Zeros(self, shape):
        return Err(shape)


class NP:
    def __getattr__(self, k):
        import numpy
        return getattr(numpy, k)

    @staticmethod
    def asarray(x, dtype=None):
        return x

    array = asarray

    @staticmethod
    def zeros(n, dtype=None):
        return Zeros(n)


class Zeros:
    def __init__(self, n):
        self.n, self.copied = n, False

    def copy(self):
        z = Zeros(self.n)
        z.copied = True
        return z


class Nest(loops.Loop):
    mutates = loops.ANY

    def __init__(self, s, kind):
        self.s, self.kind = s, kind

    def enter(self, it, env):
        self.s.entered(self.kind, it, env, self.roots)

    def havoc(self, env):
        self.s.obj.table = Table()
        return {}

    def item(self, env):
        return self.s.item(self.kind)

    def back(self, env):
        if self.kind == 2:
            self.s.written(CTX[-1].claims)
        CTX[-1].claims.true(True, "")

    def done(self, env):
        self.s.obj.table = Table()


class LookupState:
    def __init__(self, obj, top, n, repeat, matrix, field):
        self.obj, self.top, self.n, self.repeat, self.matrix, self.field = obj, top, n, repeat, matrix, field

    def entered(self, kind, it, env, roots):
        cl = CTX[-1].claims
        if any(env[r] is not self.obj for r in roots if r in env and not isinstance(env[r], loops.Undef)):
            raise Unsupported("the loop modifies something else")
        if kind == 0:
            if not isinstance(it, Range):
                raise Unsupported("weights")
            if it.step not in (1, -1):
                raise Unsupported("weights")
            self.step = it.step
            lo, hi = (term(it.start), term(it.stop) - 1) if it.step == 1 else (term(it.stop) + 1, term(it.start))
            cl.valid(z3.And(lo == 0, hi == term(self.top)), "all weights from zero to max_weight")
        elif kind == 1:
            if not isinstance(it, Combos) or not isinstance(it.pool, Range):
                raise Unsupported("error sites")
            cl.valid(z3.And(term(it.pool.start) == 0, term(it.pool.stop) == term(self.n), term(it.r) == self.weight.z), "all sets of `weight` sites")
        else:
            if not isinstance(it, Prod) or not isinstance(it.pool, Nonzero):
                raise Unsupported("local errors")
            cl.valid(z3.And(term(it.repeat) == self.weight.z, term(it.pool.pool.start) == 0, term(it.pool.pool.stop) == term(self.field.order)),
                     "all nonzero errors on these sites")
            cl.true(it.pool.repeat == self.repeat, "an error of a site has one entry, or an X and a Z entry")

    def item(self, kind):
        if kind == 0:
            self.weight = SInt("weight")
            assume(z3.And(self.weight.z >= 0, self.weight.z <= term(self.top)))
            return self.weight
        if kind == 1:
            self.sites = Sites(None)
            return self.sites
        self.errors = Errors(None)
        return self.errors

    def written(self, cl):
        w = self.obj.table.writes
        if getattr(self.obj.table, "kept", False) and not w:
            cl.true(self.step == 1, "an entry is kept only if its error is not heavier")
            return
        cl.true((self.step == 1) == self.obj.table.first, "entries that stay, or overwrite others, belong to the lightest errors")
        cl.true(len(w) == 1, "every error is entered once")
        k, e = w[0]
        cl.true(isinstance(e, Err) and e.flat and len(e.writes) == 1, "the entry is an error")
        sh = e.shape
        cl.true(isinstance(sh, tuple) and len(sh) == 2 and sh[0] == self.repeat, "X part, then Z part")
        cl.valid(term(sh[1]) == term(self.n), "errors have the length of a block")
        idx, val = e.writes[0]
        cl.true(isinstance(idx, tuple) and idx[0] == slice(None) and list(idx[1]) == [self.sites], "the error acts on the sites, and only there")
        cl.true(val.t and isinstance(val, Errors), "each site has its local error")
        cl.true(isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Syn) and k[0].e is e and k[0].m is self.matrix,
                "the entry stands at its syndrome (with the symplectic conjugate of the checks, if symplectic)")
        # the invariant of the table, and that an entry written in this order keeps it
        E, S = z3.DeclareSort("E"), z3.DeclareSort("S")
        syn, W = z3.Function("syn", E, S), z3.Function("W", E, z3.IntSort())
        seen, dom, tab = z3.Function("seen", E, z3.BoolSort()), z3.Function("dom", S, z3.BoolSort()), z3.Function("tab", S, E)
        e0, x, s = z3.Const("e0", E), z3.Const("x", E), z3.Const("s", S)

        def inv(seen, dom, tab, cur):
            order = (lambda w: w >= cur) if self.step == -1 else (lambda w: w <= cur)
            return z3.And(z3.ForAll([x], z3.Implies(seen(x), z3.And(dom(syn(x)), W(tab(syn(x))) <= W(x), order(W(x))))),
                          z3.ForAll([s], z3.Implies(dom(s), z3.And(syn(tab(s)) == s, seen(tab(s))))))
        cur = z3.Int("cur")
        step = z3.Implies(z3.And(inv(seen, dom, tab, cur), W(e0) == cur),
                          inv(lambda v: z3.Or(seen(v), v == e0), lambda v: z3.Or(dom(v), v == syn(e0)), lambda v: z3.If(z3.And(v == syn(e0), z3.BoolVal(True) if self.step == -1 else z3.Not(dom(v))), e0, tab(v)), cur))
        cl.valid(step, "entries explain their syndromes and are lightest among the errors that were visited")


class Codes:
    def __init__(self, field, nx):
        self.field, self.nx, self.made = field, nx, []

    def _make(self, kind, matrix):
        c = types.SimpleNamespace(kind=kind, field=self.field, matrix=Mat(kind, (SInt("r"), self.nx), self.field), arg=matrix)
        c.get_distance = self.distance
        self.made.append(c)
        return c

    def ClassicalCode(self, matrix, *a):
        return self._make("classical", matrix)

    def QuditCode(self, matrix, *a):
        return self._make("qudit", matrix)

    def distance(self, *a, **k):
        self.dist = SInt("d") if CTX[-1].decide("the distance is defined") else float("nan")
        if isinstance(self.dist, SInt):
            assume(self.dist.z >= 1)
        return self.dist


def sym_tuple(x=()):
    return x if isinstance(x, Prod) else builtins.tuple(x)


def lookup(h):
    def table(ctx, cl, F):
        symplectic = ctx.decide("symplectic")
        given = ctx.decide("max_weight is given")
        n = SInt("n")
        assume(n.z >= 1)
        field = Field()
        cs = Codes(field, SInt(2 * n.z) if symplectic else n)
        conj = []

        def conjugate(m):
            conj.append(Mat("conjugate", m.shape, field))
            conj[-1].of = m
            return conj[-1]
        obj = object.__new__(D.LookupDecoder)
        st = LookupState(obj, SInt("max_weight"), n, 2 if symplectic else 1, None, field)

        arg = Any("matrix")
        with loops.cut(D.LookupDecoder, "__init__", {0: Nest(st, 0), 1: Nest(st, 1), 2: Nest(st, 2)}):
            g = D.LookupDecoder.__init__.__globals__
            saved = g["codes"], g["symplectic_conjugate"]
            real = conjugate
            g["codes"] = cs

            def conj_(m):
                c = real(m)
                st.matrix = c
                cl.true(m is cs.made[0].matrix, "the checks are conjugated")
                return c
            g["symplectic_conjugate"] = conj_
            orig = cs._make

            def make(kind, m):
                c = orig(kind, m)
                cl.true(kind == ("qudit" if symplectic else "classical"), "the kind of code")
                cl.true(m is arg, "the code of the matrix")
                if not symplectic:
                    st.matrix = c.matrix
                return c
            cs._make = make

            def distance(*a, **k):
                d = Codes.distance(cs)
                st.top = SInt((d.z - 1) / 2) if isinstance(d, SInt) else SInt(z3.IntVal(0))
                return d
            cs.distance = distance
            try:
                obj.__init__(arg, max_weight=st.top if given else None, symplectic=symplectic)
            finally:
                g["codes"], g["symplectic_conjugate"] = saved
        cl.true(isinstance(obj.null_correction, Zeros), "no error is inferred from unknown syndromes")
        cl.valid(term(obj.null_correction.n) == term(cs.nx), "corrections have one entry for each column")
    prove(h, "the table: lightest error for every syndrome of an error of weight at most max_weight", P_ + "LookupDecoder.__init__", table, [D], plain=True,
          min_paths=12, np=NP(), itertools=Itertools, range=sym_range, tuple=sym_tuple, int=sym_int, len=sym_len,
          warnings=types.SimpleNamespace(warn=lambda *a, **k: None))

    def decode(ctx, cl, F):
        hit = ctx.decide("the syndrome is in the table")

        class Arr:
            def __init__(self, name):
                self.name, self.fresh = name, False

            def copy(self):
                a = Arr(self.name)
                a.fresh = True
                return a

        entry, null = Arr("entry"), Arr("null")

        class S:
            def view(self, t):
                return self

            def __iter__(self):
                return iter(["syndrome"])

        class T:
            asked = []

            def _check(self, k):
                cl.true(k == ("syndrome",), "the entry at the syndrome")

            def get(self, k, default=None):
                self._check(k)
                return entry if hit else default

            def __contains__(self, k):
                self._check(k)
                return hit

            def __getitem__(self, k):
                self._check(k)
                if not hit:
                    raise KeyError(k)
                return entry
        obj = object.__new__(D.LookupDecoder)
        obj.table, obj.null_correction = T(), null
        r = obj.decode(S())
        cl.true(isinstance(r, Arr) and r.name == ("entry" if hit else "null"), "the entry of the table, or no error")
        cl.true(r.fresh, "changes to an answer do not change the table")
    prove(h, "decoding looks the syndrome up and returns a copy", P_ + "LookupDecoder.decode", decode, [D], plain=True, min_paths=2)


# ------------------------------------------------------------------------------------------------ union-find decoding
class V:
    """A vector: sum of coefficient / denominator times named vectors; the sub-matrix maps it to image * (sub-syndrome)."""

    __array_ufunc__ = None

    def __init__(self, image, name="v"):
        self.image, self.name = image, name  # image: Fraction-like pair (Poly, Poly)

    def __truediv__(self, o):
        if not isinstance(o, Last):
            return NotImplemented
        return V((self.image[0], self.image[1] * o.value), self.name)

    def __add__(self, o):
        if not isinstance(o, V):
            return NotImplemented
        (a, b), (c, d) = self.image, o.image
        return V((a * d + c * b, b * d), f"{self.name}+{o.name}")

    def __neg__(self):
        return V((-self.image[0], self.image[1]), self.name)

    def __sub__(self, o):
        return self + -o if isinstance(o, V) else NotImplemented

    def copy(self):
        return V(self.image, self.name)

    def is_solution(self):
        return (self.image[0] - self.image[1]).is_zero()


class Last:
    def __init__(self, value):
        self.value = value

    def __getitem__(self, k):
        return self


class Rows:
    """Null vectors [y, c] of [a * A | b * s] with c != 0; sel: which entries; div: y / c."""

    __array_ufunc__ = None

    def __init__(self, aug, sel="all", div=False):
        self.aug, self.sel, self.div = aug, sel, div
        self.size = SInt("number of solutions")

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and self.sel == "all":
            if k[1] == -1:
                return Last(Poly("c"))
            if k[1] == slice(None, -1):
                return Rows(self.aug, "y", self.div)
        raise Unsupported("selection of solutions")

    def __truediv__(self, o):
        if self.sel != "y" or not isinstance(o, Last):
            raise Unsupported("division")
        return Rows(self.aug, "y", True)

    def arbitrary(self):
        if self.sel != "y":
            raise Unsupported("solutions with their last entry")
        a, b = self.aug.signs
        c = Poly("c")
        num = c * (-b * a)  # A y = -(b / a) c s, with a, b = 1 or -1
        return V((num, c if self.div else Poly(1)), "y")

    def sym_len(self):
        return self.size


class Null:
    """All null vectors of the augmented matrix (spanning)."""

    def __init__(self, of):
        self.of = of

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] == -1 and isinstance(self.of, Aug):
            return Col(self)
        if isinstance(k, (Where, Col)) and k.col is self or isinstance(k, Where) and k.col.null is self:
            r = Rows(self.of)
            return r
        raise Unsupported("selection of null vectors")

    def sym_len(self):
        return SInt("number of null vectors")

    def __rmatmul__(self, o):
        if not isinstance(o, Coeffs) or not isinstance(self.of, Sub):
            return NotImplemented
        return V((Poly(0), Poly(1)), "null")


class Col:
    def __init__(self, null):
        self.null = self.col = null

    def __ne__(self, o):
        if o == 0:
            return self
        raise Unsupported("comparison")


class Where:
    def __init__(self, col):
        self.col = col


class Sub:
    """code.matrix[ix_(checks, bits)] (times a sign)."""

    def __init__(self, idx, sign=1):
        self.idx, self.sign = idx, sign

    def __neg__(self):
        return Sub(self.idx, -self.sign)

    def null_space(self):
        return Null(self)


class SubSyn:
    def __init__(self, checks, sign=1):
        self.checks, self.sign = checks, sign

    def __neg__(self):
        return SubSyn(self.checks, -self.sign)


class Aug:
    def __init__(self, sub, syn):
        self.sub, self.syn, self.signs = sub, syn, (sub.sign, syn.sign)

    def view(self, t):
        return self

    def null_space(self):
        return Null(self)


class Coeffs:
    pass


class CoeffProduct:
    def __init__(self, pool, repeat):
        self.pool, self.repeat = pool, repeat

    def __next__(self):
        return Coeffs()

    def __iter__(self):
        raise Unsupported("iteration over coefficients")


class ESet:
    """The error set after some rounds of growth."""

    def __init__(self, size, prev=None):
        self.size, self.prev = size, prev
        assume(self.size.z >= 0)

    def sym_len(self):
        return self.size

    def __iter__(self):
        yield Member(self)

    def __or__(self, o):
        if not isinstance(o, Neighbours) or o.of is not self:
            raise Unsupported("growth of the error set")
        new = ESet(SInt(f"size{next(CTX[-1].fresh)}"), self)
        assume(new.size.z >= self.size.z)  # a superset
        assume(z3.Implies(self.size.z == 0, new.size.z == 0))  # nothing has no neighbours
        return new

    __ior__ = __or__


class Member:
    def __init__(self, of):
        self.of = of


class NeighbourOf:
    def __init__(self, m):
        self.m = m


class Neighbours:
    def __init__(self, of):
        self.of = of


class Bits:
    """positions with a nonzero syndrome"""

    def __iter__(self):
        yield "s"


class GufCode:
    def __init__(self, q2, n):
        self.n = n
        self.field = GufField(q2)
        self.matrix = self

    def sym_len(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, Bits):
            return BadRows()
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "ix":
            return Sub(k[1:])
        raise Unsupported("selection from the matrix")


class BadRows:
    pass


class HasSupport:
    pass


class GufField:
    def __init__(self, q2):
        self.order = 2 if q2 else SInt("q")
        if not q2:
            assume(self.order.z > 2)
        self.elements = "elements"

    def Zeros(self, n):
        return Written(n)

    def __call__(self, c):
        if not isinstance(c, Coeffs):
            raise Unsupported("field array")
        return c


class Written:
    def __init__(self, n):
        self.n, self.writes = n, []

    def __setitem__(self, k, v):
        self.writes.append((k, v))

    def view(self, t):
        return self


class GufSyndrome:
    def view(self, t):
        return self

    def __getitem__(self, k):
        if isinstance(k, Any) and k.name == "checks":
            return SubSyn(k)
        raise Unsupported("selection from the syndrome")


def union_find(h):
    seen, sign = [], [-1]

    def sym_set(it=()):
        got = list(it)
        if len(got) == 1 and isinstance(got[0], D.Node) and got[0].index == "s" and not got[0].is_data:
            e = ESet(SInt("size0"))
            CTX[-1].initial = e
            return e
        if len(got) == 1 and isinstance(got[0], NeighbourOf):
            return Neighbours(got[0].m.of)
        raise Unsupported("set")

    def sym_min(*a, key=None, **k):
        if len(a) == 1 and isinstance(a[0], Rows):
            return a[0].arbitrary()
        return builtins.min(*a, **({"key": key} if key else {}), **k)

    class Np(NP):
        @staticmethod
        def where(x):
            if isinstance(x, GufSyndrome):
                return (Bits(),)
            if isinstance(x, Col):
                return Where(x)
            raise Unsupported("where")

        @staticmethod
        def nonzero(x):
            return Np.where(x)

        @staticmethod
        def any(x, axis=None):
            if isinstance(x, BadRows) and axis == 1:
                return HasSupport()
            raise Unsupported("any")

        @staticmethod
        def all(x):
            if isinstance(x, HasSupport):
                return CTX[-1].decide("every check with a nonzero syndrome has support")
            raise Unsupported("all")

        @staticmethod
        def zeros(n, dtype=None):
            if isinstance(n, tuple):
                if builtins.len(n) == 2 and n[0] == 0:
                    return types.SimpleNamespace(size=0)
                raise Unsupported("zeros")
            return Zeros(n)

        @staticmethod
        def ix_(a, b):
            return ("ix", a, b)

        @staticmethod
        def column_stack(parts):
            a, b = parts
            if not isinstance(a, Sub) or not isinstance(b, SubSyn):
                raise Unsupported("augmented matrix")
            return Aug(a, b)

    class Tools:
        @staticmethod
        def product(pool, repeat=1):
            if pool != "elements":
                raise Unsupported("product")
            return CoeffProduct(pool, repeat)

    class Grow(loops.Loop):
        """Before each round: no solution so far, and the error set has the size that was noted; or the last round found solutions."""

        mutates = loops.ANY

        def __init__(self, st):
            self.st = st

        def enter(self, it, env):
            if self.roots - {"error_set"}:
                raise Unsupported("the loop modifies something else")
            cl = CTX[-1].claims
            cl.true(isinstance(env.get("error_set"), ESet) and env["error_set"] is CTX[-1].initial, "the search starts at the checks with a nonzero syndrome")
            cl.true(env["solutions"].size == 0 and env["last_error_set_size"] == 0, "no round has been made")

        def havoc(self, env):
            ctx = CTX[-1]
            st = self.st
            out = {}
            st.found = ctx.decide("the last round found solutions")
            e = ESet(SInt("size of the error set"))
            out["error_set"] = e
            if st.found:
                checks, bits = Any("checks"), Any("bits")
                sub = Sub((checks, bits))
                rows = Rows(Aug(sub, SubSyn(checks, sign[0])))
                assume(rows.size.z > 0)
                st.bits = bits
                out.update(checks=checks, bits=bits, sub_matrix=sub, solutions=rows, last_error_set_size=e.size)
                for k in ("sub_syndrome", "augmented_matrix", "candidate_solutions"):
                    pass
            else:
                st.first = ctx.decide("first round")
                out["solutions"] = types.SimpleNamespace(size=0)
                out["last_error_set_size"] = 0 if st.first else e.size
            st.start = e
            return {k: v for k, v in out.items()}

        def back(self, env):
            st, cl = self.st, CTX[-1].claims
            e = env["error_set"]
            cl.true(isinstance(e, ESet) and e.prev is st.start, "the error set has grown by the neighbours of its nodes")
            cl.valid(term(env["last_error_set_size"]) == e.size.z, "the size of the error set is noted")
            r = env["solutions"]
            cl.true(isinstance(r, Rows) and r.sel == "all" and r.aug.sub.idx == (env["checks"], env["bits"]) == st.asked[1:] and r.aug.syn.checks is env["checks"],
                    "solutions of the sub-problem of this round: null vectors of [A | -s] with a nonzero last entry")
            cl.true(st.asked[0] is e, "the sub-problem is that of the current error set")
            cl.true(env["sub_matrix"].idx == r.aug.sub.idx and env["sub_matrix"].sign in (1, -1), "the matrix of the sub-problem")
            seen.append(r.aug.signs[0] * r.aug.signs[1])
            if seen[-1] != sign[0] and len(set(seen)) > 1:
                raise Unsupported("the sign of the augmented matrix varies")

        def done(self, env):
            pass

    class Improve(loops.Loop):
        mutates = loops.ANY

        def __init__(self, st):
            self.st = st

        def enter(self, it, env):
            if not isinstance(it, CoeffProduct):
                raise Unsupported("coefficients")
            if self.roots:
                raise Unsupported("the loop modifies something")
            self.env0 = dict(env)
            CTX[-1].claims.true(env["min_weight_solution"].is_solution(), "the search for lighter solutions starts with a solution")

        def havoc(self, env):
            v = V((Poly(1), Poly(1)), "so far")
            out = {"min_weight_solution": v, "min_weight": self.st.weight_of(v)}
            self.before = out["min_weight"]
            return out

        def item(self, env):
            return Coeffs()

        def back(self, env):
            cl = CTX[-1].claims
            cl.true(env["min_weight_solution"].is_solution(), "a lighter vector is a solution of the same sub-problem")
            cl.valid(z3.And(term(env["min_weight"]) == self.st.weight_of(env["min_weight_solution"]).z, term(env["min_weight"]) <= self.before.z),
                     "the weight of the best solution is noted, and does not grow")

        def done(self, env):
            pass

    def decode(ctx, cl, F):
        q2, symplectic = ctx.decide("q = 2"), ctx.decide("symplectic")
        n = SInt("n")
        assume(n.z >= 1)
        obj = object.__new__(D.GUFDecoder)
        code = GufCode(q2, n)
        if q2:
            ctx.__dict__.setdefault("scalars", {})["c"] = Poly(1)  # the only nonzero scalar
        st = types.SimpleNamespace(asked=None, weights={})

        def weight_of(v):
            if id(v) not in st.weights:
                st.weights[id(v)] = (v, SInt(f"weight{next(CTX[-1].fresh)}"))
            return st.weights[id(v)][1]
        st.weight_of = weight_of

        class G:
            def neighbors(self, node):
                if not isinstance(node, Member):
                    raise Unsupported("neighbours")
                yield NeighbourOf(node)

        def indices(syndrome, error_set):
            if not isinstance(syndrome, GufSyndrome):
                raise Unsupported("sub-problem")
            st.asked = (error_set, Any("checks"), Any("bits"))
            return st.asked[1:]
        obj.code, obj.symplectic, obj.graph = code, symplectic, G()
        obj.get_weight = weight_of
        obj.get_sub_problem_indices = indices
        obj.default_max_weight = SInt("default") if ctx.decide("default max_weight") else None
        given = ctx.decide("max_weight is given")
        with loops.cut(D.GUFDecoder, "decode", {0: Grow(st), 1: Improve(st)}):
            r = obj.decode(GufSyndrome(), max_weight=SInt("given") if given else None)
        length = 2 * n.z if symplectic else n.z
        if isinstance(r, Zeros):
            cl.valid(term(r.n) == length, "the answer has one entry for each column")
            d = dict(ctx.log)
            if d.get("every check with a nonzero syndrome has support"):
                cl.true(not st.found, "no solution has been found")
                grown = st.start.size.z  # the grown set has the size that was noted
                cl.valid(z3.Or(st.start.size.z == 0, z3.BoolVal(not st.first)), "no error, or the error set is closed and its sub-problem has no solution")
            else:
                cl.true("every check with a nonzero syndrome has support" in d, "no other reason to give up")
        else:
            cl.true(isinstance(r, Written) and len(r.writes) == 1, "an error is written")
            k, v = r.writes[0]
            cl.true(k is st.bits and isinstance(v, V), "the solution is written at the bits of its sub-problem, all other entries are zero")
            cl.true(v.is_solution(), f"the sub-matrix maps the error to the sub-syndrome, and not to {v.image}")
            cl.valid(term(r.n) == length, "the answer has one entry for each column")
    args = dict(plain=True, min_paths=30, np=Np(), itertools=Tools, set=sym_set, min=sym_min, len=sym_len, int=sym_int)
    # the sign of the last column of the augmented matrix: found out in a first run, claimed in the second
    prove(Ctx("C09", "dry run", "quick", 1, h.deadline), "", "", decode, [D], **args)
    if seen and len(set(seen)) == 1:
        sign[0] = seen[0]
    prove(h, "an answer solves its sub-problem; the search gives up only if the error set is closed", P_ + "GUFDecoder.decode", decode, [D], **args)

    def indices(ctx, cl, F):
        symplectic = ctx.decide("symplectic")
        n = SInt("n")

        class Nd:
            def __init__(self, name, is_data):
                self.name, self.index, self._d = name, SInt(f"i_{name}"), is_data

            @property
            def is_data(self):
                return self._d

        w_data = ctx.decide("the node is a data node")
        W, X = Nd("W", w_data), Nd("X", not w_data)
        closed = []

        class Es:
            def __iter__(self):
                yield W

            def issuperset(self, it):
                got = list(it)
                if got != [X]:
                    raise Unsupported("issuperset")
                if not closed:
                    closed.append(CTX[-1].decide("the set contains all neighbours"))
                return closed[0]

            __ge__ = issuperset

        class G:
            def neighbors(self, node):
                if node is not W:
                    raise Unsupported("neighbours of another node")
                yield X

        class RSet:
            def __init__(self, it=()):
                self.items = list(it)

            def __or__(self, o):
                return RSet(self.items + [x for x in o.items if x not in self.items])

            __ior__ = __or__

            def union(self, *o):
                r = self
                for x in o:
                    r = r | (x if isinstance(x, RSet) else RSet(x))
                return r

            def __iter__(self):
                return iter(self.items)

        def sym_sorted(it, **k):
            return list(it)

        class Code:
            def sym_len(self):
                return n
        obj = object.__new__(D.GUFDecoder)
        obj.symplectic, obj.graph, obj.code = symplectic, G(), Code()
        saved = D.__dict__.get("set"), D.__dict__.get("sorted")
        D.set, D.sorted = RSet, sym_sorted
        try:
            checks, bits = obj.get_sub_problem_indices(None, Es())
        finally:
            for k, v in zip(("set", "sorted"), saved):
                if v is None:
                    delattr(D, k)
                else:
                    setattr(D, k, v)

        def has(xs, t):
            return z3.Or([term(x) == t for x in xs]) if xs else z3.BoolVal(False)
        if w_data:
            if closed and closed[0]:
                cl.valid(has(bits, W.index.z), "bits with all neighbours in the set are in the sub-problem")
                if symplectic:
                    cl.valid(has(bits, W.index.z + n.z), "so are their Z parts")
                cl.true(len(bits) == (2 if symplectic else 1), "nothing else")
                cl.valid(has(checks, X.index.z), "all checks of these bits are in the sub-problem")
                cl.true(len(checks) == 1, "nothing else")
            else:
                cl.true(not bits, "bits with neighbours outside of the set are not in the sub-problem")
        else:
            cl.valid(has(checks, W.index.z), "checks of the set are in the sub-problem")
            cl.true(len(checks) == 1 and not bits, "nothing else")
    prove(h, "the sub-problem: bits in the interior of the error set, their checks, and all checks of the set", P_ + "GUFDecoder.get_sub_problem_indices",
          indices, [D], plain=True, min_paths=6, len=sym_len)
    lemma.check(h, "Decoding", ("subproblem_sound", "subproblem_complete", "solution_found"))


# ------------------------------------------------------------------------------------- decoders made of other decoders
class Lin:
    """An array of integers modulo q: sum of integer multiples of named arrays. reduced: entries are in range(q)."""

    __array_ufunc__ = None

    def __init__(self, q, t, reduced=False, shape=None, kind="array"):
        self.q = q
        self.t = {k: (c % q if isinstance(q, int) else c) for k, c in t.items()}
        self.t = {k: c for k, c in self.t.items() if c}
        self.reduced, self.kind = reduced, kind

    def _join(self, o, s):
        if not isinstance(o, Lin):
            return NotImplemented
        t = dict(self.t)
        for k, c in o.t.items():
            t[k] = t.get(k, 0) + s * c
        if (self.kind == "field") != (o.kind == "field"):
            raise Unsupported("field array and plain array")
        return Lin(self.q, t, self.kind == "field", kind=self.kind)

    def __add__(self, o):
        return self._join(o, 1)

    def __sub__(self, o):
        return self._join(o, -1)

    def __mod__(self, k):
        if k != self.q or self.kind == "field":
            raise Unsupported("remainder")
        return Lin(self.q, self.t, True)

    def view(self, t):
        return Lin(self.q, self.t, self.reduced, kind="field" if t is FA or t == "field" else "array")

    def __rmatmul__(self, m):
        if not isinstance(m, Checks):
            return NotImplemented
        return Lin(self.q, {("H", k): c for k, c in self.t.items()}, m.kind == "field", kind=m.kind)


class FA:
    order = 5


class Checks:
    def __init__(self, kind):
        self.kind = kind


class FieldChecks(Checks, FA):
    def __init__(self):
        Checks.__init__(self, "field")


def derived(h):
    def direct(ctx, cl, F):
        field = ctx.decide("a field array")
        q = None if field else 2
        m = FieldChecks() if field else Checks("array")
        word = Lin(q, {"w": 1}, True)
        asked = []

        class Dec:
            def decode(self, s):
                cl.true(isinstance(s, Lin) and s.t == {("H", "w"): 1}, "the decoder is asked about the syndrome of the word")
                cl.true(s.reduced and s.kind == "array", "the syndrome is an array with entries of the field")
                asked.append(s)
                return Lin(q, {"e": 1}, True)

        class Ga:
            FieldArray = FA
        saved = D.galois
        D.galois = Ga
        global FA_VIEW
        try:
            dec = D.DirectDecoder.from_indirect(Dec(), m)
            r = dec.decode(word)
        finally:
            D.galois = saved
        cl.true(isinstance(dec, D.DirectDecoder), "a direct decoder")
        cl.true(len(asked) == 1 and isinstance(r, Lin) and r.t == Lin(q, {"w": 1, "e": -1}).t, "the inferred error is subtracted from the word")
        cl.true(r.reduced and r.kind == "array", "the answer is an array with entries of the field")
        cl.true(word.t == {"w": 1}, "the word is not changed")

    class Lf(Lin):
        pass
    old_view = Lin.view
    Lin.view = lambda self, t: Lin(self.q, self.t, self.reduced, kind="field" if isinstance(t, type) and issubclass(t, FA) else "array")
    try:
        prove(h, "words are corrected by the error that is inferred from their syndrome", P_ + "DirectDecoder.from_indirect", direct, [D], plain=True, min_paths=2)
    finally:
        Lin.view = old_view

    def block(ctx, cl, F):
        class Blocks:
            def comprehension(self, cond, elt):
                if not cond("block"):
                    raise Unsupported("selection of blocks")
                return Mapped(elt("block"))

            def __iter__(self):
                yield "block"

        class Mapped:
            def __init__(self, v):
                self.v = v

            def __iter__(self):
                yield self.v

        L = SInt("length")

        class Syndrome:
            def reshape(self, *a):
                a = a[0] if len(a) == 1 else a
                cl.true(len(a) == 2 and a[0] == -1 and a[1] is L, "one row for each code block")
                return Blocks()

        class Np:
            @staticmethod
            def concatenate(x, *a, **k):
                got = list(x)
                cl.true(got == [("correction", "block")] and not a and not k, "the corrections of all blocks, in order")
                return "all"
        dec = types.SimpleNamespace(decode=lambda s: ("correction", s))
        obj = D.BlockDecoder(L, dec)
        with loops.cut(D.BlockDecoder, "decode", {}):
            saved = D.np
            D.np = Np
            try:
                r = obj.decode(Syndrome())
            finally:
                D.np = saved
        cl.true(r == "all", "the corrections are returned")
    prove(h, "every block of the syndrome is decoded, in order", P_ + "BlockDecoder.decode", block, [D], plain=True)

    def dispatch(ctx, cl, F):
        """get_decoder passes the matrix and the arguments on to one constructor; decode() decodes with it."""
        flags = ["with_lookup", "with_GUF", "with_ILP", "with_MWPM", "with_BF", "with_BP_LSD", "with_BP_OSD"]
        which = next((f for f in flags if ctx.decide(f)), None)
        falsy = next((f for f in flags if ctx.decide(f + "=False")), None)
        nonbinary = ctx.decide("non-binary field")
        if which == "with_BP_OSD" and nonbinary:
            return  # not defined
        calls = []

        def record(name):
            def f(matrix, **kw):
                calls.append((name, matrix, kw))
                return types.SimpleNamespace(decode=lambda s: ("decoded by", name, s))
            return f
        names = ["get_decoder_lookup", "get_decoder_GUF", "get_decoder_ILP", "get_decoder_MWPM", "get_decoder_BF", "get_decoder_BP_LSD", "get_decoder_BP_OSD"]
        saved = {k: getattr(D, k) for k in names}
        m = FieldChecks() if nonbinary else Checks("array")
        ga, D.galois = D.galois, types.SimpleNamespace(FieldArray=FA)
        for k in names:
            setattr(D, k, record(k))
        kw = {"option": 7}
        if which:
            kw[which] = True
        if falsy and falsy != which:
            kw[falsy] = False
        try:
            r = D.decode(m, "syndrome", **kw)
        finally:
            D.galois = ga
            for k, v in saved.items():
                setattr(D, k, v)
        want = dict(zip(flags, names)).get(which) or ("get_decoder_GUF" if nonbinary else "get_decoder_BP_OSD")
        cl.true(len(calls) == 1 and calls[0][0] == want, f"the decoder for {kw}: {[c[0] for c in calls]}, and not {want}")
        cl.true(calls[0][1] is m, "the decoder of the given matrix")
        left = {k: v for k, v in calls[0][2].items() if k not in flags}
        cl.true(left == {"option": 7}, "arguments are passed on")
        cl.true(not calls[0][2].get(which), "flags are not")
        cl.true(r == ("decoded by", want, "syndrome"), "the syndrome is decoded")
    prove(h, "decode and get_decoder: the decoder that was asked for, with the matrix and the arguments", P_ + "get_decoder", dispatch, [D], plain=True, min_paths=16)

    def given(ctx, cl, F):
        static = ctx.decide("static decoder")
        dec = types.SimpleNamespace(decode=lambda s: ("static", s))
        got = []

        def construct(matrix, **kw):
            got.append((matrix, kw))
            return dec
        r = D.decode("matrix", "syndrome", **({"static_decoder": dec} if static else {"decoder_constructor": construct, "a": 1}))
        cl.true(r == ("static", "syndrome"), "the decoder that was given is used")
        cl.true(static or got == [("matrix", {"a": 1})], "the constructor gets the matrix and the arguments")
    prove(h, "decoders and constructors that are given are used", P_ + "get_decoder", given, [D], plain=True, min_paths=2)
    lemma.check(h, "Decoding", ("code_word_fixed", "corrected_is_word"))


# ------------------------------------------------------------------------------------------------ integer programs
class Var:
    """cvxpy variable: n entries, integer or boolean."""

    __array_ufunc__ = None

    def __init__(self, n, integer=False, boolean=False):
        self.n, self.kind = n, "boolean" if boolean else "integer" if integer else "real"

    def __iter__(self):
        yield Entry(self)

    def __ge__(self, o):
        return Con("ge", self, o)

    def __le__(self, o):
        return Con("le", self, o)

    def __rmul__(self, k):
        return Times(k, self)

    __mul__ = __rmul__

    def __rmatmul__(self, row):
        if isinstance(row, list):
            return Digits(row, self)
        return Dot(row, self)


class Entry(Var):
    def __init__(self, v):
        self.v = v


class Times:
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __ge__(self, o):
        return Con("ge", self, o)


class Dot:
    __array_ufunc__ = None

    def __init__(self, row, v):
        self.row, self.v = row, v

    def __eq__(self, o):
        return Con("eq", self, o)

    __hash__ = None


class Digits:
    __array_ufunc__ = None

    def __init__(self, row, v):
        self.row, self.v = row, v

    def __radd__(self, o):
        return Shifted(o, self)

    __add__ = __radd__


class Shifted:
    def __init__(self, s, digits):
        self.s, self.digits = s, digits


class Con:
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


PW = z3.Function("power", z3.IntSort(), z3.IntSort())


class Modulus(SInt):
    """q, with q ** k as an uninterpreted function that satisfies the recursion."""

    __slots__ = ()

    def __pow__(self, k):
        t = term(k)
        assume(z3.And(PW(0) == 1, PW(t) >= 1, PW(t + 1) == self.z * PW(t), z3.Implies(t >= 1, PW(t) == self.z * PW(t - 1))))
        return SInt(PW(t))


class PowerLoop(loops.Loop):
    mutates = ("max_power_of_q",)

    def __init__(self, st):
        self.st = st

    def enter(self, it, env):
        CTX[-1].claims.true(env.get("max_power_of_q") == 0, "digits are counted from zero")

    def havoc(self, env):
        m = SInt("m")
        assume(m.z >= 0)
        self.st.m = m
        if CTX[-1].decide("some digits"):
            assume(m.z >= 1)
            Modulus(z3.Int("q")) ** m
            assume(PW(m.z) <= term(env["max_zero"]))
        else:
            assume(m.z == 0)
        return {"max_power_of_q": m}

    def back(self, env):
        m = env["max_power_of_q"]
        CTX[-1].claims.valid(z3.And(term(m) >= 1, PW(term(m)) <= term(env["max_zero"])), "q ** (number of digits) is not larger than needed")

    def done(self, env):
        pass


class Rows2:
    """matrix: one arbitrary row"""

    def __init__(self, name):
        self.name = name


class Row:
    def __init__(self):
        self.total = SInt("row_sum")

    def __iter__(self):
        raise Unsupported("entries of a check")


def integer_programs(h):
    q = z3.Int("q")

    class Cvx:
        Variable = Var

        @staticmethod
        def norm(v, p):
            if p != 1:
                raise Unsupported("norm")
            return ("count", v)

        @staticmethod
        def Minimize(x):
            return ("minimize", x)

    class Checks_(loops.Loop):
        mutates = loops.ANY

        def __init__(self, st):
            self.st = st

        def enter(self, it, env):
            if it != "rows and syndrome bits" or {r for r in self.roots if r in env} - {"constraints"}:
                raise Unsupported(f"the loop over checks {it} {self.roots}")
            CTX[-1].claims.true(env["constraints"] == [], "no constraints before the loop")

        def havoc(self, env):
            self.st.list = env["constraints"]
            out = {}
            if "constraints" in self.st.names:
                self.st.list = out["constraints"] = []
            return out

        def item(self, env):
            self.row, self.s = Row(), SInt("s")
            self.st.row, self.st.s = self.row, self.s
            assume(z3.And(self.s.z >= 0, self.s.z < q, self.row.total.z >= 0))
            return (SInt("row_index"), (self.row, self.s))

        def back(self, env):
            self.st.claim(CTX[-1].claims, env["constraints"])

        def done(self, env):
            env["constraints"].append("all")

    def sym_sum(x, start=0):
        return x.total if isinstance(x, Row) else builtins.sum(x, start)

    class PowersOfQ(list):
        pass

    def constraints(ctx, cl, F):
        assume(q >= 2)
        obj = object.__new__(D.ILPDecoder)
        obj.modulus = Modulus(q)
        obj.matrix = Rows2("matrix")
        obj.variables = Var(SInt("n"), integer=True)
        st = types.SimpleNamespace(names={"constraints"})

        def claim(cl, cons):
            eq = [c for c in cons if c.op == "eq"]
            cl.true(len(eq) == 1, "one equation for each check")
            lhs, rhs = eq[0].a, eq[0].b
            cl.true(isinstance(lhs, Dot) and lhs.row is st.row and lhs.v is obj.variables, "the check is applied to the variables")
            m = st.m
            if isinstance(rhs, Shifted):
                dg = rhs.digits
                cl.valid(term(rhs.s) == st.s.z, "the value is the syndrome, modulo q")
                cl.true(isinstance(dg.row, PowersOfQ) or isinstance(dg.row, Powers), "powers of q")
                slack = dg.v
                bounds = [c for c in cons if c.a is slack]
                cl.true(slack.kind == "integer" and sorted(c.op for c in bounds) == ["ge", "le"] and len(cons) == 3, "the digits are bounded integers")
                for c in bounds:
                    cl.valid(term(c.b) == (0 if c.op == "ge" else q - 1), "digits are in range(q)")
                cl.valid(term(slack.n) == m.z, "one digit for each power")
                cl.valid(z3.And(term(dg.row.lo) == 1, term(dg.row.hi) == m.z), "powers q, ..., q^m: the slack is a multiple of q")
            else:
                cl.valid(term(rhs) == st.s.z, "the value is the syndrome")
                cl.true(len(cons) == 1, "no other constraints")
                cl.valid(m.z == 0, "no digits are needed")
            # complete: every solution v of check . v = s mod q with entries in range(q) satisfies the equation for some digits
            v = z3.Int("value")
            cl.valid(z3.Implies(z3.And(v >= 0, v <= st.row.total.z * (q - 1), (v - st.s.z) % q == 0),
                                z3.And(v - st.s.z >= 0, v - st.s.z < PW(m.z + 1))), "the slack of a solution is a multiple of q with at most m + 1 digits")
        st.claim = claim

        class Powers:
            def __init__(self, lo, hi):
                self.lo, self.hi = lo, hi

        class PowerRange:
            def __init__(self, lo, hi):
                self.lo, self.hi = lo, hi

            def comprehension(self, cond, elt):
                j = SInt("j")
                e = elt(j)
                if cond(j) is not True:
                    raise Unsupported("selection of powers")
                if not isinstance(e, SInt):
                    raise Unsupported("powers")
                CTX[-1].claims.valid(e.z == PW(j.z), "powers of q")
                p = PowersOfQ([0])
                p.lo, p.hi = self.lo, self.hi - 1
                return p

        class Np:
            @staticmethod
            def asarray(x, dtype=None):
                return x

        class Syn:
            def __mod__(self, k):
                CTX[-1].claims.valid(term(k) == q, "the syndrome is taken modulo q")
                return "syndrome"

        def rng(*a):
            if len(a) == 2 and isinstance(a[1], SInt):
                return PowerRange(*a)
            return builtins.range(*a)

        def sym_zip(a, b, **k):
            if a is obj.matrix and b == "syndrome":
                return "zip"
            raise Unsupported("zip")

        def sym_enumerate(x):
            if x == "zip":
                return "rows and syndrome bits"
            return builtins.enumerate(x)
        with loops.cut(D.ILPDecoder, "cvxpy_constraints_for_syndrome", {0: Checks_(st), 1: PowerLoop(st)}):
            over = dict(np=Np, cvxpy=Cvx, range=rng, zip=sym_zip, enumerate=sym_enumerate, sum=sym_sum, int=sym_int)
            miss = object()
            saved = {k: D.__dict__.get(k, miss) for k in over}
            D.__dict__.update(over)
            try:
                r = obj.cvxpy_constraints_for_syndrome(Syn())
            finally:
                for k, v in saved.items():
                    if v is miss:
                        del D.__dict__[k]
                    else:
                        D.__dict__[k] = v
        cl.true(r[-1:] == ["all"], "the constraints of all checks")
    prove(h, "integer program: one equation for each check that all solutions, and only solutions, satisfy", P_ + "ILPDecoder.cvxpy_constraints_for_syndrome",
          constraints, [D], plain=True, min_paths=4)
    lemma.check(h, "Decoding", ("digits",))


def programs(h):
    def init(ctx, cl, F):
        field = ctx.decide("a field array")
        odd = ctx.decide("q != 2") if field else False
        q = SInt("q") if odd else 2
        if odd:
            assume(q.z >= 3)
        prime = ctx.decide("q is prime") if odd else True

        class M:
            shape = (SInt("r"), SInt("n"))

            def __mod__(self, k):
                cl.valid(term(k) == term(q), "entries modulo q")
                r = M()
                r.reduced = True
                return r

        class FM(M, FA):
            order = q
        m = FM() if field else M()

        class Np:
            @staticmethod
            def asarray(x, dtype=None):
                return x

        class Cvx:
            made = []

            @staticmethod
            def Variable(n, **k):
                v = Var(n, **k)
                Cvx.made.append(v)
                return v

            norm = staticmethod(lambda v, p: ("count", v, p))
            Minimize = staticmethod(lambda x: ("minimize", x))
        ga = types.SimpleNamespace(FieldArray=FA, is_prime=lambda x: prime)
        over = dict(np=Np, cvxpy=Cvx, galois=ga)
        saved = {k: D.__dict__[k] for k in over}
        D.__dict__.update(over)
        try:
            obj = D.ILPDecoder(m, option=3)
        except ValueError:
            cl.true(not prime, "prime fields are supported")
            return
        finally:
            D.__dict__.update(saved)
        cl.true(prime, "other fields are rejected")
        cl.valid(term(obj.modulus) == term(q), "the order of the field")
        cl.true(getattr(obj.matrix, "reduced", False), "the matrix with reduced entries")
        cl.true(obj.decoder_args == {"option": 3}, "arguments of the solver")
        x = obj.variables
        cl.valid(term(x.n) == M.shape[1].z, "one variable for each column")
        cl.true(obj.objective[0] == "minimize" and obj.objective[1][0] == "count" and obj.objective[1][2] == 1, "the objective is a count")
        counted = obj.objective[1][1]
        if not odd:
            cl.true(x.kind == "boolean" and counted is x and not obj.variable_constraints, "bits; the number of ones is minimized")
            return
        flags = counted
        cl.true(x.kind == "integer" and flags.kind == "boolean" and flags is not x, "a flag for each variable; the number of flags is minimized")
        cl.valid(term(flags.n) == M.shape[1].z, "one flag for each variable")
        cons = obj.variable_constraints
        lo = [c for c in cons if c.op == "ge" and isinstance(c.a, Entry) and c.a.v is x or c.op == "ge" and c.a is x]
        hi = [c for c in cons if c.op == "le" and (c.a is x or isinstance(c.a, Entry) and c.a.v is x)]
        fl = [c for c in cons if c.op == "ge" and isinstance(c.a, Times) and c.a.v is flags and c.b is x]
        cl.true(len(lo) == len(hi) == len(fl) == 1 and len(cons) == 3, "bounds of the variables, and flags that are raised by nonzero variables")
        v, f = z3.Ints("v f")
        allowed = z3.And(v >= term(lo[0].b), v <= term(hi[0].b), f >= 0, f <= 1, term(fl[0].a.k) * f >= v)
        cl.valid(z3.Implies(z3.And(v >= 0, v < term(q)), z3.And(z3.substitute(allowed, (f, z3.If(v != 0, z3.IntVal(1), z3.IntVal(0)))),
                                                                z3.Implies(z3.And(allowed, v != 0), f == 1))), "entries in range(q) are allowed, with a flag exactly if needed")
        cl.valid(z3.Implies(allowed, z3.And(v >= 0, v < term(q))), "nothing else is allowed")
    prove(h, "integer program: variables are entries of the field, the objective is the weight", P_ + "ILPDecoder.__init__", init, [D], plain=True, min_paths=4, int=sym_int)

    def decode(ctx, cl, F):
        ok = ctx.decide("the solver finds an optimum")
        how = ctx.decide("status as text") if not ok else None
        obj = object.__new__(D.ILPDecoder)

        class Vals:
            def astype(self, t):
                cl.true(False, "values are truncated")

        class Rounded:
            def astype(self, t):
                return ("rounded", "values")
        vals = Vals()
        obj.variable_constraints, obj.objective, obj.decoder_args = ["bounds"], "objective", {"option": 3}
        obj.variables = types.SimpleNamespace(value=vals)
        obj.cvxpy_constraints_for_syndrome = lambda s: ["equations", s]
        calls = []

        class Problem:
            def __init__(self, objective, constraints):
                calls.append((objective, list(constraints)))

            def solve(self, **kw):
                calls.append(kw)
                return 2.0 if ok else "infeasible" if how else float("inf")
        import numpy
        over = dict(np=Shim(numpy, round=lambda x, *a: Rounded() if x is vals else None, rint=lambda x: Rounded()), cvxpy=types.SimpleNamespace(Problem=Problem))
        saved = {k: D.__dict__[k] for k in over}
        D.__dict__.update(over)
        try:
            r = obj.decode("s")
        except ValueError:
            cl.true(not ok, "an optimum is returned")
            return
        finally:
            D.__dict__.update(saved)
        cl.true(ok, "failures are reported")
        cl.true(calls[0] == ("objective", ["bounds", "equations", "s"]) and calls[1] == {"option": 3}, "the program has all constraints")
        cl.true(obj.variable_constraints == ["bounds"], "the decoder is not changed")
        cl.true(r == ("rounded", "values"), "the optimum, rounded to integers")
    prove(h, "integer program: the optimum is returned, failures are reported", P_ + "ILPDecoder.decode", decode, [D], plain=True, min_paths=3)
