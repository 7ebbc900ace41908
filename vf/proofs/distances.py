"""Exact distances (C04): machine-word kernels, the enumeration of operators, and the methods that use them."""
from __future__ import annotations

import types

import numpy
import z3

from vf import env  # noqa: F401
from vf.sym import loops, mat, scalar, shim
from vf.sym.mat import CTX, Dim, Unsupported
from vf.sym.prove import M, prove
from vf.sym.scalar import SBool, SInt, assume, term

from qldpc import codes
from qldpc.codes import distance as D

TRUSTED = [
    "z3 (64-bit vectors, linear integer arithmetic)",
    "numpy: right_shift, subtract, multiply, bitwise operators and sums of uint64 arrays act entrywise modulo 2^64, and write to `out` if it is given",
    "np.bitwise_count counts the bits of a word that are 1; numba.vectorize compiles the scalar function that it is given",
    "loop counters of the distance enumeration stay below 2^63",
]
P = "qldpc.codes.distance."
BITS = 64


def bv(v):
    return z3.BitVecVal(int(v), BITS)


def word(x):
    if isinstance(x, Word):
        return x.v
    if isinstance(x, (int, numpy.integer)):
        return bv(x)
    return None


class Word:
    """An entry (any one) of an array of 64-bit words. `owner`: the caller's array that it belongs to, if any."""

    __array_ufunc__ = None

    def __init__(self, v, owner=None):
        self.v, self.owner = v, owner

    def _new(self, o, f):
        w = word(o)
        return NotImplemented if w is None else Word(f(self.v, w))

    def _set(self, o, f):
        w = word(o)
        if w is None:
            return NotImplemented
        return put(self, f(self.v, w))

    def __rshift__(self, o):
        return self._new(o, z3.LShR)

    def __lshift__(self, o):
        return self._new(o, lambda a, b: a << b)

    def __and__(self, o):
        return self._new(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._new(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._new(o, lambda a, b: a ^ b)

    def __add__(self, o):
        return self._new(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._new(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._new(o, lambda a, b: a * b)

    __rand__, __ror__, __rxor__, __radd__, __rmul__ = __and__, __or__, __xor__, __add__, __mul__

    def __invert__(self):
        return Word(~self.v)

    def __neg__(self):
        return Word(-self.v)

    def __irshift__(self, o):
        return self._set(o, z3.LShR)

    def __iand__(self, o):
        return self._set(o, lambda a, b: a & b)

    def __ior__(self, o):
        return self._set(o, lambda a, b: a | b)

    def __ixor__(self, o):
        return self._set(o, lambda a, b: a ^ b)

    def __iadd__(self, o):
        return self._set(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._set(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._set(o, lambda a, b: a * b)

    def bit_length(self):
        n = bv(0)
        for i in range(BITS):
            n = z3.If(z3.Extract(i, i, self.v) == 1, bv(i + 1), n)
        return Word(n)

    def __bool__(self):
        raise Unsupported("truth value of a word")

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of words")


def put(cell, v):
    if cell.owner is not None:
        CTX[-1].frame.append(cell.owner)
    cell.v = v
    return cell


def ufunc(f):
    def run(a, b=None, /, out=None, **kw):
        if kw:
            raise Unsupported(f"arguments {kw}")
        args = [word(x) for x in ((a,) if b is None else (a, b))]
        if any(x is None for x in args):
            raise Unsupported("a word operation on something else")
        r = f(*args)
        return Word(r) if out is None else put(out, r)
    return run


def popcount(v):
    n = bv(0)
    for i in range(BITS):
        n = n + z3.ZeroExt(BITS - 1, z3.Extract(i, i, v))
    return n


def pairs(v):
    """Number of qubits in the support: bits 2i and 2i+1 belong to the same qubit."""
    n = bv(0)
    for i in range(0, BITS, 2):
        n = n + z3.ZeroExt(BITS - 1, z3.Extract(i, i, v) | z3.Extract(i + 1, i + 1, v))
    return n


def count_bits(a, /, out=None):
    r = popcount(word(a))
    return Word(r) if out is None else put(out, r)


NP = shim.Shim(numpy, right_shift=ufunc(z3.LShR), left_shift=ufunc(lambda a, b: a << b), subtract=ufunc(lambda a, b: a - b),
               add=ufunc(lambda a, b: a + b), multiply=ufunc(lambda a, b: a * b), bitwise_and=ufunc(lambda a, b: a & b),
               bitwise_or=ufunc(lambda a, b: a | b), bitwise_xor=ufunc(lambda a, b: a ^ b), bitwise_count=count_bits)


def kernels(h):
    spec = {"hamming": popcount, "symplectic": pairs}

    def single(kind):
        def body(ctx, c, F):
            v = z3.BitVec("v", BITS)
            cell = Word(v, owner="argument")
            r = getattr(D, f"_{kind}_weight_single")(cell)
            c.valid(r.v == spec[kind](v), f"the {kind} weight")
            c.valid(cell.v == v, "the argument is kept")
            c.untouched()
        return body

    def buffered(kind, get):
        def body(ctx, c, F):
            v = z3.BitVec("v", BITS)
            cell = Word(v, owner="argument")
            if get is None:
                fn, nbuf = getattr(D, f"_{kind}_weight"), 1
            else:
                fn, nbuf = getattr(D, f"_get_{kind}_weight_fn")()
            bufs = [Word(z3.BitVec(f"buf{i}", BITS)) for i in range(nbuf)] if nbuf and ctx.decide("buffers given") else []
            out = Word(z3.BitVec("out", BITS)) if ctx.decide("out given") else None
            r = fn(cell, *bufs, out=out) if bufs or out is not None else fn(cell)
            c.valid(r.v == spec[kind](v), f"the {kind} weight")
            c.valid(cell.v == v, "the argument is kept")
            c.true(out is None or r is out, "the result is written to `out`")
            c.true(r is not cell and all(r is not b for b in bufs), "the result is neither the argument nor a buffer")
            c.untouched()
        return body

    for kind in ("hamming", "symplectic"):
        prove(h, f"{kind} weight of a word", f"{P}_{kind}_weight_single", single(kind), [D], plain=True, np=NP)
        prove(h, f"{kind} weight of the words of an array", f"{P}_{kind}_weight", buffered(kind, None), [D], plain=True, np=NP, min_paths=4)
        prove(h, f"{kind} weight function in use", f"{P}_get_{kind}_weight_fn", buffered(kind, 1), [D], plain=True, np=NP, min_paths=2)

    def probe(ctx, c, F):
        v = z3.BitVec("v", BITS)
        c.valid(D._hamming_weight_single(Word(v)).v != bv(64), "probe")

    prove(h, "no word has weight 64", f"{P}_hamming_weight_single", probe, [D], plain=True, np=NP, expect="fail")

    def trailing(ctx, c, F):
        v = z3.BitVec("v", BITS)
        assume(z3.And(v != 0, z3.Extract(BITS - 1, BITS - 1, v) == 0))
        r = D._count_trailing_zeros(Word(v)).v
        c.valid(z3.And(z3.ULT(r, bv(BITS)), (bv(1) << r) == (v & -v)), "the position of the lowest bit that is 1")

    prove(h, "count of trailing zeros", f"{P}_count_trailing_zeros", trailing, [D], plain=True, np=NP)

    def rowsum(ctx, c, F):
        w = SInt("width")
        assume(w.z >= 1)
        arr = Row(w, {("entry",): 1})
        with loops.cut(D, "_inplace_rowsum", {0: Halving(c, arr)}):
            r = D._inplace_rowsum(arr)
        c.true(isinstance(r, First), "one entry of each row")
        c.valid(r.row.width.z == 1, "the sum is in the first entry")
        c.true(r.row.total() == {"total": 1}, "which is the sum of the row")

    prove(h, "sum of a row", f"{P}_inplace_rowsum", rowsum, [D], plain=True, min_paths=2)


class First:
    def __init__(self, row):
        self.row = row


class Row:
    """Part of the rows of an array of words: `width` entries, as consecutive pieces of given lengths with formal contents."""

    shape = property(lambda self: Shape(self))

    def __init__(self, width, pieces):
        self.width = width
        self.pieces = None

    def start(self, width, pieces):
        """The first `width` entries are these pieces [(length, {piece: multiplicity})]."""
        self.width, self.pieces = width, pieces

    def total(self):
        out = {}
        for _, p in self.pieces:
            for k, v in p.items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}

    def _find(self, i):
        """Position i as a boundary between pieces."""
        at = z3.IntVal(0)
        for j in range(len(self.pieces) + 1):
            if scalar.implied(at == term(i)):
                return j
            if j < len(self.pieces):
                at = at + term(self.pieces[j][0])
        raise Unsupported(f"position {i} is not a boundary of the pieces that are described")

    def _key(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] is Ellipsis):
            raise Unsupported("index")
        return k[1]

    def __getitem__(self, k):
        k = self._key(k)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("step")
            a, b = self._find(k.start or 0), self._find(k.stop)
            return Pieces(self.pieces[a:b])
        if k == 0:
            return First(self)
        raise Unsupported("index")

    def __setitem__(self, k, v):
        k = self._key(k)
        a, b = self._find(k.start or 0), self._find(k.stop)
        if not isinstance(v, Pieces) or len(v.p) != b - a:
            raise Unsupported("assignment")
        self.pieces = self.pieces[:a] + v.p + self.pieces[b:]


class Pieces:
    def __init__(self, p):
        self.p = p

    def __iadd__(self, o):
        if len(self.p) != len(o.p) or not all(scalar.implied(term(x[0]) == term(y[0])) for x, y in zip(self.p, o.p)):
            raise Unsupported("sum of pieces with different lengths")
        out = []
        for (n, x), (_, y) in zip(self.p, o.p):
            out.append((n, {k: x.get(k, 0) + y.get(k, 0) for k in {**x, **y}}))
        return Pieces(out)

    __add__ = __iadd__


class Shape:
    def __init__(self, row):
        self.row = row

    def __getitem__(self, k):
        if k != -1:
            raise Unsupported("shape")
        return self.row.width


class Halving(loops.Loop):
    """Invariant: the sum of the first `width` entries is the sum of the row, and width >= 1."""

    mutates = ("arr", "width")

    def __init__(self, c, arr):
        self.c, self.arr = c, arr

    def enter(self, it, env):
        self.c.true(env["arr"] is self.arr and env["width"] is self.arr.width, "starts with all entries")

    def havoc(self, env):
        w = SInt("w")
        assume(w.z >= 1)
        half = SInt(w.z / 2)
        if scalar.decide(w.z == 1):
            self.arr.start(w, [(1, {"total": 1})])
        elif scalar.decide(w.z % 2 == 0):  # the sum of the pieces is the total
            self.arr.start(w, [(half, {"a": 1}), (half, {"total": 1, "a": -1})])
        else:
            self.arr.start(w, [(half, {"a": 1}), (1, {"b": 1}), (half, {"total": 1, "a": -1, "b": -1})])
        self.w = w
        return {"width": w}

    def back(self, env):
        w = env["width"]
        self.c.valid(z3.And(term(w) >= 1, term(w) < self.w.z), "the width decreases and stays positive")
        j = self.arr._find(w)
        self.arr.pieces = self.arr.pieces[:j]
        self.c.true(self.arr.total() == {"total": 1}, "the sum of the first entries is the sum of the row")

    def done(self, env):
        pass


# ---- the enumeration


class Pow2:
    """2 ** e"""

    def __init__(self, e):
        self.e = e


class Num(SInt):
    """A number that may be an exponent of 2."""

    __slots__ = ()

    def __rpow__(self, o):
        if o != 2:
            raise Unsupported("power")
        return Pow2(self)

    def _op(self, o, f, swap=False):
        r = SInt._op(self, o, f, swap)
        return r if r is NotImplemented else Num(r.z)


def clip(k, n):
    """Python's end of a slice [:k] of a sequence of length n."""
    return z3.If(k >= 0, z3.If(k <= n, k, n), z3.If(n + k >= 0, n + k, z3.IntVal(0)))


class Ops:
    """The packed generators number start, ..., stop - 1 of a kind."""

    def __init__(self, kind, start, stop, words):
        self.kind, self.start, self.stop, self.words = kind, start, stop, words

    def size(self):
        return Num(z3.simplify(self.stop - self.start))

    @property
    def shape(self):
        return (self.size(), self.words)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            n = self.stop - self.start
            a = z3.IntVal(0) if k.start is None else clip(term(k.start), n)
            b = n if k.stop is None else clip(term(k.stop), n)
            return Ops(self.kind, z3.simplify(self.start + a), z3.simplify(self.start + z3.If(b >= a, b, a)), self.words)
        if isinstance(k, Lowest):
            # position k of the list: its coefficient is the bit that k stands for
            count = CTX[-1].exponents[self.kind]
            CTX[-1].claims.valid(z3.ULT(k.bit, bv(1) << count), f"index into the {self.kind} generators is in range")
            CTX[-1].claims.valid(self.start == CTX[-1].rest[self.kind][0], f"the remaining {self.kind} generators are enumerated")
            return Op(self.kind, bit=k.bit)
        raise Unsupported("index of generators")


class Op:
    def __init__(self, kind, index=None, bit=None):
        self.kind, self.index, self.bit = kind, index, bit


class Lowest:
    """Position of the lowest 1 of a word (contract of _count_trailing_zeros)."""

    def __init__(self, bit):
        self.bit = bit


class Span:
    """All combinations of stabilizers 0..s-1 (low bits of the row number) and logical operators 0..l-1 (high bits), plus an offset."""

    def __init__(self, s, l, plus=None):
        self.s, self.l, self.plus = s, l, plus

    def __xor__(self, o):
        if not isinstance(o, Op) or self.plus is not None or o.index is None:
            raise Unsupported("xor")
        return Span(self.s, self.l, o)


class Words:
    """A Span, shifted in place by combinations (as masks) of the remaining logical operators and stabilizers."""

    def __init__(self, span, L, S):
        self.span, self.L, self.S = span, L, S

    def __ixor__(self, o):
        if not isinstance(o, Op) or o.bit is None:
            raise Unsupported("xor")
        if o.kind == "logical":
            self.L = self.L ^ o.bit
        else:
            self.S = self.S ^ o.bit
        return self

    def __getitem__(self, k):
        if not (isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, Pow2)):
            raise Unsupported("rows of the operational array")
        e, s, l = term(k.start.e), self.span.s, self.span.l
        CTX[-1].claims.valid(z3.And(self.L == 0, self.S == 0), "before any shift")
        # rows r >= 2^e: if e = s, those with a logical operator; empty if e >= s + l
        CTX[-1].claims.valid(z3.Or(e == s, z3.And(l == 0, e >= s)), "rows from 2^e on are those that involve a logical operator")
        return Rows(self)


class Rows:
    def __init__(self, words):
        self.words = words


class Weights:
    def __init__(self, of, counted=None):
        self.of, self.summed = of, False

    def astype(self, dtype):
        if dtype is not numpy.uint:
            raise Unsupported("a type of weights")
        w = Weights(self.of)
        w.wide = True
        return w

    wide = False


class Sums:
    """Weights of the operators in the rows."""

    def __init__(self, of):
        self.of = of

    def min(self, initial=None):
        ctx = CTX[-1]
        if isinstance(initial, MinVal):
            low = initial
        elif isinstance(initial, SInt):
            ctx.claims.true(initial is ctx.num_bits, "the minimum starts from the number of bits")
            low = MinVal(lambda l, s: z3.BoolVal(False), False)
        else:
            raise Unsupported("initial value of a minimum")
        if isinstance(self.of, Rows):
            return MinVal(low.seen, True)
        w = self.of
        ctx.claims.valid(w.L != 0, "only operators that involve a logical operator are counted")
        L, S, seen = w.L, w.S, low.seen
        return MinVal(lambda l, s: z3.Or(seen(l, s), z3.And(l == L, s == S)), low.first)


class MinVal:
    """The minimum over rows that were counted: seen(l, s) tells whether the whole span was counted with these shifts."""

    def __init__(self, seen, first):
        self.seen, self.first = seen, first

    def __int__(self):
        raise Unsupported("int of a minimum")


def gray(x):
    return x ^ z3.LShR(x, 1)


def gray_inverse(x):
    for k in (1, 2, 4, 8, 16, 32):
        x = x ^ z3.LShR(x, k)
    return x


class Enumerate(loops.Loop):
    """Vectorized part: after i generators, the array holds all combinations of them, in binary order."""

    def __init__(self, kind):
        self.kind = kind

    def enter(self, it, env):
        c = CTX[-1].claims
        if not isinstance(it, Ops) or it.kind != self.kind:
            raise Unsupported("the loop is not over generators of the expected kind")
        self.it = it
        self.base = env["array"]
        if not isinstance(self.base, Span):
            raise Unsupported("array")
        c.valid(it.start == (self.base.s if self.kind == "stabilizer" else self.base.l), "starts from the first generator that is not yet included")
        if self.kind == "stabilizer":
            c.valid(self.base.l == 0, "stabilizers come first")

    def havoc(self, env):
        i = self.i = z3.Int(f"i_{self.kind}")
        assume(z3.And(0 <= i, i <= self.it.stop - self.it.start))
        b = self.base
        return {"array": Span(b.s + i, b.l) if self.kind == "stabilizer" else Span(b.s, b.l + i)}

    def more(self, env):
        return scalar.decide(self.i < self.it.stop - self.it.start)

    def item(self, env):
        return Op(self.kind, index=self.it.start + self.i)

    def back(self, env):
        a, b, c = env["array"], self.base, CTX[-1].claims
        if not isinstance(a, Span) or a.plus is not None:
            raise Unsupported("array")
        want = (b.s + self.i + 1, b.l) if self.kind == "stabilizer" else (b.s, b.l + self.i + 1)
        c.valid(z3.And(a.s == want[0], a.l == want[1]), "one generator is added")


class Outer(loops.Loop):
    """Invariant at li: the shift is gray(li - 1) for logical operators and some combination of stabilizers;
    all combinations with gray(j), 0 < j < li, have been counted."""

    mutates = ("arrayf", "out", "bufs")

    def enter(self, it, env):
        c, ctx = CTX[-1].claims, CTX[-1]
        if not (isinstance(it, tuple) and it[0] == "range" and it[1] == 1 and isinstance(it[2], Pow2)):
            raise Unsupported("the outer loop is not over range(1, 2**k)")
        w, m = env["arrayf"], env["min_weight"]
        self.words, self.span = w, w.span
        s, l = self.span.s, self.span.l
        rest_s, rest_l = env["int_stabilizers"], env["int_logical_ops"]
        c.valid(z3.And(rest_s.start == s, rest_s.stop == ctx.counts["stabilizer"], s <= rest_s.stop), "every stabilizer is either vectorized or enumerated")
        c.valid(z3.And(rest_l.start == l, rest_l.stop == ctx.counts["logical"], l <= rest_l.stop), "every logical operator is either vectorized or enumerated")
        c.valid(z3.Implies(l > 0, rest_s.start == rest_s.stop), "logical operators are vectorized only if all stabilizers are")
        c.true(m.first, "vectorized logical operators have been counted")
        c.valid(term(it[2].e) == rest_l.stop - rest_l.start, "as many steps as there are combinations of the remaining logical operators")
        c.valid(z3.And(w.L == 0, w.S == 0), "no shift yet")
        # sizes of the remaining lists, as words
        k, m_ = z3.BitVecs("k m", BITS)
        ctx.exponents = {"logical": k, "stabilizer": m_}
        ctx.rest = {"logical": (rest_l.start, rest_l.stop), "stabilizer": (rest_s.start, rest_s.stop)}
        assume(z3.And(z3.ULT(k, 63), z3.ULT(m_, 63)))
        # the element that must be counted
        ctx.goal = z3.BitVecs("l0 s0", BITS)
        l0, s0 = ctx.goal
        assume(z3.And(l0 != 0, z3.ULT(l0, bv(1) << k), z3.ULT(s0, bv(1) << m_)))

    def havoc(self, env):
        ctx = CTX[-1]
        li, sigma = z3.BitVecs("li sigma", BITS)
        k, m = ctx.exponents["logical"], ctx.exponents["stabilizer"]
        assume(z3.And(z3.UGE(li, 1), z3.ULE(li, bv(1) << k), z3.ULT(sigma, bv(1) << m)))
        seen = z3.Function("seen", z3.BitVecSort(BITS), z3.BitVecSort(BITS), z3.BoolSort())
        l0, s0 = ctx.goal
        j0 = gray_inverse(l0)
        assume(z3.Implies(z3.ULT(j0, li), seen(l0, s0)))  # instance of the invariant for the element that must be counted
        self.li = ctx.li = li
        ctx.sigma = sigma
        self.minimum = MinVal(lambda l, s: seen(l, s), True)
        self.words_now = Words(self.span, gray(li - 1), sigma)
        return {"arrayf": self.words_now, "min_weight": self.minimum}

    def more(self, env):
        return scalar.decide(z3.ULT(self.li, bv(1) << CTX[-1].exponents["logical"]))

    def item(self, env):
        return Word(self.li)

    def back(self, env):
        ctx, c = CTX[-1], CTX[-1].claims
        w, m = env["arrayf"], env["min_weight"]
        l0, s0 = ctx.goal
        c.true(w.span is self.span, "the same span")
        c.valid(w.L == gray(self.li), "the shift by logical operators is the next Gray code")
        c.valid(z3.ULT(w.S, bv(1) << ctx.exponents["stabilizer"]), "the shift by stabilizers is a combination of them")
        c.valid(z3.Implies(z3.ULT(gray_inverse(l0), self.li + 1), m.seen(l0, s0)), "all combinations up to this step have been counted")


class Inner(loops.Loop):
    """Invariant at si: the shift by stabilizers is sigma + gray(si - 1); sigma + gray(t) was counted for all t < si."""

    mutates = ("arrayf", "out", "bufs")

    def enter(self, it, env):
        ctx, c = CTX[-1], CTX[-1].claims
        if not (isinstance(it, tuple) and it[0] == "range" and it[1] == 1 and isinstance(it[2], Pow2)):
            raise Unsupported("the inner loop is not over range(1, 2**m)")
        rest = ctx.rest["stabilizer"]
        c.valid(term(it[2].e) == rest[1] - rest[0], "as many steps as there are combinations of the remaining stabilizers")
        w, m = env["arrayf"], env["min_weight"]
        self.L, self.sigma, self.span, self.before = w.L, w.S, w.span, m
        c.valid(z3.ULT(self.sigma, bv(1) << ctx.exponents["stabilizer"]), "the shift is a combination of stabilizers")
        c.valid(z3.Or(m.seen(self.L, self.sigma)), "the first combination has been counted")

    def havoc(self, env):
        ctx = CTX[-1]
        si = self.si = z3.BitVec("si", BITS)
        m = ctx.exponents["stabilizer"]
        assume(z3.And(z3.UGE(si, 1), z3.ULE(si, bv(1) << m)))
        seen = z3.Function("seen2", z3.BitVecSort(BITS), z3.BitVecSort(BITS), z3.BoolSort())
        l0, s0 = ctx.goal
        t0 = self.t0 = gray_inverse(s0 ^ self.sigma)
        assume(z3.Implies(self.before.seen(l0, s0), seen(l0, s0)))  # nothing is forgotten
        assume(z3.Implies(z3.And(l0 == self.L, z3.ULT(t0, si)), seen(l0, s0)))  # instances of the invariant
        return {"arrayf": Words(self.span, self.L, self.sigma ^ gray(si - 1)), "min_weight": MinVal(lambda l, s: seen(l, s), True)}

    def more(self, env):
        return scalar.decide(z3.ULT(self.si, bv(1) << CTX[-1].exponents["stabilizer"]))

    def item(self, env):
        return Word(self.si)

    def back(self, env):
        ctx, c = CTX[-1], CTX[-1].claims
        w, m = env["arrayf"], env["min_weight"]
        l0, s0 = ctx.goal
        c.true(w.span is self.span, "the same span")
        c.valid(w.L == self.L, "the shift by logical operators is kept")
        c.valid(w.S == self.sigma ^ gray(self.si), "the shift by stabilizers is the next Gray code")
        c.valid(z3.Implies(self.before.seen(l0, s0), m.seen(l0, s0)), "nothing is forgotten")
        c.valid(z3.Implies(z3.And(l0 == self.L, z3.ULT(self.t0, self.si + 1)), m.seen(l0, s0)), "all combinations up to this step have been counted")


def enumeration(h):
    def body(homogeneous):
        def run(ctx, c, F):
            nl, ns, words, bits = (z3.Int(x) for x in ("num_logical", "num_stabilizer", "words", "bits"))
            for x in (nl, ns, bits):
                assume(x >= 0)
            assume(words >= 1)
            block = SInt("block_size")
            ctx.num_bits = SInt(bits)
            ctx.counts = {"logical": nl, "stabilizer": ns}
            given = {"logical": Given("logical"), "stabilizer": Given("stabilizer")}
            W = SInt(words)

            def shape(a):
                if a is not given["logical"]:
                    raise Unsupported("shape")
                return (Num(nl), ctx.num_bits)

            def riffle(a):
                return Given(a.kind, True)

            def pack(a, dtype=None, **kw):
                if kw or not isinstance(a, Given):
                    raise Unsupported("packing")
                c.true(dtype in (None, numpy.uint), "packed into 64-bit words")
                c.true(a.riffled is not homogeneous, "X and Z bits of a qubit are adjacent exactly if symplectic weights are used")
                return Ops(a.kind, z3.IntVal(0), nl if a.kind == "logical" else ns, W)

            def weight_fn(kind):
                def get(use_numba=False):
                    if kind != ("hamming" if homogeneous else "symplectic"):
                        c.true(False, f"the {kind} weight is used")

                    def weigh(a, *bufs, out=None):
                        for x in (*bufs, *([out] if out is not None else [])):
                            c.true(isinstance(x, Buffer), "only buffers are overwritten")
                        if isinstance(a, Words):
                            a = Words(a.span, a.L, a.S)
                        elif not isinstance(a, Rows):
                            raise Unsupported("weight")
                        return Weights(a)
                    return weigh, 1
                return get

            def rowsum(w):
                if not isinstance(w, Weights):
                    raise Unsupported("row sums")
                c.true(w.wide or not isinstance(w.of, Rows), "weights are summed in a type that is wide enough")
                return Sums(w.of)

            def zeros(shape, dtype=None):
                c.true(shape[0] == 1 and shape[1] is W, "the empty combination")
                return Span(z3.IntVal(0), z3.IntVal(0))

            def vstack(parts):
                a, b = parts
                if not (isinstance(a, Span) and isinstance(b, Span) and a.plus is None and b.plus is not None):
                    raise Unsupported("vstack")
                op = b.plus
                c.valid(z3.And(a.s == b.s, a.l == b.l), "a shifted copy of the same combinations")
                if op.kind == "stabilizer":
                    c.valid(z3.And(op.index == a.s, a.l == 0), "the next stabilizer")
                    return Span(a.s + 1, a.l)
                c.valid(op.index == a.l, "the next logical operator")
                return Span(a.s, a.l + 1)

            def asarray(a, order=None, **kw):
                if not isinstance(a, Span) or kw:
                    raise Unsupported("asarray")
                return Words(a, bv(0), bv(0))

            def empty_like(a):
                return Buffer()
            np_ = shim.Shim(numpy, shape=shape, zeros=zeros, vstack=vstack, asarray=asarray, empty_like=empty_like)

            def sym_len(x):
                if isinstance(x, Ops):
                    return x.size()
                return len(x)

            def sym_range(*a):
                if any(isinstance(x, Pow2) for x in a):
                    if len(a) == 1:
                        a = (0, *a)
                    return ("range", *a)
                return range(*a)

            def sym_min(*a):
                if len(a) == 2 and any(isinstance(x, SInt) for x in a):
                    x, y = map(term, a)
                    return Num(z3.If(y < x, y, x))
                return min(*a)

            def sym_int(x):
                return x if isinstance(x, MinVal) else int(x)
            names = dict(np=np_, len=sym_len, range=sym_range, min=sym_min, int=sym_int, _riffle=riffle, _rows_to_ints=pack,
                         _get_hamming_weight_fn=weight_fn("hamming"), _get_symplectic_weight_fn=weight_fn("symplectic"),
                         _inplace_rowsum=rowsum, _count_trailing_zeros=lambda x: Lowest(x.v & -x.v))
            with shim.patched(D, **names), loops.cut(D, "get_distance_quantum", {0: Enumerate("stabilizer"), 1: Enumerate("logical"), 2: Outer(), 3: Inner()}):
                r = D.get_distance_quantum(given["logical"], given["stabilizer"], block, homogeneous)
            if not isinstance(r, MinVal):
                raise Unsupported("result")
            l0, s0 = ctx.goal
            c.true(r.first, "combinations of vectorized logical operators have been counted")
            c.valid(r.seen(l0, s0), "every combination of generators that involves a logical operator has been counted")
        return run

    for homogeneous in (True, False):
        prove(h, f"all nontrivial operators are counted ({'Hamming' if homogeneous else 'symplectic'} weights)", P + "get_distance_quantum", body(homogeneous), [D], plain=True, min_paths=4)


class Given:
    def __init__(self, kind, riffled=False):
        self.kind, self.riffled = kind, riffled


class Buffer:
    pass


# ---- the methods


def weight_of(x, vec):
    """x is the weight of the vector (up to sign)."""
    v = x.vec if isinstance(x, shim.Weight) else None
    return isinstance(v, mat.SymArr) and v.axes == vec.axes and (same(v, vec) or same(v, -vec))


def same(a, b):
    F = shim.FIELD[0]
    a, b = a.view(F), b.view(F)
    return a.axes == b.axes and shim.is_zero((a - b).as_row() if (a - b).is_vec else a - b)


def row_vec(F, name, segs, owner=None):
    return mat.matrix(F, ["1"], segs, {(0, i): f"{name}{i}" for i in range(len(segs))}, owner=owner).as_vec()


class Least:
    """min over the values of an expression for an arbitrary element of what is iterated."""

    def __init__(self, values):
        self.values = values


def least(*a, **k):
    if len(a) == 1 and not k and not isinstance(a[0], (list, tuple, set)):
        vals = list(a[0])
        if any(isinstance(v, shim.Weight) for v in vals):
            return Least(vals)
        return min(vals)
    return min(*a, **k)


class Words1:
    """Contract of ClassicalCode.iter_words (C06): every word once; without the zero word if asked."""

    def __init__(self, word):
        self.word, self.asked = word, []

    def __call__(self, skip_zero=False):
        self.asked.append(skip_zero)
        yield self.word


class Token:
    def __init__(self, name):
        self.name = name


class Swap:
    """Replace attributes for the duration of a proof."""

    def __init__(self, *triples):
        self.triples = triples

    def __enter__(self):
        self.saved = [(o, n, o.__dict__[n]) for o, n, _ in self.triples]
        for o, n, v in self.triples:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)


class Quiet:
    @staticmethod
    def warn(*a, **k):
        pass


def sym_int_of(x=0):
    return x if isinstance(x, (Least, Token)) else int(x)


def methods(h):
    from .blocks import C, MODS, css_checks, qudit_code
    from .bounds import WithDimension
    from qldpc.codes import common
    from qldpc.objects import Pauli

    def words(ctx, c, F):
        g = M(F, "G", "k", "n", "generator")
        code = codes.ClassicalCode(M(F, "H", "r", "n", "matrix"))
        code._generator = g
        v = row_vec(F, "v", [("k",)])
        log = []

        class All:
            def __init__(self):
                self.dropped = 0

            def __next__(self):
                if self.dropped:
                    raise Unsupported("next")
                self.dropped = 1
                return None

            def __iter__(self):
                yield v

        class Elements:
            pass

        def product(x, repeat=None):
            c.true(x is elements, "all elements of the field")
            c.true(isinstance(repeat, Dim) and repeat.same("k"), "one coefficient for each generator")
            log.append(All())
            return log[-1]
        elements = Elements()
        skip = ctx.decide("skip zero")
        with Swap((common, "itertools", shim.Shim(common.itertools, product=product))):
            F.elements = elements
            try:
                out = list(code.iter_words(skip_zero=skip))
            finally:
                del F.elements
        c.true(len(log) == 1 and len(out) == 1, "one word for each vector of coefficients")
        c.true(log[0].dropped == (1 if skip else 0), "the first vector (all zeros) is skipped exactly if asked")
        c.true(same(out[0], v @ g), "the word with these coefficients")
        c.untouched()

    prove(h, "iter_words lists the combinations of the generators", C + "ClassicalCode.iter_words", words, MODS, min_paths=2)

    def classical(ctx, c, F):
        g = M(F, "G", "k", "n", "generator")
        code = codes.ClassicalCode(M(F, "H", "r", "n", "matrix"))
        code._generator = g
        word = row_vec(F, "w", [("n",)])
        it = Words1(word)
        code.iter_words = it
        known = code._distance = 7 if ctx.decide("distance is known") else None
        vec = row_vec(F, "x", [("n",)], owner="vector") if ctx.decide("a vector is given") else None
        token, calls = Token("d"), []

        def fast(generators, *a, **k):
            calls.append((generators, a, k))
            return token
        with WithDimension(codes.ClassicalCode, Dim.of("k")), Swap((common, "get_distance_classical", fast), (common, "warnings", Quiet)):
            d = code.get_distance() if ctx.decide("via get_distance") else code.get_distance_exact()
            if vec is not None:
                it.asked, code._distance, calls = [], known, []
                d = code.get_distance(vector=vec)
            trivial = code.dimension == 0
        if vec is not None:
            if isinstance(d, shim.Weight):
                if not trivial and shim.is_zero(vec):
                    raise Unsupported("the vector is zero, which is a word")
                c.true(trivial and same(d.vec, vec), "the distance from the only word is the weight of the vector")
            else:
                c.true(isinstance(d, Least) and it.asked == [False], "all words are considered")
                c.true(len(d.values) == 1 and weight_of(d.values[0], word - vec), "the distance between each word and the vector")
                c.true(not trivial, "a code with words")
                c.true(code._distance == known, "the distance of the code is not affected")
        elif trivial:
            c.true(d != d, "the distance of a code without nonzero words is undefined")
        elif known is not None:
            c.true(d == known and not calls and not it.asked, "a known distance is returned")
        elif F is shim.SymField2:
            c.true(d is token and len(calls) == 1, "binary: the fast enumeration")
            c.equal(calls[0][0], g, "of the words that are generated")
            c.true(not calls[0][1] and not calls[0][2], "with its default parameters")
            c.true(code._distance is d, "the distance is remembered")
        else:
            c.true(isinstance(d, Least) and it.asked == [True], "all nonzero words are considered")
            c.true(len(d.values) == 1 and weight_of(d.values[0], word), "with their weights")
            c.true(code._distance is d, "the distance is remembered")
        c.untouched()

    prove(h, "exact distance of a classical code", C + "ClassicalCode.get_distance_exact", classical, MODS, min_paths=6, min=least, int=sym_int_of)

    def quantum(sub):
        def body(ctx, c, F):
            m = qudit_code(F, "a", n="n")
            code = codes.QuditCode(m, is_subsystem_code=sub)
            two = [("n",), ("n",)]
            lo = mat.matrix(F, ["k", "k"], ["n", "n"], {(i, j): f"L{i}{j}" for i in range(2) for j in range(2)})
            st = mat.matrix(F, ["s"], ["n", "n"], {(0, 0): "Sx", (0, 1): "Sz"})
            ga = mat.matrix(F, ["g", "g"], ["n", "n"], {(i, j): f"G{i}{j}" for i in range(2) for j in range(2)})
            code.get_logical_ops = lambda *a, **k: lo if not a and not k else c.true(False, "all logical operators")
            code.get_stabilizer_ops = lambda *a, **k: st
            code.get_gauge_ops = lambda *a, **k: ga
            full = mat.stack([st, ga], 0) if sub else st
            known = code._distance = 7 if ctx.decide("distance is known") else None
            wl, ws = row_vec(F, "l", two), row_vec(F, "s", two)
            spans = {}

            class Generated:
                def __init__(self, gens):
                    self.gens = gens

                def iter_words(self, skip_zero=False):
                    return ("words", self.gens, skip_zero)
            token, calls = Token("d"), []

            def fast(*a, **k):
                calls.append((a, k))
                return token
            loop = QuditLoop(c, ctx, wl, ws, lo, full, F)
            cc = shim.Shim(codes.ClassicalCode, from_generator=Generated)
            it = shim.Shim(common.itertools, product=lambda *a: ("product", *a))
            with WithDimension(codes.QuditCode, Dim.of("k")), loops.cut(codes.QuditCode, "get_distance_exact", {0: loop}), \
                    Swap((common, "get_distance_quantum", fast), (common, "warnings", Quiet), (common, "itertools", it), (common, "ClassicalCode", cc)):
                d = code.get_distance() if ctx.decide("via get_distance") else code.get_distance_exact()
                trivial = code.dimension == 0
            if trivial:
                c.true(d != d, "the distance of a code without logical qudits is undefined")
            elif known is not None:
                c.true(d == known and not calls, "a known distance is returned")
            elif F is shim.SymField2:
                c.true(d is token and len(calls) == 1, "binary: the fast enumeration")
                a, k = calls[0]
                k = {**dict(zip(("logical_ops", "stabilizers", "block_size", "homogeneous"), a)), **k}
                c.equal(k["logical_ops"], lo, "of all logical operators")
                c.equal(k["stabilizers"], full, "times all stabilizers and gauge operators")
                c.true(k.get("homogeneous", False) is False and not k.get("use_numba"), "with symplectic weights")
                c.true(code._distance is d, "the distance is remembered")
            else:
                c.true(d is loop.final and code._distance is d, "the minimum is returned and remembered")
            c.untouched()
        return body

    for sub in (False, True):
        prove(h, f"exact distance of a {'subsystem' if sub else 'stabilizer'} code", C + "QuditCode.get_distance_exact", quantum(sub), MODS, min_paths=4, min=sym_min2, int=scalar_or_token)

    def css(sub):
        def body(ctx, c, F):
            hx, hz = css_checks(F, "", n="n", commuting=not sub)
            code = codes.CSSCode(hx, hz, is_subsystem_code=sub)
            code._equal_distance_xz = equal = ctx.decide("equal distances")
            ops = {}
            for p, t in ((Pauli.X, "x"), (Pauli.Z, "z")):
                ops[p] = (M(F, f"L{t}", "k", "n"), M(F, f"S{t}", f"s{t}", "n"), M(F, f"G{t}", "g", "n"))
            code.get_logical_ops = lambda p=None, **k: ops[p][0]
            code.get_stabilizer_ops = lambda p=None, **k: ops[p][1]
            code.get_gauge_ops = lambda p=None, **k: ops[p][2]
            gens = {p: (o[0], mat.stack([o[1], o[2]], 0) if sub else o[1]) for p, o in ops.items()}
            calls, asked = [], []

            def fast(*a, **k):
                k = {**dict(zip(("logical_ops", "stabilizers", "block_size", "homogeneous"), a)), **k}
                t = SInt(f"d{len(calls)}")
                assume(t.z >= 1)
                calls.append((k, t))
                return t

            class Generated:
                def __init__(self, g):
                    self.gens = g

                def iter_words(self, skip_zero=False):
                    asked.append((self.gens, skip_zero))
                    yield row_vec(F, f"word{len(asked)}", [("n",)])

            def smallest(*a):
                if len(a) == 1:
                    vals = list(a[0])
                    t = SInt(f"d{len(calls)}")
                    calls.append((dict(values=vals, asked=asked[-2:]), t))
                    return t
                x, y = map(term, a)
                if x is None or y is None:
                    raise Unsupported("minimum")
                return SInt(z3.If(y < x, y, x))
            cc = shim.Shim(codes.ClassicalCode, from_generator=Generated)
            which = None if ctx.decide("both types") else Pauli.X if ctx.decide("X") else Pauli.Z
            have = {}
            if ctx.decide("X distance is known"):
                have[Pauli.X] = code._distance_x = SInt("known_x")
            if ctx.decide("Z distance is known"):
                have[Pauli.Z] = code._distance_z = SInt("known_z")
            if equal and have:
                c.done += 1  # then both are known, or the caller knows better
                if len(have) == 1:
                    return
            with WithDimension(codes.QuditCode, Dim.of("k")), WithMin(common, smallest), \
                    Swap((common, "get_distance_quantum", fast), (common, "warnings", Quiet), (common, "ClassicalCode", cc)):
                d = code.get_distance(which) if ctx.decide("via get_distance") else code.get_distance_exact(which)
                trivial = code.dimension == 0
            if trivial:
                c.true(d != d, "the distance of a code without logical qudits is undefined")
                return
            got = {}
            for k, t in calls:
                if F is shim.SymField2:
                    ps = [p for p in gens if same2(k["logical_ops"], gens[p][0]) and same2(k["stabilizers"], gens[p][1])]
                    c.true(len(ps) == 1, "operators of one type are enumerated, times stabilizers and gauge operators of this type")
                    c.true(k.get("homogeneous") is True and not k.get("use_numba"), "with Hamming weights")
                else:
                    (ga, sa), (gb, sb) = k["asked"]
                    ps = [p for p in gens if same2(ga, gens[p][0]) and same2(gb, gens[p][1])]
                    c.true(len(ps) == 1 and sa is True and sb is False, "nontrivial logical operators times all stabilizers and gauge operators")
                    v = k["values"]
                    c.true(len(v) == 1 and isinstance(v[0], shim.Weight), "weights of the products")
                    n = calls.index((k, t))
                    c.true(same(v[0].vec, row_vec(F, f"word{2 * n + 1}", [("n",)]) + row_vec(F, f"word{2 * n + 2}", [("n",)])), "the product of a logical operator and a stabilizer")
                got[ps[0]] = t
            for p in (Pauli.X, Pauli.Z):
                c.true(not (p in have and p in got), "a known distance is not computed again")
            value = {**have, **got}
            if equal:
                for p, q in ((Pauli.X, Pauli.Z), (Pauli.Z, Pauli.X)):
                    if p not in value and q in value:
                        value[p] = value[q]
            if which is None:
                c.true(Pauli.X in value and Pauli.Z in value, "both types are considered")
                x, z = term(value[Pauli.X]), term(value[Pauli.Z])
                c.valid(term(d) == z3.If(z < x, z, x), "the minimum of both")
            else:
                c.true(which in value, "the type that was asked for")
                c.valid(term(d) == term(value[which]), "its distance")
            for p, attr in ((Pauli.X, "_distance_x"), (Pauli.Z, "_distance_z")):
                kept = getattr(code, attr)
                if kept is not None:
                    c.true(p in value, "only what was computed is remembered")
                    c.valid(term(kept) == term(value[p]), "and it is remembered for its type")
            if code._distance is not None:
                x, z = term(value[Pauli.X]), term(value[Pauli.Z])
                c.valid(term(code._distance) == z3.If(z < x, z, x), "the distance of the code is the minimum of both")
            c.untouched()
        return body

    for sub in (False, True):
        prove(h, f"exact distances of a CSS {'subsystem ' if sub else ''}code", C + "CSSCode.get_distance_exact", css(sub), MODS, min_paths=12, isinstance=isinstance)


def same2(a, b):
    F = shim.FIELD[0]
    return isinstance(a, mat.SymArr) and a.axes == b.axes and shim.is_zero(a.view(F) - b.view(F))


class WithMin:
    """min() of a module."""

    def __init__(self, mod, f):
        self.mod, self.f = mod, f

    def __enter__(self):
        self.had = self.mod.__dict__.get("min")
        self.mod.min = self.f

    def __exit__(self, *a):
        if self.had is None:
            del self.mod.min
        else:
            self.mod.min = self.had


def _call(cls, x=0, *a):
    return x if isinstance(x, (Token, Least)) else scalar._IntMeta.__call__(scalar.sym_int, x, *a)


class _TokenMeta(scalar._IntMeta):
    __call__ = _call


class scalar_or_token(metaclass=_TokenMeta):
    """int() that keeps symbolic values."""


def sym_min2(*a):
    if len(a) == 2:
        a = [counted(x) for x in a]
        x, y = map(term, a)
        if x is not None and y is not None and any(isinstance(v, (SInt, Dim)) for v in a):
            return SInt(z3.If(y < x, y, x))
    return min(*a)


def counted(x):
    """A weight as a number that is remembered with what it is the weight of."""
    if isinstance(x, shim.Weight):
        w = SInt(f"weight{next(CTX[-1].fresh)}")
        CTX[-1].__dict__.setdefault("weights", []).append((w, x.vec))
        return w
    return x


class QuditLoop(loops.Loop):
    """Invariant: distance is the least weight of the operators that were seen, or n."""

    def __init__(self, c, ctx, wl, ws, lo, full, F):
        self.c, self.wl, self.ws, self.lo, self.full, self.F = c, wl, ws, lo, full, F
        self.final = None

    def enter(self, it, env):
        if not (isinstance(it, tuple) and it[0] == "product" and len(it) == 3 and all(isinstance(x, tuple) and x[0] == "words" for x in it[1:])):
            raise Unsupported("the loop is not over pairs of words")
        a, b = it[1:]
        self.c.true(same2(a[1], self.lo) and a[2] is True, "all nontrivial combinations of logical operators")
        self.c.true(same2(b[1], self.full) and b[2] is False, "times all combinations of stabilizers and gauge operators")
        self.c.true(Dim.of(env["distance"]).same("n"), "starts from the number of qudits")

    def havoc(self, env):
        self.before = self.final = SInt("distance")
        return {"distance": self.before}

    def item(self, env):
        return self.wl, self.ws

    def back(self, env):
        new = env["distance"]
        seen = CTX[-1].__dict__.get("weights", [])
        self.c.true(len(seen) == 1 and isinstance(seen[0][1], shim.Support) and len(seen[0][1].parts) == 2, "a weight of X and Z supports")
        w, sup = seen[0]
        word = (self.wl + self.ws).view(self.F)
        halves = [word[: Dim.of("n")], word[Dim.of("n"):]]
        parts = sup.parts
        self.c.true(any(same(parts[i], halves[0]) and same(parts[1 - i], halves[1]) for i in (0, 1)), "the supports of the product of the two operators")
        self.c.valid(term(new) == z3.If(w.z < self.before.z, w.z, self.before.z), "the least weight so far")
