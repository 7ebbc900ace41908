"""Mathematical integers and truth values as z3 terms; branching on one explores both outcomes that are possible."""
from __future__ import annotations

import builtins
import operator

from . import mat
from .mat import CTX, Dim, Unsupported

import z3


def solver():
    ctx = CTX[-1]
    if not hasattr(ctx, "z3"):
        ctx.z3 = z3.Solver()
        ctx.z3.set("timeout", 5000)
        ctx.z3_facts = []
        ctx.z3_time = 0.0
    return ctx.z3


def assume(f):
    f = formula(f)
    solver().add(f)
    CTX[-1].z3_facts.append(f)


def formula(f):
    if isinstance(f, SBool):
        return f.f
    if isinstance(f, builtins.bool):
        return z3.BoolVal(f)
    return f


_cache = {}


def _check(f):
    s = solver()
    facts = CTX[-1].z3_facts
    key = None
    if not facts:  # the formula stands for itself: use the tactics for single queries, once
        key = z3.simplify(f).sexpr()
        if key in _cache:
            return _cache[key]
        r = z3.unknown
    else:
        s.push()
        s.add(f)
        r = s.check()
        s.pop()
    if r == z3.unknown:
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(facts)
        s.add(f)
        r = s.check()
    if key is not None:
        _cache[key] = r
    return r


def implied(f):
    """Is f a consequence of the path? True / False / None (the solver gave up)."""
    r = _check(z3.Not(formula(f)))
    return True if r == z3.unsat else False if r == z3.sat else None


def model(f):
    """Values that make f false on this path."""
    s = solver()
    s.push()
    s.add(z3.Not(formula(f)))
    r = s.check()
    m = str(s.model()) if r == z3.sat else None
    s.pop()
    return m


def decide(f, label=None):
    f = z3.simplify(formula(f))
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    if _check(z3.Not(f)) == z3.unsat:
        return True
    if _check(f) == z3.unsat:
        return False
    r = CTX[-1].decide(label or str(f)[:200])
    assume(f if r else z3.Not(f))
    return r


def feasible():
    return solver().check() != z3.unsat


class SBool:
    __slots__ = ("f",)
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = formula(f)

    def __bool__(self):
        return decide(self.f)

    def __and__(self, o):
        return SBool(z3.And(self.f, formula(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.f, formula(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.f))

    def __eq__(self, o):
        return SBool(self.f == formula(o)) if isinstance(o, (SBool, builtins.bool)) else NotImplemented

    __hash__ = None

    def __repr__(self):
        return f"SBool({self.f})"


_sizes = {}


def term(x):
    """z3 term of an integer value, or None."""
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.f, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, Dim):
        x = mat.canon(x)
        t = z3.IntVal(0)
        for m, c in x.t.items():
            p = z3.IntVal(c)
            for name in m:
                v = z3.Int(f"size_{name}")
                known = CTX[-1].__dict__.setdefault("z3_sizes", set())
                if name not in known:
                    known.add(name)
                    assume(v >= 0)
                p = p * v
            t = t + p
        return z3.simplify(t)
    if isinstance(x, builtins.bool):
        return z3.IntVal(builtins.int(x))
    try:
        return z3.IntVal(operator.index(x))
    except TypeError:
        return None


class SInt:
    """A mathematical integer."""

    __slots__ = ("z",)
    z3 = True
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z3.Int(z) if isinstance(z, str) else z

    def _op(self, o, f, swap=False):
        t = term(o)
        if t is None:
            return NotImplemented
        return SInt(z3.simplify(f(t, self.z) if swap else f(self.z, t)))

    def __add__(self, o):
        return self._op(o, operator.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, operator.sub)

    def __rsub__(self, o):
        return self._op(o, operator.sub, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("repetition by a symbolic number")
        return self._op(o, operator.mul)

    __rmul__ = __mul__

    def __neg__(self):
        return SInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.z >= 0, self.z, -self.z))

    @staticmethod
    def _divisor(b):
        if not decide(b > 0):
            if decide(b == 0):
                raise ZeroDivisionError("division by zero")
            raise Unsupported("division by a negative number")

    def __floordiv__(self, o):  # with a positive divisor z3's division agrees with Python's
        t = term(o)
        if t is None:
            return NotImplemented
        self._divisor(t)
        return SInt(self.z / t)

    def __mod__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        self._divisor(t)
        return SInt(self.z % t)

    def __rfloordiv__(self, o):
        return SInt(term(o)) // self

    def __rmod__(self, o):
        return SInt(term(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        b = term(o)
        if b is None:
            return NotImplemented
        self._divisor(b)
        return SFrac(self.z, b)

    def _cmp(self, o, f):
        if isinstance(o, SFrac):
            return SBool(f(self.z * o.b, o.a))
        t = term(o)
        if t is None:
            return NotImplemented
        return SBool(f(self.z, t))

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return decide(self.z != 0)

    def __index__(self):
        v = z3.simplify(self.z)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("a symbolic number is used as an index")

    def __repr__(self):
        return f"SInt({self.z})"


class SFrac:
    """a / b with b > 0, compared as an exact fraction (floating point numbers are assumed to be exact)."""

    __slots__ = ("a", "b")
    __array_ufunc__ = None

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _cmp(self, o, f):
        if isinstance(o, SFrac):
            return SBool(f(self.a * o.b, o.a * self.b))
        t = term(o)
        if t is None:
            return NotImplemented
        return SBool(f(self.a, t * self.b))

    def __neg__(self):
        return SFrac(-self.a, self.b)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    __hash__ = None


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, (SInt, Dim)) or type(x).__name__ == "Weight":
            return x
        if isinstance(x, SBool):
            return SInt(term(x))
        return builtins.int(x, *a)


class sym_int(metaclass=_IntMeta):
    """int() that keeps symbolic numbers."""
