"""Functions on a group with values in a field, over all groups and all fields.

Members of the group are words of the free group over named members, scalars are polynomials over the integers in named
scalars: an equation that is claimed holds in every group and every field if and only if it holds for these. A sparse
vector (dict or array) starts as a known sum and is changed by writes, which are kept in a log; a loop over the terms of
an element is cut by the contract Fold.
"""
from __future__ import annotations

import builtins
import itertools
import operator

from . import loops
from .mat import CTX, Unsupported


class GE:
    """A group member: reduced word ((name, +-1), ...)."""

    __slots__ = ("w",)
    __array_ufunc__ = None

    def __init__(self, w=()):
        self.w = tuple(w) if not isinstance(w, str) else ((w, 1),)

    def __mul__(self, o):
        if not isinstance(o, GE):
            return NotImplemented
        a, b = list(self.w), list(o.w)
        while a and b and a[-1][0] == b[0][0] and a[-1][1] == -b[0][1]:
            a.pop()
            b.pop(0)
        return GE(a + b)

    def __invert__(self):
        return GE((n, -e) for n, e in reversed(self.w))

    def __pow__(self, k):
        k = operator.index(k)
        out = GE()
        for _ in range(abs(k)):
            out = out * (self if k > 0 else ~self)
        return out

    def __eq__(self, o):
        if not isinstance(o, GE):
            return NotImplemented
        if self.w == o.w:
            return True
        raise Unsupported("comparison of group members")

    def __ne__(self, o):
        r = self == o
        return NotImplemented if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.w)

    def letters(self):
        return [n for n, _ in self.w]

    def __repr__(self):
        return "*".join(n if e == 1 else f"{n}^-1" for n, e in self.w) or "1"


class Poly:
    """A scalar: polynomial {sorted tuple of names: integer}."""

    __slots__ = ("t",)
    __array_ufunc__ = None

    def __init__(self, t):
        if isinstance(t, str):
            t = {(t,): 1}
        elif isinstance(t, builtins.int):
            t = {(): t}
        self.t = {m: c for m, c in t.items() if c}

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        try:
            return Poly(operator.index(x))
        except TypeError:
            return None

    def now(self):
        """Modulo the scalars that are zero on this path."""
        known = CTX[-1].__dict__.get("scalars", {}) if CTX else {}
        p = self
        for name, value in known.items():
            while any(name in m for m in p.t):
                q = Poly(0)
                for m, c in p.t.items():
                    if name in m:
                        rest = list(m)
                        rest.remove(name)
                        q = q + Poly({tuple(rest): c}) * value
                    else:
                        q = q + Poly({m: c})
                p = q
        return p

    def __add__(self, o):
        o = Poly.of(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        o = Poly.of(o)
        return NotImplemented if o is None else self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = Poly.of(o)
        if o is None:
            return NotImplemented
        t = {}
        for (a, x), (b, y) in itertools.product(self.t.items(), o.t.items()):
            k = tuple(sorted(a + b))
            t[k] = t.get(k, 0) + x * y
        return Poly(t)

    __rmul__ = __mul__

    def is_zero(self):
        return not self.now().t

    def __bool__(self):
        p = self.now()
        if not p.t:
            return False
        if set(p.t) == {()}:
            raise Unsupported("is an integer zero in the field?")
        facts = CTX[-1].__dict__.setdefault("nonzero_scalars", set())
        key = tuple(sorted(p.t.items()))
        if key in facts:
            return True
        if CTX[-1].decide(f"{p} is not zero"):
            facts.add(key)
            return True
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in k for k in p.t if k != m):
                CTX[-1].__dict__.setdefault("scalars", {})[m[0]] = Poly({k: -c * v for k, v in p.t.items() if k != m})
                return False
        raise Unsupported(f"{p} is zero")

    def __eq__(self, o):
        o = Poly.of(o)
        return NotImplemented if o is None else not (self - o)

    def __ne__(self, o):
        r = self == o
        return NotImplemented if r is NotImplemented else not r

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return " + ".join(("" if c == 1 and m else f"{c}") + ("*".join(m)) for m, c in self.t.items()) or "0"


class Idx:
    """The index of a member in the order in which the group generates its members."""

    __slots__ = ("g",)

    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        return isinstance(o, Idx) and self.g == o.g

    def __hash__(self):
        return hash(("idx", self.g))

    def __repr__(self):
        return f"index({self.g!r})"


def letters(key):
    if isinstance(key, GE):
        return key.letters()
    if isinstance(key, Idx):
        return key.g.letters()
    if isinstance(key, tuple):
        return [x for k in key for x in letters(k)]
    if hasattr(key, "letters"):
        return key.letters()
    raise Unsupported(f"key {key!r}")


class Vec:
    """A sparse vector with values in the field. base: name of the vector that it was (None: zero), then writes."""

    __array_ufunc__ = None

    def __init__(self, base=None, value=None, owned=False):
        self.base = base
        self.log = {}      # key -> value; distinct keys are only allowed if never read across
        self.value = value  # formal description of the whole vector, if known
        self.owned = owned

    # reading
    def __getitem__(self, k):
        if k in self.log:
            return self.log[k]
        if self.log:
            raise Unsupported("reading one entry after writing another")
        if self.base is None:
            return Poly(0)
        return Poly(f"{self.base}[{k!r}]")

    def get(self, k, default=None):
        if default is None or Poly.of(default) is None or not Poly.of(default).is_zero():
            raise Unsupported("get() with a default that is not zero")
        return self[k]

    def __setitem__(self, k, v):
        if self.owned:
            CTX[-1].frame.append(f"entry {k!r} of {self.base}")
        p = Poly.of(v)
        if p is None:
            raise Unsupported(f"value {v!r}")
        letters(k)
        self.log[k] = p

    # iteration: one arbitrary term stands for all (counted: only folds that know about it may consume it)
    def _item(self):
        if self.base is None and not self.log:
            return []
        if self.log:
            raise Unsupported("iteration over a vector that is being written")
        CTX[-1].open_terms = getattr(CTX[-1], "open_terms", 0) + 1
        CTX[-1].__dict__.setdefault("iterated", []).append(self.base)
        g = GE(f"g{next(CTX[-1].fresh)}")
        return [(g, Poly(f"{self.base}[{g!r}]"))]

    def items(self):
        yield from self._item()

    def values(self):
        yield from (v for _, v in self._item())

    def __iter__(self):
        yield from (g for g, _ in self._item())

    keys = __iter__

    def __len__(self):
        raise Unsupported("number of terms")


class Fold(loops.Loop):
    """The loop adds spec(item) = [(key, scalar), ...] to a vector, for every item of what it runs over.

    The writes of the body have the form V[k] += s, or V[k] = s if V was zero and different items have different keys k
    (the key contains the member that identifies the item exactly once).
    """

    mutates = loops.ANY

    def __init__(self, over, make, vec, spec, own=()):
        self.over, self.make, self.vec, self.spec, self.own = over, make, vec, spec, own

    def enter(self, it, env):
        if not self.over(it):
            raise Unsupported(f"the loop runs over {type(it).__name__}")
        v = self.vec(env)
        for r in self.roots:
            if r not in env or not (env[r] is v or getattr(env[r], "_vec", None) is v):
                raise Unsupported(f"the loop modifies {r}")
        if v.log:
            raise Unsupported("the vector has been written before the loop")
        self.start = (v.base, v.value)
        self.v = v

    def havoc(self, env):
        self.v.base, self.v.log, self.v.value = f"V{next(CTX[-1].fresh)}", {}, None
        return {}

    def item(self, env):
        self.it = self.make()
        return self.it

    def back(self, env):
        v, cl = self.vec(env), CTX[-1].claims
        if v is not self.v:
            raise Unsupported("another vector is written")
        want = {}
        for k, s in self.spec(self.it):
            want[k] = want.get(k, Poly(0)) + s
        for k, s in v.log.items():
            before = Poly(f"{v.base}[{k!r}]")
            add = (s - before).now()
            if any(any(x.startswith(v.base + "[") for x in m) for m in add.t):  # assigned, not added
                if any(any(x.startswith(v.base + "[") for x in m) for m in s.now().t):
                    cl.true(False, f"V[{k!r}] = {s!r}: earlier terms are changed")
                ids = self.own(self.it) if self.own else []
                cl.true(self.start == (None, None) or self.start[0] is None, "an entry of a vector that need not be zero is overwritten")
                parts = k if isinstance(k, tuple) else (k,)
                cl.true(bool(ids) and any(letters(x).count(ids[0]) == 1 for x in parts), f"V[{k!r}] = {s!r}: different terms may have the same key")
                add = s.now()
            w = want.pop(k, Poly(0))
            cl.true((add - w).is_zero(), f"the term {self.it!r} adds {add!r} to entry {k!r}, and not {w!r}")
        for k, s in want.items():
            cl.true(s.is_zero(), f"the term {self.it!r} adds nothing to entry {k!r}, and not {s!r}")

    def done(self, env):
        self.v.base, self.v.log = f"S{next(CTX[-1].fresh)}", {}
        self.v.value = ("sum", self.start[1] if self.start[0] is not None else None, self)


def closed(ctx):
    if getattr(ctx, "open_terms", 0):
        raise Unsupported("terms of an element are consumed in an unknown way")


class Sum:
    """start + the sum of what a generator yields for an arbitrary term."""

    def __init__(self, start, terms):
        self.start, self.terms = start, terms


def sym_sum(it, /, start=0):
    ctx = CTX[-1]
    before = getattr(ctx, "open_terms", 0)
    if isinstance(it, (list, tuple)):
        return builtins.sum(it, start)
    out = list(it)
    n = getattr(ctx, "open_terms", 0) - before
    if n == 0:
        return builtins.sum(out, start)
    ctx.open_terms = before
    return Sum(start, out)


def sym_any(it):
    """Over the terms of a vector: the outcome is decided; False means that it is false for every term."""
    ctx = CTX[-1]
    before = getattr(ctx, "open_terms", 0)
    r = False
    out = list(it)
    n = getattr(ctx, "open_terms", 0) - before
    ctx.open_terms = before
    for x in out:
        if x:
            r = True
            break
    ctx.__dict__.setdefault("quantified", []).append(("any", r, n))
    return r


def sym_all(it):
    ctx = CTX[-1]
    before = getattr(ctx, "open_terms", 0)
    out = list(it)
    n = getattr(ctx, "open_terms", 0) - before
    ctx.open_terms = before
    r = all(bool(x) for x in out)
    ctx.__dict__.setdefault("quantified", []).append(("all", r, n))
    return r
