"""Distance bounds and random logical operators (C05): loop contracts on the live functions."""
from __future__ import annotations

import z3

from vf import env  # noqa: F401
from vf.sym import loops, mat, scalar, shim
from vf.sym.mat import CTX, Dim, Sel, Unsupported
from vf.sym.prove import M, prove
from vf.sym.scalar import SBool, SInt, assume

from . import blocks
from .blocks import C, MODS, comm, css_checks

from qldpc import codes, decoders
from qldpc.codes import common
from qldpc.objects import Pauli

TRUSTED = shim.TRUSTED + [
    "z3 (linear integer arithmetic)",
    "decoders.decode returns an arbitrary vector of the right length (nothing is assumed about it)",
]


class Trials(loops.Loop):
    """Invariant: true distance <= min_bound <= n."""

    def __init__(self, d, n):
        self.d, self.n = d, n

    def claim(self, env, when):
        b = env["min_bound"]
        CTX[-1].claims.valid(z3.And(scalar.term(self.d) <= scalar.term(b), scalar.term(b) <= scalar.term(self.n)),
                             f"true distance <= min_bound <= n {when}")

    def enter(self, it, env):
        self.claim(env, "before the first trial")

    def havoc(self, env):
        b = SInt("min_bound")
        assume(z3.And(scalar.term(self.d) <= b.z, b.z <= scalar.term(self.n)))
        return {"min_bound": b}

    def more(self, env):
        return CTX[-1].decide("another trial")

    def item(self, env):
        return SInt("trial")

    def back(self, env):
        self.claim(env, "after a trial")


class WithDimension:
    """Contract of QuditCode.dimension (C03): a number k that does not change."""

    def __init__(self, cls, k):
        self.cls, self.k = cls, k

    def __enter__(self):
        self.saved = self.cls.__dict__["dimension"]
        k = self.k
        setattr(self.cls, "dimension", property(lambda self: k))

    def __exit__(self, *a):
        setattr(self.cls, "dimension", self.saved)


def trials(h):
    def classical(ctx, c, F):
        n, d, k = Dim.of("n"), SInt("d"), Dim.of("k")
        assume(z3.And(0 <= d.z, d.z <= scalar.term(n)))
        code = codes.ClassicalCode(M(F, "H", "r", "n", "matrix"))
        vector = None
        if ctx.decide("a vector is given"):
            vector = mat.matrix(F, ["1"], ["n"], {(0, 0): "v"}, owner="vector").as_vec()
        known = ctx.decide("the distance is known")
        code._distance = d if known else None
        cutoff = SInt("cutoff") if ctx.decide("cutoff given") else None

        def one(self, *, vector=None, **kw):
            if vector is not want:
                raise AssertionError("get_one_distance_bound is called for another vector")
            b = SInt(f"b{next(ctx.fresh)}")
            assume(d.z <= b.z)
            return b
        want = vector
        saved = codes.ClassicalCode.get_one_distance_bound
        codes.ClassicalCode.get_one_distance_bound = one
        try:
            with WithDimension(codes.ClassicalCode, k), loops.cut(codes.ClassicalCode, "get_distance_bound", {0: Trials(d, n)}):
                r = code.get_distance_bound(SInt("num_trials"), cutoff=cutoff, vector=vector)
        finally:
            codes.ClassicalCode.get_one_distance_bound = saved
        if isinstance(r, shim.Weight):
            c.true(r.vec is vector and ctx.dim_facts.get((("k",), 1),) is not False, "a code without words other than 0: the weight of the vector")
            return
        if isinstance(r, float):
            c.true(r != r and ("size k == 0", True) in ctx.log, "only codes of dimension zero have undefined distance")
            return
        c.valid(z3.And(d.z <= scalar.term(r), scalar.term(r) <= scalar.term(n)), "true distance <= bound <= n")
        if known and vector is None:
            c.valid(scalar.term(r) == d.z, "a known distance is returned")
        c.untouched()

    prove(h, "ClassicalCode.get_distance_bound is at least the distance and at most n", C + "ClassicalCode.get_distance_bound",
          classical, MODS, min_paths=6, int=scalar.sym_int)


    def quantum(cls, with_pauli):
        def body(ctx, c, F):
            n, d, k = Dim.of("n"), SInt("d"), Dim.of("k")
            assume(z3.And(0 <= d.z, d.z <= scalar.term(n)))
            pauli, kw = None, {}
            if with_pauli:
                pauli = (None if ctx.decide("no type given") else Pauli.X if ctx.decide("X") else Pauli.Z)
                kw = dict(pauli=pauli)
            known = ctx.decide("the distance is known")
            if cls is codes.CSSCode:
                code = codes.CSSCode(*css_checks(F, "", n="n"), is_subsystem_code=False)
                dx, dz = SInt("dx"), SInt("dz")
                # d stands for the distance that is asked for
                assume(d.z == (dx.z if pauli is Pauli.X else dz.z if pauli is Pauli.Z else z3.If(dx.z < dz.z, dx.z, dz.z)))
                if known:
                    code._distance_x, code._distance_z = dx, dz
            else:
                code = codes.QuditCode(blocks.qudit_code(F, "a", n="n"), is_subsystem_code=False)
                code._distance = d if known else None
            cutoff = SInt("cutoff") if ctx.decide("cutoff given") else None

            def one(self, p=None, **kw):
                if p is not pauli:
                    raise AssertionError("get_one_distance_bound is called for another type")
                b = SInt(f"b{next(ctx.fresh)}")
                assume(d.z <= b.z)
                return b
            saved = cls.get_one_distance_bound
            cls.get_one_distance_bound = one
            try:
                with WithDimension(codes.QuditCode, k), loops.cut(cls, "get_distance_bound", {0: Trials(d, n)}):
                    r = code.get_distance_bound(SInt("num_trials"), cutoff=cutoff, **kw)
            finally:
                cls.get_one_distance_bound = saved
            if isinstance(r, float):
                c.true(r != r and ("size k == 0", True) in ctx.log, "only codes of dimension zero have undefined distance")
                return
            c.valid(z3.And(d.z <= scalar.term(r), scalar.term(r) <= scalar.term(n)), "true distance <= bound <= n")
            if known:
                c.valid(scalar.term(r) == d.z, "a known distance is returned")
            c.untouched()
        return body

    for cls, with_pauli in ((codes.QuditCode, False), (codes.CSSCode, True)):
        prove(h, f"{cls.__name__}.get_distance_bound is at least the distance and at most n", f"{C}{cls.__name__}.get_distance_bound",
              quantum(cls, with_pauli), MODS, min_paths=4, int=scalar.sym_int)

    def probe(ctx, c, F):
        n, d = Dim.of("n"), SInt("d")
        assume(z3.And(0 <= d.z, d.z <= scalar.term(n)))
        code = codes.ClassicalCode(M(F, "H", "r", "n", "matrix"))
        saved = codes.ClassicalCode.get_one_distance_bound
        codes.ClassicalCode.get_one_distance_bound = lambda self, **kw: SInt(f"b{next(ctx.fresh)}")
        try:
            with WithDimension(codes.ClassicalCode, Dim.of("k")), loops.cut(codes.ClassicalCode, "get_distance_bound", {0: Trials(d, n)}):
                code.get_distance_bound(SInt("num_trials"))
        finally:
            codes.ClassicalCode.get_one_distance_bound = saved

    prove(h, "trials may be below the distance", C + "ClassicalCode.get_distance_bound", probe, MODS, expect="fail", int=scalar.sym_int)


# ---- one trial

def arbitrary_decode(ctx, F):
    """decoders.decode: any vector with one entry per column of the matrix."""
    def decode(matrix, syndrome, **kw):
        i = next(ctx.fresh)
        segs = matrix.axes[1].segs
        return mat.matrix(F, ["1"], segs, {(0, j): f"e{i}_{j}" for j in range(len(segs))}).as_vec()
    return decode


def arbitrary_array(ctx):
    """get_random_array: any array of the given shape that satisfies the given condition."""
    def get_random_array(field, shape, *, satisfy=lambda _: True, seed=None):
        i = next(ctx.fresh)
        segs = mat.segments(shape)
        a = mat.matrix(field, ["1"], segs, {(0, j): f"a{i}_{j}" for j in range(len(segs))}).as_vec()
        if not satisfy(a):
            raise mat.PathEnd
        ctx.__dict__.setdefault("random", []).append(a)
        return a
    return get_random_array


class Patch:
    """Replace attributes for the duration of a proof."""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.saved = []
        for obj, name, value in self.items:
            self.saved.append((obj, name, obj.__dict__[name]))
            setattr(obj, name, value)

    def __exit__(self, *a):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)


def one_trial(h):
    def classical(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        with Patch((decoders, "decode", arbitrary_decode(ctx, F))), \
                loops.cut(codes.ClassicalCode, "get_one_distance_bound", {0: loops.Memoryless()}):
            w = code.get_one_distance_bound()
        c.true(isinstance(w, shim.Weight), "the weight of a vector is returned")
        c.zero((m @ w.vec).as_row(), "the vector is a code word")
        c.true(any(shim.is_zero(a @ w.vec - one_by_one(F)) for a in ctx.random), "the code word is not zero")
        c.untouched()

    prove(h, "ClassicalCode.get_one_distance_bound returns the weight of a nonzero code word", C + "ClassicalCode.get_one_distance_bound",
          classical, MODS, int=scalar.sym_int, **{"get_random_array": lambda *a, **k: arbitrary_array(CTX[-1])(*a, **k)})

    def from_vector(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        v = mat.matrix(F, ["1"], ["n"], {(0, 0): "v"}, owner="vector").as_vec()
        code = codes.ClassicalCode(m)
        with Patch((decoders, "decode", arbitrary_decode(ctx, F))), \
                loops.cut(codes.ClassicalCode, "get_one_distance_bound", {0: loops.Memoryless()}):
            w = code.get_one_distance_bound(vector=v)
        c.true(isinstance(w, shim.Weight), "the weight of a vector is returned")
        e = w.vec.view(F)
        c.zero((m @ (v - e)).as_row(), "the given vector minus the returned one is a code word")
        c.untouched()

    prove(h, "ClassicalCode.get_one_distance_bound of a vector returns the weight of its difference from a code word",
          C + "ClassicalCode.get_one_distance_bound", from_vector, MODS, min_paths=2, int=scalar.sym_int)

    def css(ctx, c, F):
        hx, hz = css_checks(F, "", commuting=ctx.decide("stabilizer code"), n="n")
        code = codes.CSSCode(hx, hz, is_subsystem_code=ctx.decide("subsystem flag"))
        asked = Pauli.X if ctx.decide("X") else Pauli.Z
        words = []

        def random_op(self, pauli, *, ensure_nontrivial=False, seed=None):
            i = next(ctx.fresh)
            w = mat.matrix(F, ["1"], ["n"], {(0, 0): f"w{i}"}).as_vec()
            shim.assume_zero(((hx if pauli is Pauli.Z else hz) @ w).as_row())  # contract: it commutes with the checks
            words.append((pauli, w))
            return w
        with Patch((decoders, "decode", arbitrary_decode(ctx, F)), (codes.CSSCode, "get_random_logical_op", random_op)), \
                loops.cut(codes.CSSCode, "get_one_distance_bound", {0: loops.Memoryless()}):
            if ctx.decide("no type given"):
                import random
                with Patch((random, "choice", lambda _: asked)):
                    w = code.get_one_distance_bound()
            else:
                w = code.get_one_distance_bound(asked)
        c.true(isinstance(w, shim.Weight), "the weight of an operator is returned")
        c.zero(((hz if asked is Pauli.X else hx) @ w.vec).as_row(), "the operator commutes with the checks of the other type")
        good = [v for p, v in words if p is not asked and shim.is_zero(v @ w.vec - one_by_one(F))]
        c.true(bool(good), "the operator does not commute with some operator of the other type")
        c.zero(((hx if asked is Pauli.X else hz) @ good[0]).as_row(), "which commutes with all checks: so it is no product of checks")
        c.untouched()

    prove(h, "CSSCode.get_one_distance_bound returns the weight of a nontrivial logical operator of the given type",
          C + "CSSCode.get_one_distance_bound", css, MODS, min_paths=8, int=scalar.sym_int)

    def probe(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        with Patch((decoders, "decode", arbitrary_decode(ctx, F))), \
                loops.cut(codes.ClassicalCode, "get_one_distance_bound", {0: loops.Memoryless()}):
            w = code.get_one_distance_bound()
        c.zero(w.vec.as_row(), "probe")

    prove(h, "the word is zero", C + "ClassicalCode.get_one_distance_bound", probe, MODS, expect="fail",
          int=scalar.sym_int, **{"get_random_array": lambda *a, **k: arbitrary_array(CTX[-1])(*a, **k)})


def one_by_one(F):
    return mat.identity(F, [("1",)])


# ---- logical operators

def random_ops(h):
    def body(ctx, c, F):
        hx, hz = css_checks(F, "", n="n")
        code = codes.CSSCode(hx, hz, is_subsystem_code=False)
        lx, lz = blocks.css_logicals(F, "", hx, hz, k="k")
        code._logical_ops = mat.block_diag([lx, lz]).view(F)
        sx, sz = M(F, "Sx", "sx", "n"), M(F, "Sz", "sz", "n")  # contract of get_stabilizer_ops (see C02)
        for e in (hz @ sx.T, hx @ sz.T, lx @ sz.T, lz @ sx.T, sx @ sz.T):
            shim.assume_zero(e)
        pauli = Pauli.X if ctx.decide("X") else Pauli.Z
        sure = ctx.decide("ensure_nontrivial")

        def stabs(self, p=None, **kw):
            return sx if p is Pauli.X else sz
        with WithDimension(codes.QuditCode, Dim.of("k")), Patch((codes.CSSCode, "get_stabilizer_ops", stabs)):
            op = code.get_random_logical_op(pauli, ensure_nontrivial=sure)
        a = ctx.random[-1]
        mine, dual, check = (lx, lz, hz) if pauli is Pauli.X else (lz, lx, hx)
        s = sx if pauli is Pauli.X else sz
        c.zero((check @ op).as_row(), "the operator commutes with the checks")
        coef = a[Sel(0)]
        c.zero((op - coef @ mine - a[Sel(1)] @ s).as_row(), "the operator is a product of logical operators and stabilizers")
        c.zero((dual @ op - coef).as_row(), "its products with the dual logical operators are its coefficients")
        if sure:
            c.true(any(f.axes == coef.axes and shim.is_zero(f - coef) for f in blocks.nonzero_facts(ctx)), "some coefficient is not zero")
        c.untouched()

    prove(h, "get_random_logical_op is a product of logical operators and stabilizers, nontrivial if promised", C + "CSSCode.get_random_logical_op",
          body, MODS, min_paths=4, int=scalar.sym_int, **{"get_random_array": lambda *a, **k: arbitrary_array(CTX[-1])(*a, **k)})


def reduction(h):
    def body(ctx, c, F):
        hx, hz = css_checks(F, "", n="n")
        code = codes.CSSCode(hx, hz, is_subsystem_code=False)
        ks = ["ka", "1", "kb"]
        lx = mat.matrix(F, ks, ["n"], {(i, 0): f"Lx{i}" for i in range(3)})
        lz = mat.matrix(F, ks, ["n"], {(i, 0): f"Lz{i}" for i in range(3)})
        for e in (hz @ lx.T, hx @ lz.T, lx @ lz.T - blocks.one(F, ks)):
            shim.assume_zero(e)
        code._logical_ops = mat.block_diag([lx, lz]).view(F)
        pauli = Pauli.X if ctx.decide("X") else Pauli.Z
        k = Dim.of("ka") + 1 + Dim.of("kb")
        k = Dim(k.t, (("ka",), ("1",), ("kb",)))
        with WithDimension(codes.QuditCode, k), Patch((decoders, "decode", arbitrary_decode(ctx, F))), \
                loops.cut(codes.CSSCode, "reduce_logical_op", {0: loops.Memoryless()}):
            code.reduce_logical_op(pauli, Dim.of("ka"))
        ops = code._logical_ops
        blocks.logical_rules(c, ops, code.matrix)
        x, z = blocks.halves(blocks.row_halves(ops)[0])
        c.zero(z, "X logicals have no Z part")
        c.zero(blocks.halves(blocks.row_halves(ops)[1])[0], "Z logicals have no X part")
        kept = lz if pauli is Pauli.X else lx
        got = blocks.halves(blocks.row_halves(ops)[1])[1] if pauli is Pauli.X else x
        c.equal(got, kept, "logical operators of the other type are unchanged")
        c.untouched()

    prove(h, "reduce_logical_op keeps a valid basis of logical operators", C + "CSSCode.reduce_logical_op", body, MODS,
          min_paths=2, int=scalar.sym_int)


    class Each(loops.Loop):
        def __init__(self, k):
            self.k, self.calls = k, []

        def enter(self, it, env):
            if not (isinstance(it, shim.SymRange) and it.start == 0 and it.step == 1 and Dim.of(it.n).same(self.k)):
                raise Unsupported("the loop does not run over all logical operators")

        def item(self, env):
            self.i = SInt("i")
            assume(z3.And(0 <= self.i.z, self.i.z < scalar.term(self.k)))
            return self.i

    def every(ctx, c, F):
        code = codes.CSSCode(*css_checks(F, "", n="n"), is_subsystem_code=False)
        k = Dim.of("k")
        pauli = None if ctx.decide("no type") else Pauli.X if ctx.decide("X") else Pauli.Z
        calls = []
        loop = Each(k)

        def one(self, p, index, **kw):
            c.valid(z3.And(0 <= scalar.term(index), scalar.term(index) < scalar.term(k)), "an index of a logical operator")
            c.true(index is loop.i, "the operator of this iteration")
            calls.append(p)
        real = loops.Loop.back
        with WithDimension(codes.QuditCode, k), Patch((codes.CSSCode, "reduce_logical_op", one)), \
                loops.cut(codes.CSSCode, "reduce_logical_ops", {0: loop}):
            loop.back = lambda env: c.true(calls and (pauli is None or calls[-1] is pauli), "each iteration reduces one operator of the given type")
            code.reduce_logical_ops(pauli)
        c.untouched()

    prove(h, "reduce_logical_ops reduces every logical operator of the given types", C + "CSSCode.reduce_logical_ops", every, MODS,
          min_paths=3, int=scalar.sym_int)
