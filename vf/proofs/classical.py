"""Classical code algebra (C06, C03): contracts on the live functions for matrices of every shape over every field."""
from __future__ import annotations

from vf import env  # noqa: F401
import z3

from vf.sym import loops, mat, shim
from vf.sym.scalar import SInt, term
from vf.sym.mat import CTX, Dim, Sel, Unsupported
from vf.sym.prove import M, prove

from .blocks import C, MODS
from .bounds import Patch, WithDimension, arbitrary_array

from qldpc import codes
from qldpc.codes import common

TRUSTED = shim.TRUSTED
CC = C + "ClassicalCode."


def kernel_of(ctx, basis):
    """The matrix whose null space (as reported by galois) the given matrix is."""
    for f in ctx.facts:
        if f[0] == "basis of kernel" and f[1].axes == basis.axes and shim.is_zero(f[1].view(shim.FIELD[0]) - basis.view(shim.FIELD[0])):
            return f[2]
    return None


def is_kernel(c, ctx, basis, of, what):
    a = kernel_of(ctx, basis)
    c.true(a is not None, f"{what}: a basis of a null space")
    c.equal(a, of, what)


def algebra(h):
    def generator(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        g = code.generator
        is_kernel(c, ctx, g, m, "the generator's rows are a basis of all words that satisfy the checks")
        c.true(code.generator is g, "kept")
        d = code.dual()
        c.equal(d.matrix, g, "the words of the dual are those orthogonal to every word")
        c.true(d.field is code.field, "field")
        c.equal((~code).matrix, g, "the operator ~")
        dd = ~d
        is_kernel(c, ctx, dd.matrix, g, "the checks of the double dual are a basis of what is orthogonal to every word")
        c.equal(code.matrix, m, "checks")
        c.untouched()

    prove(h, "generator and dual", CC + "dual", generator, MODS)

    def preset(ctx, c, F):
        m, g = M(F, "H", "r", "n", "matrix"), M(F, "G", "k", "n", "generator")
        code = codes.ClassicalCode(m)
        hrank, grank, k, n = SInt("rank_of_checks"), SInt("rank_of_generator"), term(Dim.of("k")), term(Dim.of("n"))
        code._dimension = None
        code.__dict__["rank"], code.__dict__["dimension"] = hrank, Dim.of("n") - hrank
        ranks = []

        def matrix_rank(a):
            ranks.append(a)
            return grank
        basis = z3.And(grank.z == n - hrank.z, k == grank.z)  # of all words, given that they are words
        import numpy
        with Patch((common.np, "linalg", shim.Shim(numpy.linalg, matrix_rank=matrix_rank))):
            try:
                code.set_generator(g)
            except ValueError:
                c.true(code._generator is None, "a rejected generator is not installed")
                facts = [f[1] for f in ctx.facts if f[0] == "nonzero"]
                bad = any(f.axes == (m @ g.T).axes and shim.is_zero(f - m @ g.T) for f in facts)
                if not bad:
                    if not all(shim.is_zero(r.view(F) - g) for r in ranks):
                        raise Unsupported("rank of another matrix")
                    c.valid(z3.Not(basis), "rejected although its rows are a basis of the words")
                return
        c.zero(m @ g.T, "an accepted generator consists of words")
        if not all(shim.is_zero(r.view(F) - g) for r in ranks):
            raise Unsupported("rank of another matrix")
        c.valid(basis, "an accepted generator is a basis of the words")
        c.equal(code.generator, g, "and is installed")
        c.equal(code.dual().matrix, g, "the dual uses it")
        c.untouched()

    prove(h, "set_generator accepts exactly bases of the words", CC + "set_generator", preset, MODS, min_paths=3)

    def from_generator(ctx, c, F):
        g = M(F, "G", "k", "n", "generator")
        code = codes.ClassicalCode.from_generator(g)
        is_kernel(c, ctx, code.matrix, g, "the checks are a basis of all vectors orthogonal to the generator")
        c.untouched()

    prove(h, "from_generator", CC + "from_generator", from_generator, MODS)

    def tensor(ctx, c, F):
        ga, gb = M(F, "Ga", "k1", "n1", "generator a"), M(F, "Gb", "k2", "n2", "generator b")
        a, b = codes.ClassicalCode(M(F, "A", "r1", "n1", "matrix a")), codes.ClassicalCode(M(F, "B", "r2", "n2", "matrix b"))
        a._generator, b._generator = ga, gb
        code = codes.ClassicalCode.tensor_product(a, b)
        is_kernel(c, ctx, code.matrix, mat.kron(ga, gb), "the checks are a basis of all vectors orthogonal to products of generators")
        c.true(code.field is F, "field")
        c.untouched()

    prove(h, "tensor_product is generated by products of generators", CC + "tensor_product", tensor, MODS)

    def contains(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        w = M(F, "W", "w", "n", "words") if ctx.decide("several words") else mat.matrix(F, ["1"], ["n"], {(0, 0): "w"}, owner="word").as_vec()
        code = codes.ClassicalCode(m)
        inside = w in code
        rows = w.as_row() if w.is_vec else w
        if inside:
            c.zero(m @ rows.T, "a word that is contained satisfies all checks")
        else:
            got = [f[1] for f in ctx.facts if f[0] == "nonzero"]
            got = [g.as_row().T if g.is_vec else g for g in got]
            want = m @ rows.T
            c.true(any(g.axes == want.axes and shim.is_zero(g - want) for g in got), "a word that is not contained violates a check")
        c.untouched()

    prove(h, "membership agrees with the checks", CC + "__contains__", contains, MODS, min_paths=4)

    def random_word(ctx, c, F):
        m, g = M(F, "H", "r", "n", "matrix"), M(F, "G", "k", "n", "generator")
        shim.assume_zero(m @ g.T)
        code = codes.ClassicalCode(m)
        code._generator = g
        w = code.get_random_word()
        c.zero((w - ctx.random[-1] @ g).as_row(), "a combination of generators")
        c.zero((m @ w).as_row(), "a word")
        c.untouched()

    prove(h, "random words are words", CC + "get_random_word", random_word, MODS,
          get_random_array=lambda *a, **k: arbitrary_array(CTX[-1])(*a, **k))

    def canonical(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        can = code.canonicalized
        x = can.matrix
        e = [f for f in ctx.facts if f[0] == "nonzero rows" and f[1].axes == x.axes and shim.is_zero(f[1] - x)]
        c.true(bool(e), "the nonzero rows of a matrix in reduced row echelon form")
        u = [f for f in ctx.facts if f[0] == "row reduced" and shim.is_zero(f[1] - e[0][2])]
        c.true(bool(u), "the row reduced matrix")
        c.equal(u[0][2], m, "reduction of the checks")
        c.zero(m - u[0][3] @ (e[0][3] @ x), "the checks are combinations of the canonical checks")
        c.true(can.field is code.field and Dim.of(code.rank).same(Dim.of(x.shape[0])), "rank is the number of canonical checks")
        c.true(Dim.of(common.len(code) - code.rank).same(Dim.of(code.dimension)), "dimension = n - rank")
        again = can.canonicalized.matrix
        c.equal(again, x, "canonical form of the canonical form")
        c.untouched()

    prove(h, "canonicalized, rank and dimension", CC + "canonicalized", canonical, MODS)

    def probe(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        c.zero(m @ codes.ClassicalCode(m).canonicalized.matrix.T, "probe")

    prove(h, "checks are self-orthogonal", CC + "canonicalized", probe, MODS, expect="fail")


class Distinct:
    """The bits given by the caller: distinct positions, each one a segment of size one."""

    def __init__(self, *positions):
        self.positions = positions

    def __iter__(self):
        return iter(self.positions)

    def __contains__(self, x):
        return any(x == p for p in self.positions)


def sym_sorted(x, *, key=None, reverse=False):
    if isinstance(x, (Distinct, tuple)) and any(isinstance(p, Dim) for p in x):
        return ("sorted", tuple(x), reverse, key)
    return sorted(x, key=key, reverse=reverse)


class Shorten(loops.Loop):
    """Each iteration turns a generator of the words into one of the words that vanish on a bit, and deletes the bit.

    The bits come in decreasing order, so that deleted bits have larger positions than the current one.
    """

    def __init__(self, c, F, bits):
        self.c, self.F, self.bits = c, F, bits

    def enter(self, it, env):
        if not (isinstance(it, tuple) and it and it[0] == "sorted"):
            raise Unsupported("the loop is not over a sorted collection")
        self.c.true(it[1] == self.bits and it[2] is True and it[3] is None,
                    "bits are visited in decreasing order, so that positions stay valid")
        self.c.equal(env["generator"], env["self"].generator, "starts from the generator")

    def havoc(self, env):
        self.g = mat.matrix(self.F, ["k"], ["n0", "1", "n1"], {(0, 0): "Ga", (0, 1): "g", (0, 2): "Gb"}, owner="generator")
        return {"generator": self.g}

    def item(self, env):
        return Dim.of("n0")

    def back(self, env):
        c, ctx, g = self.c, CTX[-1], self.g
        new = env["generator"]
        c.true(isinstance(new, shim.SymField) and tuple(new.axes[1].segs) == (("n0",), ("n1",)), "the bit is deleted, the others are in order")
        zero = mat.zeros(self.F, new.axes[0].segs, [("1",)])
        padded = mat.stack([new[:, Sel(0)], zero, new[:, Sel(1)]], 1)
        piv = [f for f in ctx.facts if f[0] == "row reduced with pivot"]
        v = mat.matrix(self.F, ["1"], ["k"], {(0, 0): "c"})  # an arbitrary word v @ g
        shim.assume_zero(v @ g[:, Sel(1)])  # that vanishes on the bit
        if piv:
            u, w, a = piv[0][1:]
            c.equal(a[:, Sel(2, 0, 1)], g, "the generator is reduced")
            c.zero(padded - u[Sel(1), :] @ g, "new words are words")
            c.zero(v @ g - (v @ w[:, Sel(1)]) @ padded, "every word that vanishes on the bit is kept")
        else:
            c.equal(padded, g, "no word is lost if all of them vanish on the bit")
        c.untouched()


def cutting(h):
    def puncture(number):
        def body(ctx, c, F):
            segs = ["n0", "1", "n1", "1", "n2"][:2 * number + 1]
            g = mat.matrix(F, ["k"], segs, {(0, i): f"G{i}" for i in range(len(segs))}, owner="generator")
            m = mat.matrix(F, ["r"], segs, {(0, i): f"H{i}" for i in range(len(segs))}, owner="matrix")
            code = codes.ClassicalCode(m)
            code._generator = g
            bits = [Dim.of("n0"), Dim.of("n0") + 1 + Dim.of("n1")][:number]
            if ctx.decide("other order"):
                bits = bits[::-1]
            with loops.cut(codes.ClassicalCode, "puncture", {}):
                new = code.puncture(*bits)
            is_kernel(c, ctx, new.matrix, g[:, Sel(*range(0, len(segs), 2))], "generated by the words without the given bits")
            c.untouched()
        return body

    for number in (0, 1, 2):
        prove(h, f"puncture {number} bits", CC + "puncture", puncture(number), MODS)

    def shorten(ctx, c, F):
        m = mat.matrix(F, ["r"], ["n0", "1", "n1"], {(0, i): f"H{i}" for i in range(3)}, owner="matrix")
        code = codes.ClassicalCode(m)
        code._generator = mat.matrix(F, ["k"], ["n0", "1", "n1"], {(0, i): f"G{i}" for i in range(3)}, owner="generator")
        bits = (Dim.of("n0"),)
        with loops.cut(codes.ClassicalCode, "shorten", {0: Shorten(c, F, bits)}):
            new = code.shorten(*bits)
        g = mat.matrix(F, ["k"], ["n0", "1", "n1"], {(0, 0): "Ga", (0, 1): "g", (0, 2): "Gb"})
        is_kernel(c, ctx, new.matrix, g, "the code is generated by the result of the last iteration")
        c.untouched()

    prove(h, "shorten keeps exactly the words that vanish on the bits", CC + "shorten", shorten, MODS, min_paths=3, sorted=sym_sorted)
