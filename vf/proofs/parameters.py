"""Code parameters (C03): contracts on the live functions for codes of every shape over every field.

Sizes are arbitrary natural numbers. Facts of linear algebra that are used, and not proved here: a gauge group whose
centre has rank s has rank s + 2g for a number g of gauge qudits, and n = k + g + s.
"""
from __future__ import annotations

from vf import env  # noqa: F401
from vf.sym import mat, shim
from vf.sym.mat import CTX, Dim, Sel
from vf.sym.prove import M, prove

from .blocks import C, MODS, comm, css_checks, css_logicals, halves, nonzero_facts, qudit_code, with_logicals

from qldpc import codes
from qldpc.codes import common
from qldpc.objects import Pauli

TRUSTED = shim.TRUSTED + ["linear algebra: the rank of a gauge group whose centre has rank s is s + 2g, and n = k + g + s"]
QC, CS, AC = C + "QuditCode.", C + "CSSCode.", C + "AbstractCode."


def rows(F, name, m):
    """Some operators, as many as `name` says."""
    return mat.matrix(F, [name], m.axes[1].segs, {(0, i): f"{name}{i}" for i in range(len(m.axes[1].segs))})


def dimensions(h):
    def stabilizer(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        code = codes.QuditCode(m, is_subsystem_code=False)
        can = code.canonicalized
        c.true(Dim.of(code.rank).same(Dim.of(can.matrix.shape[0])), "rank")
        c.true((Dim.of(code.dimension) + Dim.of(code.rank)).same("n"), "dimension = n - rank")
        c.true(code.gauge_dimension == 0, "no gauge qudits")
        c.true(Dim.of(common.len(code)).same("n") and Dim.of(code.num_qudits).same("n") and Dim.of(code.num_checks).same("ra"), "length and number of checks")
        c.untouched()

    prove(h, "stabilizer code: n, rank, k", QC + "dimension", stabilizer, MODS)

    def subsystem(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        ctx.sizes["n"] = Dim.of("k") + Dim.of("g") + Dim.of("s")
        code = codes.QuditCode(m, is_subsystem_code=True)
        code.__dict__["rank"] = Dim.of("s") + 2 * Dim.of("g")  # linear algebra of a gauge group
        asked = []

        def stabs(*a, **k):  # contract of get_stabilizer_ops: a minimal generating set of the centre
            asked.append((a, k))
            return rows(F, "s" if k.get("canonicalized") else "more", m)
        code.get_stabilizer_ops = stabs
        order = ctx.decide("gauge dimension first")
        if order:
            c.true(Dim.of(code.gauge_dimension).same("g"), "gauge dimension")
        c.true(Dim.of(code.dimension).same("k"), "dimension")
        c.true(Dim.of(code.gauge_dimension).same("g"), "gauge dimension")
        c.true((Dim.of(code.dimension) + code.gauge_dimension + Dim.of("s")).same("n"), "k + g + s = n")

    prove(h, "subsystem code: k and g", QC + "dimension", subsystem, MODS, min_paths=2)

    def known(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        code = codes.QuditCode(m, is_subsystem_code=False)
        if ctx.decide("dimension is known"):
            code._dimension = Dim.of("k")
        else:
            code._logical_ops = with_logicals(F, "a", m, k="k", segs="n")
        c.true(Dim.of(code.dimension).same("k"), "dimension of a code whose dimension or logical operators are known")

    prove(h, "known dimensions", QC + "dimension", known, MODS, min_paths=2)

    def css(ctx, c, F):
        hx, hz = css_checks(F, "", n="n")
        code = codes.CSSCode(hx, hz, is_subsystem_code=False)
        code.code_x.__dict__["rank"] = Dim.of("sx")
        code.code_z.__dict__["rank"] = Dim.of("sz")
        c.true(Dim.of(code.rank).same(Dim.of("sx") + Dim.of("sz")), "rank is the sum of ranks of the sectors")
        c.true((Dim.of(code.dimension) + Dim.of("sx") + Dim.of("sz")).same("n"), "dimension = n - rank")
        c.true(Dim.of(code.num_checks).same(Dim.of("rx") + Dim.of("rz")) and Dim.of(code.num_checks_x).same("rx") and Dim.of(code.num_checks_z).same("rz"), "numbers of checks")
        c.true(Dim.of(code.matrix.shape[0]).same(code.num_checks) and Dim.of(code.matrix.shape[1]).same(2 * Dim.of("n")), "shape of the checks")
        c.equal(code.get_matrix(Pauli.X), hx, "X checks")
        c.equal(code.get_matrix(Pauli.Z), hz, "Z checks")
        c.equal(code.get_code(Pauli.X).matrix, hx, "X code")
        c.equal(code.get_code(Pauli.Z).matrix, hz, "Z code")
        c.untouched()

    prove(h, "CSS code: n, rank, k, sectors", CS + "rank", css, MODS)

    def classical(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        code.__dict__["rank"] = Dim.of("s")
        if ctx.decide("dimension is known"):
            code._dimension = Dim.of("n") - Dim.of("s")
        c.true((Dim.of(code.dimension) + Dim.of("s")).same("n"), "dimension = n - rank")
        c.true(Dim.of(common.len(code)).same("n") and Dim.of(code.num_checks).same("r") and Dim.of(code.num_bits).same("n"), "length and number of checks")
        c.untouched()

    prove(h, "classical code: n, rank, k", C + "ClassicalCode.dimension", classical, MODS, min_paths=2)

    def probe(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        code = codes.QuditCode(m, is_subsystem_code=False)
        c.true(Dim.of(code.dimension).same("n"), "probe")

    prove(h, "every code has dimension n", QC + "dimension", probe, MODS, expect="fail")


def reduced(c, ctx, x, of, what):
    """x: the nonzero rows of the reduced row echelon form of `of`, and of has the same row space."""
    e = [f for f in ctx.facts if f[0] == "nonzero rows" and f[1].axes == x.axes and shim.is_zero(f[1] - x)]
    c.true(bool(e), f"{what}: the nonzero rows of a matrix in reduced row echelon form")
    u = [f for f in ctx.facts if f[0] == "row reduced" and f[1].axes == e[0][2].axes and shim.is_zero(f[1] - e[0][2])]
    c.true(bool(u), f"{what}: a row reduced matrix")
    c.equal(u[0][2], of, f"{what}: reduction of the right matrix")
    c.zero(of - u[0][3] @ (e[0][3] @ x), f"{what}: the original rows are combinations of the reduced rows")


def canonical(h):
    def qudit(sub):
        def body(ctx, c, F):
            m = qudit_code(F, "a", n="n")
            code = codes.QuditCode(m, is_subsystem_code=sub)
            can = code.canonicalized
            reduced(c, ctx, can.matrix, m, "canonical checks")
            c.true(isinstance(can, codes.QuditCode) and can.field is F and can.is_subsystem_code == sub, "a code of the same kind")
            c.true(Dim.of(code.rank).same(Dim.of(can.matrix.shape[0])), "rank")
            c.equal(code.matrix, m, "checks")
            c.untouched()
        return body

    prove(h, "canonicalized stabilizer code", QC + "canonicalized", qudit(False), MODS)
    prove(h, "canonicalized subsystem code", QC + "canonicalized", qudit(True), MODS)

    def css(sub):
        def body(ctx, c, F):
            hx, hz = css_checks(F, "", n="n", commuting=not sub)
            code = codes.CSSCode(hx, hz, is_subsystem_code=sub)
            can = code.canonicalized
            reduced(c, ctx, can.matrix_x, hx, "canonical X checks")
            reduced(c, ctx, can.matrix_z, hz, "canonical Z checks")
            c.true(isinstance(can, codes.CSSCode) and can.field is F and can.is_subsystem_code == sub, "a code of the same kind")
            c.true(Dim.of(code.rank).same(Dim.of(can.matrix_x.shape[0]) + Dim.of(can.matrix_z.shape[0])), "rank")
            c.equal(code.matrix_x, hx, "X checks")
            c.equal(code.matrix_z, hz, "Z checks")
            c.untouched()
        return body

    prove(h, "canonicalized CSS code", CS + "canonicalized", css(False), MODS)
    prove(h, "canonicalized CSS subsystem code", CS + "canonicalized", css(True), MODS)

    def stabs(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        code = codes.QuditCode(m, is_subsystem_code=False)
        c.true(code.get_stabilizer_ops() is code.matrix, "the stabilizers of a stabilizer code are its checks")
        reduced(c, ctx, code.get_stabilizer_ops(canonicalized=True), m, "canonical stabilizers")
        c.equal(code.get_stabilizer_ops(), m, "as before")
        c.untouched()

    prove(h, "stabilizers of a stabilizer code", QC + "get_stabilizer_ops", stabs, MODS)

    def substabs(ctx, c, F):
        g = qudit_code(F, "g", n="n")
        code = codes.QuditCode(g, is_subsystem_code=True)
        code._stabilizer_ops = s = mat.matrix(F, ["s"], ["n", "n"], {(0, 0): "Sx", (0, 1): "Sz"}, owner="stabilizers")
        flag = ctx.decide("already canonical")
        with common_patch(_is_canonicalized=lambda a: flag):
            x = code.get_stabilizer_ops(canonicalized=True)
        if flag:
            c.equal(x, s, "canonical stabilizers")
        else:
            reduced(c, ctx, x, s, "canonical stabilizers")
        c.true(code.get_stabilizer_ops() is s, "the stabilizers are not replaced")
        c.untouched()

    prove(h, "canonical stabilizers of a subsystem code", QC + "get_stabilizer_ops", substabs, MODS, min_paths=2)


class common_patch:
    def __init__(self, **names):
        self.names = names

    def __enter__(self):
        self.saved = {n: getattr(common, n) for n in self.names}
        for n, v in self.names.items():
            setattr(common, n, v)

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(common, n, v)


def kept_distance(code, d):
    """The known distance is kept, unless the code turns out to be trivial."""
    got = code.get_distance_if_known()
    return got == d if code.dimension != 0 else got != got


def relations(h):
    def equiv(kind):
        def body(ctx, c, F):
            if kind == "qudit":
                a, b = (codes.QuditCode(mat.matrix(F, ["r"], ["n", "n"], {(0, 0): f"X{t}", (0, 1): f"Z{t}"}), is_subsystem_code=False) for t in "ab")
                ca, cb = (codes.QuditCode(mat.matrix(F, ["s"], ["n", "n"], {(0, 0): f"CX{t}", (0, 1): f"CZ{t}"}), is_subsystem_code=False) for t in "ab")
            else:
                a, b = (codes.ClassicalCode(M(F, f"H{t}", "r", "n")) for t in "ab")
                ca, cb = (codes.ClassicalCode(M(F, f"C{t}", "s", "n")) for t in "ab")
            a.__dict__["canonicalized"], b.__dict__["canonicalized"] = ca, cb
            d = ca.matrix - cb.matrix
            if type(a).equiv(a, b):
                c.zero(d, "equivalent codes have the same canonical checks")
            else:
                c.true(any(f.axes == d.axes and (shim.is_zero(f - d) or shim.is_zero(f + d)) for f in nonzero_facts(ctx)), "other codes do not")
        return body

    for kind in ("classical", "qudit"):
        prove(h, f"equivalence of {kind} codes", AC + "equiv", equiv(kind), MODS, min_paths=2)

    def equiv_css(ctx, c, F):
        cs, cans = [], []
        for t in "ab":
            hx, hz = css_checks(F, t, n="n")
            code = codes.CSSCode(hx, hz, is_subsystem_code=False)
            for side, sub in (("x", code.code_x), ("z", code.code_z)):
                sub.__dict__["canonicalized"] = codes.ClassicalCode(M(F, f"C{side}{t}", f"s{side}", "n"))
            cs.append(code)
        dx, dz = (cs[0].get_code(p).canonicalized.matrix - cs[1].get_code(p).canonicalized.matrix for p in (Pauli.X, Pauli.Z))
        if codes.CSSCode.equiv(*cs):
            c.zero(dx, "equivalent codes have the same canonical X checks")
            c.zero(dz, "equivalent codes have the same canonical Z checks")
        else:
            c.true(any(f.axes == d.axes and (shim.is_zero(f - d) or shim.is_zero(f + d)) for f in nonzero_facts(ctx) for d in (dx, dz)), "other codes do not")

    prove(h, "equivalence of CSS codes", CS + "equiv", equiv_css, MODS, min_paths=3)

    def copies(ctx, c, F):
        m = M(F, "H", "r", "n", "matrix")
        code = codes.ClassicalCode(m)
        code._dimension, code._distance = Dim.of("k"), 7
        code._generator = M(F, "G", "k", "n", "generator")
        new = codes.ClassicalCode(code)
        c.true(new is not code and new == code and new.field is F, "an equal code")
        c.equal(new.matrix, m, "checks")
        c.true(Dim.of(new.dimension).same("k") and kept_distance(new, 7), "parameters")
        c.equal(new.generator, code.generator, "generator")
        c.untouched()

    prove(h, "copy of a classical code", C + "ClassicalCode.__init__", copies, MODS)

    def qcopies(sub):
        def body(ctx, c, F):
            m = qudit_code(F, "a", n="n")
            code = codes.QuditCode(m, is_subsystem_code=sub)
            if not sub:
                shim.assume_zero(comm(m, m))
            code._dimension, code._distance = Dim.of("k"), 5
            code._logical_ops = with_logicals(F, "a", m, k="k", segs="n")
            code._stabilizer_ops = mat.matrix(F, ["s"], ["n", "n"], {(0, 0): "Sx", (0, 1): "Sz"})
            code._gauge_ops = mat.matrix(F, ["g", "g"], ["n", "n"], {(i, j): f"G{i}{j}" for i in range(2) for j in range(2)})
            new = codes.QuditCode(code)
            c.equal(new.matrix, m, "checks")
            c.true(new.field is F and new.is_subsystem_code == sub and Dim.of(new.dimension).same("k"), "parameters")
            c.equal(new.get_logical_ops(), code._logical_ops, "logical operators")
            c.equal(new.get_stabilizer_ops(), code.get_stabilizer_ops(), "stabilizers")
            if sub:
                c.equal(new.get_gauge_ops(), code._gauge_ops, "gauge operators")
            c.true(kept_distance(new, 5) and new == code, "distance")
            c.untouched()
        return body

    prove(h, "copy of a qudit code", QC + "__init__", qcopies(False), MODS)
    prove(h, "copy of a subsystem code", QC + "__init__", qcopies(True), MODS)

    def equality(ctx, c, F):
        a, b = (codes.QuditCode(mat.matrix(F, ["r"], ["n", "n"], {(0, 0): f"X{t}", (0, 1): f"Z{t}"}), is_subsystem_code=False) for t in "ab")
        d = a.matrix - b.matrix
        if a == b:
            c.zero(d, "equal codes have the same checks")
        else:
            c.true(any(f.axes == d.axes and (shim.is_zero(f - d) or shim.is_zero(f + d)) for f in nonzero_facts(ctx)), "other codes do not")

    prove(h, "equality of qudit codes", QC + "__eq__", equality, MODS, min_paths=2)
