"""Contracts over matrices of arbitrary shape and field, proved on the live functions (see vf/sym)."""
from __future__ import annotations

import copy

from vf import env  # noqa: F401
from vf.sym import mat, shim
from vf.sym.mat import Dim, Perm, Sel, Unsupported
from vf.sym.prove import M, prove

from qldpc import abstract, codes, math as qmath, objects
from qldpc.codes import classical, common, quantum
from qldpc.objects import Pauli

TRUSTED = shim.TRUSTED
MODS = [common, quantum, classical, qmath]
C, Q = "qldpc.codes.common.", "qldpc.codes.quantum."


# ---- specification vocabulary (independent of the code)


def halves(a):
    segs = a.axes[1].segs
    m = len(segs) // 2
    return a[:, Sel(*range(m))], a[:, Sel(*range(m, 2 * m))]


def comm(a, b):
    """Symplectic products of the rows of a and b: Ax Bz^T - Az Bx^T."""
    (ax, az), (bx, bz) = halves(a), halves(b)
    return ax @ bz.T - az @ bx.T


def row_halves(a):
    segs = a.axes[0].segs
    m = len(segs) // 2
    return a[Sel(*range(m)), :], a[Sel(*range(m, 2 * m)), :]


def one(F, segs):
    return mat.identity(F, segs)


def as_field(a):
    return a.view(shim.FIELD[0])


def logical_rules(c, ops, checks, who=""):
    """ops: rows [X; Z] with the j-th X and Z rows dual to each other and everything else commuting; all commute with checks."""
    lx, lz = row_halves(ops)
    c.zero(comm(checks, ops), f"{who} logical operators commute with the checks")
    c.equal(comm(lx, lz), one(type(ops), lx.axes[0].segs), f"{who} X and Z logical operators are dual pairs")
    c.zero(comm(lx, lx), f"{who} X logical operators commute with each other")
    c.zero(comm(lz, lz), f"{who} Z logical operators commute with each other")


def nonzero_facts(ctx):
    return [f[1] for f in ctx.facts if f[0] == "nonzero"]


def assume_commuting(a, b):
    shim.assume_zero(comm(a, b))


def qudit_code(F, tag, owner=True, rows=None, n=None):
    """An arbitrary QuditCode object (built by the real constructor from an arbitrary matrix)."""
    rows, n = rows or f"r{tag}", n or f"n{tag}"
    m = mat.matrix(F, [rows], [n, n], {(0, 0): f"X{tag}", (0, 1): f"Z{tag}"}, owner=f"matrix {tag}" if owner else None)
    return m


def with_logicals(F, tag, checks, stabilizer=True, k=None, segs=None):
    """Logical operators that satisfy the rules for the given checks (hypotheses)."""
    k = k or f"k{tag}"
    n = segs or checks.axes[1].segs[0]
    ops = mat.matrix(F, [k, k], [n, n] if isinstance(n, tuple) else [n, n], {(0, 0): f"LXx{tag}", (0, 1): f"LXz{tag}", (1, 0): f"LZx{tag}", (1, 1): f"LZz{tag}"})
    lx, lz = row_halves(ops)
    for e in (comm(checks, ops), comm(lx, lz) - one(F, lx.axes[0].segs), comm(lx, lx), comm(lz, lz)):
        shim.assume_zero(e)
    return ops


def css_checks(F, tag, commuting=True, n=None):
    n = n or f"n{tag}"
    hx = M(F, f"Hx{tag}", f"rx{tag}", n, owner=f"Hx {tag}")
    hz = M(F, f"Hz{tag}", f"rz{tag}", n, owner=f"Hz {tag}")
    if commuting:
        shim.assume_zero(hx @ hz.T)
    return hx, hz


def css_logicals(F, tag, hx, hz, k=None):
    k = k or f"k{tag}"
    lx = mat.matrix(F, [k], hx.axes[1].segs, {(0, 0): f"Lx{tag}"})
    lz = mat.matrix(F, [k], hx.axes[1].segs, {(0, 0): f"Lz{tag}"})
    for e in (hz @ lx.T, hx @ lz.T, lx @ lz.T - one(F, [k])):
        shim.assume_zero(e)
    return lx, lz


# ---- C01: checks commute; the subsystem flag


def flag(h):
    def symp(ctx, c, F):
        a, b = qudit_code(F, "a", n="n"), qudit_code(F, "b", n="n")
        got = common.symplectic_conjugate(a) @ b.T
        c.true(shim.is_zero(got - comm(a, b)) or shim.is_zero(got + comm(a, b)), "the symplectic product, up to sign")
        c.untouched()

    prove(h, "symplectic_conjugate gives the symplectic product", "qldpc.math.symplectic_conjugate", symp, MODS)

    def qudit_flag(ctx, c, F):
        m = qudit_code(F, "a")
        code = codes.QuditCode(m)
        got = comm(m, m)
        if code.is_subsystem_code:
            c.true(any(shim.is_zero(f - got) or shim.is_zero(f + got) for f in nonzero_facts(ctx)), "flagged as subsystem code only if some checks do not commute")
        else:
            c.zero(got, "checks of a code that is not flagged commute")
        c.equal(code.matrix, m, "checks are the given ones")
        c.untouched()

    prove(h, "QuditCode flags exactly the codes whose checks do not commute", C + "QuditCode.__init__", qudit_flag, MODS, min_paths=2)

    def css_flag(ctx, c, F):
        hx, hz = css_checks(F, "", commuting=False)
        code = codes.CSSCode(hx, hz)
        got = hx @ hz.T
        if code.is_subsystem_code:
            c.true(any(shim.is_zero(f - got) for f in nonzero_facts(ctx)), "flagged as subsystem code only if some checks do not commute")
        else:
            c.zero(comm(code.matrix, code.matrix), "checks of a code that is not flagged commute")
        x, z = halves(code.matrix)
        c.equal(x[Sel(0), :], hx, "X checks")
        c.equal(z[Sel(1), :], hz, "Z checks")
        c.zero(x[Sel(1), :], "Z checks have no X part")
        c.zero(z[Sel(0), :], "X checks have no Z part")
        c.true(Dim.of(common.len(code)).same("n") and Dim.of(code.num_checks).same(Dim.of("rx") + Dim.of("rz")), "length and number of checks")
        c.untouched()

    prove(h, "CSSCode flags exactly the codes whose checks do not commute", C + "CSSCode.__init__", css_flag, MODS, min_paths=2)

    def flag_probe(ctx, c, F):
        m = qudit_code(F, "a")
        code = codes.QuditCode(m, is_subsystem_code=False)
        c.zero(comm(code.matrix, code.matrix), "probe")

    prove(h, "checks commute without a test", C + "QuditCode.__init__", flag_probe, MODS, expect="fail")


def products(h):
    def hgp(ctx, c, F):
        a, b = M(F, "A", "m1", "n1", "A"), M(F, "B", "m2", "n2", "B")
        code = codes.HGPCode(a, b, set_logicals=True)
        c.true(not code.is_subsystem_code, "not flagged as a subsystem code")
        c.zero(code.matrix_x @ code.matrix_z.T, "Hx Hz^T = 0")
        c.zero(comm(code.matrix, code.matrix), "all checks commute")
        logical_rules(c, code.get_logical_ops(), code.matrix, "canonical")
        c.untouched()

    prove(h, "HGPCode has commuting checks and valid canonical logical operators", Q + "HGPCode.__init__", hgp, MODS)

    def hgp_probe(ctx, c, F):
        a, b = M(F, "A", "m1", "n1"), M(F, "B", "m2", "n2")
        x, z = codes.HGPCode.get_matrix_product(a, b)
        c.zero(x @ x.T, "probe")

    prove(h, "X checks are self-orthogonal", Q + "HGPCode.get_matrix_product", hgp_probe, MODS, expect="fail")

    def hgp_same(ctx, c, F):
        a = M(F, "A", "m1", "n1", "A")
        code = codes.HGPCode(a, set_logicals=True)
        c.zero(comm(code.matrix, code.matrix), "all checks commute")
        logical_rules(c, code.get_logical_ops(), code.matrix, "canonical")
        c.untouched()

    prove(h, "HGPCode of one seed", Q + "HGPCode.__init__", hgp_same, MODS)

    def tb(ctx, c, F):
        a, b = M(F, "A", "n", "n", "A"), M(F, "B", "n", "n", "B")
        try:
            code = codes.TBCode(a, b)
        except ValueError:
            c.true(any(shim.is_zero(f - (a @ b - b @ a)) or shim.is_zero(f + (a @ b - b @ a)) for f in nonzero_facts(ctx)), "only matrices that do not commute are rejected")
            return
        c.zero(comm(code.matrix, code.matrix), "all checks commute")
        c.true(not code.is_subsystem_code, "not flagged as a subsystem code")
        c.equal(code.matrix_x, shim_hstack(a, b), "Hx = [A, B]")
        c.untouched()

    prove(h, "TBCode accepts exactly commuting matrices and has commuting checks", Q + "TBCode.__init__", tb, MODS, min_paths=2)

    def shp(ctx, c, F):
        a, b = M(F, "A", "m1", "n1", "A"), M(F, "B", "m2", "n2", "B")
        code = codes.SHPCode(a, b, set_logicals=True)
        c.true(code.is_subsystem_code, "flagged as a subsystem code")
        logical_rules(c, code.get_logical_ops(), code.matrix, "canonical")
        stabs = code.get_stabilizer_ops()
        c.zero(comm(code.matrix, stabs), "stabilizers commute with all gauge operators")
        c.zero(comm(stabs, stabs), "stabilizers commute with each other")
        c.untouched()

    prove(h, "SHPCode: stabilizers and canonical logical operators obey their rules", Q + "SHPCode.__init__", shp, MODS)


def shim_hstack(*arrs):
    return mat.stack(list(arrs), 1)


# ---- operators


def logicals_css(h):
    """get_logical_ops, given the contract of the standard form."""

    def std(F, subsystem):
        if not subsystem:
            segs = ["l", "sx", "sz"]
            x = mat.matrix(F, ["sx"], segs, {(0, 0): "A", (0, 1): "1", (0, 2): "B"})
            z = mat.matrix(F, ["sz"], segs, {(0, 0): "C", (0, 1): "D", (0, 2): "1"})
            perm = mat.permutation(F, "R", ["n"], segs)
            nsx, nsz, nl = Dim.of("sx"), Dim.of("sz"), Dim.of("l")
            rows = slice(nsx), slice(0), slice(nsz), slice(0)
            cl = slice(nl)
            cols = slice(nl, nl + nsx), slice(0), cl, slice(nl + nsx, nl + nsx + nsz), slice(0), cl
            return x, z, perm, rows, cols
        segs = ["gl", "sx", "sz"]
        x = mat.matrix(F, ["sx", "g"], segs, {(0, 0): "A", (0, 1): "1", (0, 2): "B", (1, 0): "G", (1, 2): "E"})
        z = mat.matrix(F, ["sz", "g"], segs, {(0, 0): "C", (0, 1): "D", (0, 2): "1", (1, 0): "H", (1, 1): "K"})
        perm = mat.permutation(F, "R", ["n"], segs)
        ngl, nsx, nsz, ng = map(Dim.of, ("gl", "sx", "sz", "g"))
        rows = slice(nsx), slice(nsx, nsx + ng), slice(nsz), slice(nsz, nsz + ng)
        cols = slice(ngl, ngl + nsx), Sel(0), Sel(), slice(ngl + nsx, ngl + nsx + nsz), Sel(0), Sel()
        return x, z, perm, rows, cols

    def run(subsystem):
        def body(ctx, c, F):
            x, z, perm, rows, cols = std(F, subsystem)
            ctx.sizes["n"] = Dim.of(x.axes[1].size)
            # the checks are invertible multiples of the standard form, with qudits moved back
            back = perm.inverse()
            hx = x[:, back]
            hz = z[:, back]
            ux, uz = M(F, "Ux", "rx", "sx"), M(F, "Uz", "rz", "sz")
            if subsystem:
                ux, uz = mat.matrix(F, ["rx"], ["sx", "g"], {(0, 0): "Ux0", (0, 1): "Ux1"}), mat.matrix(F, ["rz"], ["sz", "g"], {(0, 0): "Uz0", (0, 1): "Uz1"})
            code = codes.CSSCode(ux @ hx, uz @ hz, is_subsystem_code=subsystem)
            code._dimension = Dim.of("l")
            code.get_standard_form_data_xz = lambda: (x, z, perm, rows, cols)
            if subsystem:
                # the null spaces of the gauge sectors have one row per logical qudit
                real = F.null_space

                def null(a):
                    v = real(a)
                    return rename_rows(v, "l")
                F.null_space, saved = null, real
            ctx.splits[(("n",),)] = x.axes[1].segs
            try:
                ops = code.get_logical_ops()
            finally:
                ctx.splits.clear()
                if subsystem:
                    F.null_space = saved
            c.true(Dim.of(ops.axes[0].size).same(2 * Dim.of("l")), "number of logical operators")
            logical_rules(c, as_field(ops), code.matrix)
            lx, lz = row_halves(as_field(ops))
            c.zero(halves(lx)[1], "X logicals have no Z part")
            c.zero(halves(lz)[0], "Z logicals have no X part")
        return body

    def join(*xs):
        if any(isinstance(s, Sel) for s in xs):
            return Sel(*[p for s in xs for p in s.positions])
        return JOIN(*xs)

    JOIN = common._join_slices
    extra = dict(_join_slices=join)
    prove(h, "CSSCode.get_logical_ops (stabilizer code) obeys the rules", C + "CSSCode.get_logical_ops", run(False), MODS)
    with_sort(lambda: prove(h, "CSSCode.get_logical_ops (subsystem code) obeys the rules", C + "CSSCode.get_logical_ops", run(True), MODS, **extra))


def rename_rows(v, name):
    """The same matrix with its row segment called `name` (a size that is known to be equal)."""
    axes = [mat.Axis(segs=[(name,)]), v.axes[1]]
    return type(v)(axes, v.cells)


def with_sort(f):
    saved = shim.np_shim

    def np_shim():
        s = saved()
        import numpy
        s.__dict__["sort"] = lambda x, **k: x if isinstance(x, Sel) else numpy.sort(x, **k)
        return s
    shim.np_shim = np_shim
    try:
        f()
    finally:
        shim.np_shim = saved


def logicals_qudit(h):
    """QuditCode.get_logical_ops, given the contract of the standard form."""

    def std(F, subsystem):
        if not subsystem:
            segs = ["l", "sx", "sz"]
            x = mat.matrix(F, ["sx", "sz"], segs, {(0, 0): "A", (0, 1): "1", (0, 2): "B"})
            z = mat.matrix(F, ["sx", "sz"], segs, {(0, 0): "P", (0, 1): "Q", (0, 2): "R", (1, 0): "C", (1, 1): "D", (1, 2): "1"})
            nsx, nsz, nl = Dim.of("sx"), Dim.of("sz"), Dim.of("l")
            rows = slice(nsx), slice(0), slice(nsx, nsx + nsz), slice(0)
            cols = slice(nl, nl + nsx), slice(0), slice(nl), slice(nl + nsx, nl + nsx + nsz), slice(0), slice(nl)
        perm = mat.permutation(F, "T", ["n"], segs)
        m = mat.stack([x, z], 1)
        return m.reshape(-1, 2, Dim.of(x.axes[1].size)), perm, rows, cols

    def body(ctx, c, F):
        segs = (("l",), ("sx",), ("sz",))
        ctx.sizes["n"] = Dim.of("l") + Dim.of("sx") + Dim.of("sz")
        m3, perm, rows, cols = std(F, False)
        flat = m3.reshape(-1, 2 * Dim.of(m3.shape[2]))
        shim.assume_zero(comm(flat, flat))
        x, z = m3[:, 0, :], m3[:, 1, :]
        back = perm.inverse()
        orig = mat.stack([x[:, back], z[:, back]], 1)
        u = mat.matrix(F, ["r"], ["sx", "sz"], {(0, 0): "U0", (0, 1): "U1"})
        code = codes.QuditCode(u @ orig, is_subsystem_code=False)
        code._dimension = Dim.of("l")
        code.get_standard_form_data = lambda: (m3, perm, rows, cols)
        ctx.splits[(("n",),)] = segs
        try:
            ops = code.get_logical_ops()
        finally:
            ctx.splits.clear()
        c.true(Dim.of(ops.axes[0].size).same(2 * Dim.of("l")), "number of logical operators")
        logical_rules(c, as_field(ops), code.matrix)
        c.zero(halves(row_halves(as_field(ops))[1])[0], "Z logicals have no X part")
        c.true(code.get_logical_ops() is ops, "the operators are kept")

    prove(h, "QuditCode.get_logical_ops (stabilizer code) obeys the rules", C + "QuditCode.get_logical_ops", body, MODS)


def setters(h):
    """set_logical_ops accepts only operators that obey the rules."""

    def qudit(ctx, c, F):
        m = qudit_code(F, "a", n="n")
        code = codes.QuditCode(m, is_subsystem_code=False)
        code._dimension = Dim.of("k")
        ops = mat.matrix(F, ["k", "k"], ["n", "n"], {(0, 0): "a", (0, 1): "b", (1, 0): "c", (1, 1): "d"}, owner="logical operators")
        try:
            code.set_logical_ops(ops)
        except ValueError:
            c.true(bool(nonzero_facts(ctx)), "operators that obey the rules are rejected")
            lx, lz = row_halves(ops)
            rules = [comm(m, ops), comm(lx, lz) - one(F, lx.axes[0].segs), comm(lx, lx), comm(lz, lz)]
            last = nonzero_facts(ctx)[-1]
            c.true(any(shim.is_zero(last - r) or shim.is_zero(last + r) for r in rules if r.axes == last.axes), "rejected although no rule is violated")
            return
        logical_rules(c, code.get_logical_ops(), m)
        c.equal(code.get_logical_ops(), ops, "the given operators are installed")
        c.untouched()

    prove(h, "set_logical_ops accepts exactly the operators that obey the rules", C + "QuditCode.set_logical_ops", qudit, MODS, min_paths=4)

    def css(ctx, c, F):
        hx, hz = css_checks(F, "")
        code = codes.CSSCode(hx, hz)
        code._dimension = Dim.of("k")
        lx, lz = M(F, "a", "k", "n", "X logicals"), M(F, "b", "k", "n", "Z logicals")
        try:
            code.set_logical_ops_xz(lx, lz)
        except ValueError:
            last = nonzero_facts(ctx)[-1]
            rules = [hz @ lx.T, hx @ lz.T, lx @ lz.T - one(F, lx.axes[0].segs)]
            c.true(any(not shim.is_zero(r) for r in rules), "rejected although no rule is violated")
            return
        logical_rules(c, code.get_logical_ops(), code.matrix)
        c.equal(code.get_logical_ops(Pauli.X), lx, "X logicals are the given ones")
        c.equal(code.get_logical_ops(Pauli.Z), lz, "Z logicals are the given ones")
        x, z = halves(code.get_logical_ops(Pauli.X, symplectic=True))
        c.equal(x, lx, "symplectic X logicals")
        c.zero(z, "symplectic X logicals have no Z part")
        x, z = halves(code.get_logical_ops(Pauli.Z, symplectic=True))
        c.equal(z, lz, "symplectic Z logicals")
        c.zero(x, "symplectic Z logicals have no X part")
        c.untouched()

    prove(h, "set_logical_ops_xz accepts exactly the operators that obey the rules", C + "CSSCode.set_logical_ops_xz", css, MODS, min_paths=2)


def stabilizers(h):
    """Stabilizers of subsystem codes: operators that commute with the gauge group and with all that commute with it."""

    def qudit(ctx, c, F):
        g = qudit_code(F, "g", n="n")
        code = codes.QuditCode(g, is_subsystem_code=True)
        code.__dict__["canonicalized"] = codes.QuditCode(g, is_subsystem_code=True)  # contract: the same row space
        s = code.get_stabilizer_ops()
        c.zero(comm(s, g), "stabilizers commute with the gauge group")
        # every operator that commutes with the gauge group is a combination of the kernel basis
        v = qudit_code(F, "v", n="n")
        rot = lambda a: mat.stack([-halves(a)[1], halves(a)[0]], 1)
        kern = [f for f in ctx.facts if f[0] == "basis of kernel"]
        ok = False
        for f in kern:
            if f[2].axes != g.axes:
                continue
            if shim.is_zero(f[2] - rot(g)) or shim.is_zero(f[2] + rot(g)):
                c.zero(comm(s, f[1]), "stabilizers commute with all bare and dressed logical operators")
                k = shim.factor(s, f[1])
                c.true(k is not None, "stabilizers are combinations of operators that commute with the gauge group")
                c.zero(comm(s, k[1]), "stabilizers commute with each other")  # s = k[1]
                ok = True
        c.true(ok, "the operators that commute with the gauge group are the kernel of its symplectic dual")
        c.true(any(shim.is_zero(f[1] - s) for f in kern if f[1].axes == s.axes), "stabilizers are a basis of all such operators")
        c.untouched()

    prove(h, "stabilizers of a subsystem code are the centre of its gauge group", C + "QuditCode.get_stabilizer_ops", qudit, MODS)

    def css(ctx, c, F):
        gx, gz = css_checks(F, "g", commuting=False, n="n")
        code = codes.CSSCode(gx, gz, is_subsystem_code=True)
        code.__dict__["canonicalized"] = codes.CSSCode(gx, gz, is_subsystem_code=True)
        s = code.get_stabilizer_ops()
        c.zero(comm(s, code.matrix), "stabilizers commute with the gauge group")
        kern = [f for f in ctx.facts if f[0] == "basis of kernel"]
        found = 0
        for own, other, pauli in ((gx, gz, Pauli.X), (gz, gx, Pauli.Z)):
            for f in kern:
                if f[2].axes == own.axes and shim.is_zero(f[2] - own):  # f[1]: operators of the other type that commute with own
                    side = s[Sel(0), :] if pauli is Pauli.X else s[Sel(1), :]
                    x, z = halves(side)
                    op = x if pauli is Pauli.X else z
                    c.zero(z if pauli is Pauli.X else x, "stabilizers have one type each")
                    c.zero(f[1] @ op.T, "stabilizers commute with all bare logical operators")
                    found += 1
        c.true(found == 2, "the operators that commute with the gauge group")
        c.untouched()

    prove(h, "stabilizers of a CSS subsystem code are the centre of its gauge group", C + "CSSCode.get_stabilizer_ops", css, MODS)

    def dual(ctx, c, F):
        g = qudit_code(F, "g", n="n")
        code = codes.QuditCode(g, is_subsystem_code=True)
        code._stabilizer_ops = qudit_code(F, "s", n="n")
        shim.assume_zero(comm(g, code._stabilizer_ops))
        shim.assume_zero(comm(code._stabilizer_ops, code._stabilizer_ops))
        code._logical_ops = with_logicals(F, "", g, segs="n")
        shim.assume_zero(comm(code._stabilizer_ops, code._logical_ops))
        code._dimension = Dim.of("k")
        d = code.get_dual_subsystem_code()
        c.zero(comm(d.matrix, g), "gauge operators of the code commute with the checks of its dual")
        lx, lz = row_halves(code._logical_ops)
        c.equal(d.matrix, mat.stack([code._stabilizer_ops, code._logical_ops], 0), "the dual is generated by stabilizers and logical operators")

    prove(h, "the dual subsystem code swaps gauge and logical operators", C + "QuditCode.get_dual_subsystem_code", dual, MODS)


def conjugation(h):
    def body_for(with_ops):
        def body(ctx, c, F):
            m = mat.matrix(F, ["r"], ["a", "b", "a", "b"], {(0, 0): "Xa", (0, 1): "Xb", (0, 2): "Za", (0, 3): "Zb"}, owner="matrix")
            w = mat.matrix(F, ["s"], ["a", "b", "a", "b"], {(0, 0): "Ya", (0, 1): "Yb", (0, 2): "Wa", (0, 3): "Wb"}, owner="matrix 2")
            code = codes.QuditCode(m, is_subsystem_code=False)
            other = codes.QuditCode(w, is_subsystem_code=False)
            if with_ops:
                shim.assume_zero(comm(m, m))
                ops = mat.matrix(F, ["k", "k"], ["a", "b", "a", "b"], {(i, j): f"L{i}{j}" for i in range(2) for j in range(4)}, owner="logical operators")
                lx, lz = row_halves(ops)
                for e in (comm(m, ops), comm(lx, lz) - one(F, lx.axes[0].segs), comm(lx, lx), comm(lz, lz)):
                    shim.assume_zero(e)
                code._logical_ops = ops
                code._dimension = Dim.of("k")
                dim = codes.QuditCode.__dict__["dimension"]
                saved = codes.QuditCode.dimension
                codes.QuditCode.dimension = property(lambda self: Dim.of("k"))  # contract: see C03
                try:
                    new = code.conjugated(slice(Dim.of("a")))
                finally:
                    codes.QuditCode.dimension = saved
                logical_rules(c, new._logical_ops, new.matrix)
                x, z = halves(new._logical_ops)
                ox, oz = halves(ops)
                c.equal(x[:, Sel(1)], ox[:, Sel(1)], "X part of logical operators of other qudits")
                c.equal(z[:, Sel(1)], oz[:, Sel(1)], "Z part of logical operators of other qudits")
            else:
                new = code.conjugated(slice(Dim.of("a")))
                new2 = other.conjugated(slice(Dim.of("a")))
                c.equal(comm(new.matrix, new2.matrix), comm(m, w), "all symplectic products are kept")
            x, z = halves(new.matrix)
            ox, oz = halves(m)
            c.equal(x[:, Sel(1)], ox[:, Sel(1)], "X part of other qudits")
            c.equal(z[:, Sel(1)], oz[:, Sel(1)], "Z part of other qudits")
            nx, nz, mx, mz = x[:, Sel(0)], z[:, Sel(0)], ox[:, Sel(0)], oz[:, Sel(0)]
            c.true((shim.is_zero(nx + mz) or shim.is_zero(nx - mz)) and (shim.is_zero(nz - mx) or shim.is_zero(nz + mx)), "X and Z parts are exchanged on the conjugated qudits")
            c.true(new.is_subsystem_code == code.is_subsystem_code, "flag")
            c.untouched()
        return body

    prove(h, "conjugated preserves symplectic products and other qudits", C + "QuditCode.conjugated", body_for(False), MODS)
    prove(h, "conjugated carries logical operators along", C + "QuditCode.conjugated", body_for(True), MODS)

    def probe(ctx, c, F):
        m = mat.matrix(F, ["r"], ["a", "b", "a", "b"], {(0, 0): "Xa", (0, 1): "Xb", (0, 2): "Za", (0, 3): "Zb"})
        new = codes.QuditCode(m, is_subsystem_code=False).conjugated(slice(Dim.of("a")))
        c.equal(new.matrix, m, "probe")

    prove(h, "conjugation does nothing", C + "QuditCode.conjugated", probe, MODS, expect="fail")


def stacking(h):
    def qudit(number, inherit):
        def body(ctx, c, F):
            mats = [qudit_code(F, str(i)) for i in range(number)]
            cs = [codes.QuditCode(m, is_subsystem_code=False) for m in mats]
            for i, (code, m) in enumerate(zip(cs, mats)):
                shim.assume_zero(comm(m, m))
                code._logical_ops = with_logicals(F, str(i), m)
                code._dimension = Dim.of(f"k{i}")
            saved = codes.QuditCode.dimension
            total = Dim.of(mat._prod([1]) - 1)
            for i in range(number):
                total = total + Dim.of(f"k{i}")
            codes.QuditCode.dimension = property(lambda self: self._dimension if self._dimension is not None else total)
            try:
                code = codes.QuditCode.stack(*cs, inherit_logicals=inherit)
            finally:
                codes.QuditCode.dimension = saved
            x, z = halves(code.matrix)
            for i, m in enumerate(mats):
                mx, mz = halves(m)
                for j in range(number):
                    bx, bz = x[Sel(i), Sel(j)] if False else x[Sel(i), :][:, Sel(j)], z[Sel(i), :][:, Sel(j)]
                    if i == j:
                        c.equal(bx, mx, "X part of a block")
                        c.equal(bz, mz, "Z part of a block")
                    else:
                        c.zero(bx, "blocks act on disjoint qudits")
                        c.zero(bz, "blocks act on disjoint qudits")
            c.zero(comm(code.matrix, code.matrix), "checks of the stacked code commute")
            c.true(not code.is_subsystem_code, "flag")
            if inherit:
                logical_rules(c, code.get_logical_ops(), code.matrix)
                ops = code.get_logical_ops()
                for half in (0, 1):
                    for i in range(number):
                        row = ops[Sel(half * number + i), :]
                        own = cs[i].get_logical_ops()[Sel(half), :]
                        for a, b in zip(halves(row), halves(own)):
                            c.equal(a[:, Sel(i)], b, "inherited logical operators")
                            for j in range(number):
                                if j != i:
                                    c.zero(a[:, Sel(j)], "inherited logical operators act on their block")
            c.untouched()
        return body

    for number in (2, 3):
        for inherit in (True, False):
            prove(h, f"stack of {number} qudit codes{', inherited logicals' if inherit else ''}", C + "QuditCode.stack", qudit(number, inherit), MODS)

    def css(number, inherit):
        def body(ctx, c, F):
            cs, checks = [], []
            for i in range(number):
                hx, hz = css_checks(F, str(i))
                code = codes.CSSCode(hx, hz, is_subsystem_code=False)
                lx, lz = css_logicals(F, str(i), hx, hz)
                code._logical_ops = mat.block_diag([lx, lz]).view(F)
                code._dimension = Dim.of(f"k{i}")
                cs.append(code)
                checks.append((hx, hz))
            total = 0
            for i in range(number):
                total = total + Dim.of(f"k{i}")
            saved = codes.QuditCode.dimension
            codes.QuditCode.dimension = property(lambda self: self._dimension if self._dimension is not None else total)
            try:
                code = codes.CSSCode.stack(*cs, inherit_logicals=inherit)
            finally:
                codes.QuditCode.dimension = saved
            for which, m in enumerate((code.matrix_x, code.matrix_z)):
                for i in range(number):
                    for j in range(number):
                        b = m[Sel(i), :][:, Sel(j)]
                        if i == j:
                            c.equal(b, checks[i][which], "block")
                        else:
                            c.zero(b, "blocks act on disjoint qudits")
            c.zero(comm(code.matrix, code.matrix), "checks of the stacked code commute")
            c.true(not code.is_subsystem_code, "flag")
            if inherit:
                logical_rules(c, code.get_logical_ops(), code.matrix)
            c.untouched()
        return body

    for number in (2, 3):
        for inherit in (True, False):
            prove(h, f"stack of {number} CSS codes{', inherited logicals' if inherit else ''}", C + "CSSCode.stack", css(number, inherit), MODS)

    def classical_stack(ctx, c, F):
        ms = [M(F, f"H{i}", f"r{i}", f"n{i}", f"matrix {i}") for i in range(3)]
        code = codes.ClassicalCode.stack(*[codes.ClassicalCode(m) for m in ms])
        for i in range(3):
            for j in range(3):
                b = code.matrix[Sel(i), :][:, Sel(j)]
                if i == j:
                    c.equal(b, ms[i], "block")
                else:
                    c.zero(b, "blocks act on disjoint bits")
        c.untouched()

    prove(h, "stack of 3 classical codes is block diagonal", C + "ClassicalCode.stack", classical_stack, MODS)
