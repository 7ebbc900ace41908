"""Chain complexes and their products (C13): contracts on the live functions for modules of every dimension."""
from __future__ import annotations

from vf import env  # noqa: F401
from vf.sym import mat, shim
from vf.sym.mat import Dim, Sel
from vf.sym.prove import M, prove

from .blocks import MODS, nonzero_facts

from qldpc import codes, objects
from qldpc.objects import ChainComplex

TRUSTED = shim.TRUSTED
ALL = MODS + [objects]
O = "qldpc.objects.ChainComplex."


def chain(F, tag, links):
    """Boundary operators that compose to zero (hypotheses)."""
    ops = [M(F, f"{tag}d{i + 1}", f"{tag}{i}", f"{tag}{i + 1}", owner=f"operator {tag}{i + 1}") for i in range(links)]
    for a, b in zip(ops, ops[1:]):
        shim.assume_zero(a @ b)
    return ops


def complexes(h):
    def validate(number):
        def body(ctx, c, F):
            ops = [M(F, f"d{i + 1}", f"a{i}", f"a{i + 1}", owner=f"operator {i}") for i in range(number)]
            try:
                cc = ChainComplex(*ops)
            except ValueError:
                last = nonzero_facts(ctx)[-1]
                c.true(any(shim.same(last, a @ b) for a, b in zip(ops, ops[1:])), "rejected only if two operators do not compose to zero")
                return
            for a, b in zip(ops, ops[1:]):
                c.zero(a @ b, "accepted operators compose to zero")
            c.true(cc.num_links == number and cc.field is F and cc.group is None, "links, field")
            for i, op in enumerate(ops):
                c.equal(cc.op(i + 1), op, "boundary operators")
                c.true(Dim.of(cc.dim(i)).same(f"a{i}"), "dimensions")
            c.true(cc.op(0).shape == (0, Dim.of("a0")) and cc.op(number + 1).shape == (Dim.of(f"a{number}"), 0), "outer operators")
            dual = cc.T
            c.true(dual.num_links == number and dual.field is F, "dual")
            for i, op in enumerate(ops):
                c.equal(dual.op(number - i), op.T, "operators of the dual")
            for i in range(1, number):
                c.zero(dual.op(i) @ dual.op(i + 1), "the dual is a chain complex")
            c.untouched()
        return body

    for number in (1, 2, 3, 4):
        prove(h, f"a chain complex with {number} operators is accepted exactly if they compose to zero", O + "__init__", validate(number), ALL, min_paths=number)

    def product(p, q):
        def body(ctx, c, F):
            a, b = chain(F, "a", p), chain(F, "b", q)
            ca, cb = ChainComplex(*a, skip_validation=True), ChainComplex(*b, skip_validation=True)
            cc = ChainComplex.tensor_product(ca, cb)
            c.true(cc.num_links == p + q and cc.field is F, "links and field")
            for k in range(p + q + 1):
                want = Dim.of(1) - 1
                for i in range(p + 1):
                    if 0 <= k - i <= q:
                        want = want + Dim.of(f"a{i}") * Dim.of(f"b{k - i}")
                c.true(Dim.of(cc.dim(k)).same(want), "dimension of a module")
            for k in range(1, p + q):
                c.zero(cc.op(k) @ cc.op(k + 1), "consecutive boundary operators of the product compose to zero")
            # the definition: d(x (x) y) = dx (x) y + (-1)^i x (x) dy on each sector
            for k in range(1, p + q + 1):
                cols = [(i, k - i) for i in range(p, -1, -1) if 0 <= k - i <= q]
                rows = [(i, k - 1 - i) for i in range(p, -1, -1) if 0 <= k - 1 - i <= q]
                for ci, (i, j) in enumerate(cols):
                    for ri, (r, s) in enumerate(rows):
                        block = cc.op(k)[:, Sel(ci)][Sel(ri), :]
                        if (r, s) == (i - 1, j):
                            c.equal(block, mat.kron(a[i - 1], mat.identity(F, [f"b{j}"])), "sector of d (x) 1")
                        elif (r, s) == (i, j - 1):
                            sign = -1 if i % 2 else 1
                            c.equal(block, mat.kron(mat.identity(F, [f"a{i}"]), b[j - 1]) * sign, "sector of 1 (x) d")
                        else:
                            c.zero(block, "other sectors")
            c.untouched()
        return body

    for p in (1, 2, 3):
        for q in (1, 2, 3):
            prove(h, f"tensor product of complexes with {p} and {q} operators", O + "tensor_product", product(p, q), ALL)

    def views(ctx, c, F):
        a, b = M(F, "A", "m1", "n1", "matrix a"), M(F, "B", "m2", "n2", "matrix b")
        code = codes.HGPCode(a, b, set_logicals=False)
        cc = ChainComplex.tensor_product(a, b.T)
        c.equal(cc.op(1), code.matrix_x, "X checks are the first boundary operator of the product of A and B^T")
        c.equal(cc.op(2).T, code.matrix_z, "Z checks are its second boundary operator, transposed")
        c.untouched()

    prove(h, "hypergraph product of matrices and of chain complexes", "qldpc.codes.quantum.HGPCode.get_matrix_product", views, ALL)

    def probe(ctx, c, F):
        a, b = chain(F, "a", 2), chain(F, "b", 1)
        cc = ChainComplex.tensor_product(ChainComplex(*a, skip_validation=True), ChainComplex(*b, skip_validation=True))
        c.zero(cc.op(1) @ cc.op(1).T, "probe")

    prove(h, "boundary operators are self-orthogonal", O + "tensor_product", probe, ALL, expect="fail")
