"""C18: quasi-cyclic layouts, labels and equivalent lattices are faithful."""
import itertools

import numpy as np
import sympy

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise, private
from vf.proofs import groups as proofs
from qldpc import codes
from qldpc.objects import Node

QUICK_LIMIT, THOROUGH_LIMIT = 80, 600
A = spec.A
Q = "qldpc.codes.quantum."
X, Y, Z = sympy.symbols("x y z")


def monomials(expr, symbols):
    """{exponent vector: coefficient} of a Laurent polynomial, by sympy's own expansion."""
    out = {}
    for term in sympy.Add.make_args(sympy.expand(expr.as_expr())):
        c, rest = term.as_coeff_Mul()
        powers = rest.as_powers_dict()
        v = tuple(int(powers.get(s, 0)) for s in symbols)
        out[v] = out.get(v, 0) + int(c)
    return out


def reduced(mono, orders, p):
    out = {}
    for v, c in mono.items():
        w = tuple(a % o for a, o in zip(v, orders))
        out[w] = (out.get(w, 0) + c) % p
    return {w: c for w, c in out.items() if c}


def shift_matrix(mono, orders, p, sign):
    """M[v, v + sign * e] += c for each monomial c x^e."""
    N = int(np.prod(orders))
    M = np.zeros((N, N), dtype=int)
    for v in itertools.product(*map(range, orders)):
        r = np.ravel_multi_index(v, orders)
        for e, c in mono.items():
            w = tuple((a + sign * b) % o for a, b, o in zip(v, e, orders))
            M[r, np.ravel_multi_index(w, orders)] += c
    return M % p


@contract([Q + "QCCode.__init__", Q + "QCCode.eval", Q + "QCCode.to_group_member", Q + "QCCode.get_coefficient_and_exponents"])
def matrices(code, symbols, orders, pa, pb, p):
    ma, mb = reduced(monomials(pa, symbols), orders, p), reduced(monomials(pb, symbols), orders, p)
    N = int(np.prod(orders))
    check(len(code) == 2 * N and code.field.order == p, "length or field")
    check(len(code.orders) == len(orders) and tuple(code.orders) == tuple(orders), f"orders {code.orders}")
    Ax, Bx = shift_matrix(ma, orders, p, 1), shift_matrix(mb, orders, p, 1)
    Az, Bz = shift_matrix(ma, orders, p, -1), shift_matrix(mb, orders, p, -1)
    check(np.array_equal(A(code.matrix_x), np.hstack([Ax, Bx])), "X checks do not act on the qudits given by the polynomials")
    check(np.array_equal(A(code.matrix_z), np.hstack([Bz, -Az % p])), "Z checks do not act on the qudits given by the polynomials")
    spec.commuting(code)


@contract([Q + "QCCode.get_canonical_form"])
def canonical_form(code, p):
    for poly in (code.poly_a, code.poly_b, code.poly_a.as_expr(), code.poly_b.as_expr()):
        new = code.get_canonical_form(poly)
        m, c = monomials(poly, code.symbols), monomials(new, code.symbols)
        check(reduced(m, code.orders, p) == reduced(c, code.orders, p), lambda: f"{poly} has the canonical form {new}")
        for v in c:
            check(all(-o / 2 < a <= o / 2 for a, o in zip(v, code.orders)), lambda: f"exponents of {new} outside of (-order/2, order/2]")
    orders = dict(zip(code.symbols, code.orders))
    if not all(code.get_canonical_form(poly).free_symbols for poly in (code.poly_a, code.poly_b)):
        return  # constants are not accepted as polynomials
    if any(not 0 <= c < p for poly in (code.poly_a, code.poly_b) for c in monomials(code.get_canonical_form(poly), code.symbols).values()):
        return  # coefficients of coinciding monomials are added as integers, and are not members of the field
    new = codes.QCCode(orders, code.get_canonical_form(code.poly_a.as_expr()), code.get_canonical_form(code.poly_b.as_expr()), field=p)
    check(np.array_equal(A(new.matrix), A(code.matrix)), "the code of the canonical forms is different")


@contract([Q + "BBCode.get_node_label", Q + "BBCode.get_node_label_from_orders", Q + "BBCode.get_qubit_pos", Q + "BBCode.get_qubit_pos_from_orders"])
def layout(code, ma, mb, p):
    R0, R1 = code.orders
    N = R0 * R1
    H = A(code.matrix_x), A(code.matrix_z)
    labels, sites, folded = {}, {}, {}
    for is_data in (True, False):
        for i in range(2 * N):
            node = Node(i, is_data=is_data)
            ss, a, b = code.get_node_label(node)
            s, r = divmod(i, N)
            check((ss, a, b) == (("LR" if is_data else "XZ")[s], r // R1, r % R1), lambda: f"label {ss, a, b} of node {node}")
            check(type(code).get_node_label_from_orders(node, code.orders) == (ss, a, b), "get_node_label_from_orders")
            labels[ss, a, b] = node
            pos = code.get_qubit_pos(node)
            fold = code.get_qubit_pos(node, folded_layout=True)
            check(pos == code.get_qubit_pos((ss, a, b)) and fold == code.get_qubit_pos((ss, a, b), True), "positions of nodes and labels differ")
            check(fold == type(code).get_qubit_pos_from_orders(node, True, code.orders), "get_qubit_pos_from_orders")
            check(0 <= pos[0] < 2 * R0 and 0 <= pos[1] < 2 * R1, "position outside of the lattice")
            check(pos == (2 * a + (ss in "RX"), 2 * b + (ss in "LX")), lambda: f"position {pos} of {ss, a, b} within its plaquette")
            check(0 <= fold[0] < 2 * R0 and 0 <= fold[1] < 2 * R1, "folded position outside of the lattice")
            sites[node], folded[node] = pos, fold
    check(len(labels) == 4 * N, "labels are not unique")
    check(len(set(sites.values())) == 4 * N and len(set(folded.values())) == 4 * N, "two qubits share a site")
    # neighbouring sites of the torus stay close in the folded layout
    at = {pos: node for node, pos in sites.items()}
    for (x, y), node in at.items():
        for other in (at[(x + 1) % (2 * R0), y], at[x, (y + 1) % (2 * R1)]):
            d = [abs(s - t) for s, t in zip(folded[node], folded[other])]
            check(max(d) <= 2 and min(d) == 0, "neighbouring sites are far from each other in the folded layout")
    # connections of the docstring
    for a in range(R0):
        for b in range(R1):
            for (da, db), ca in ma.items():
                x, z = labels["X", a, b].index, labels["Z", a, b].index - N
                check(H[0][x, labels["L", (a + da) % R0, (b + db) % R1].index] == ca, "X check and L qubit")
                check(H[1][z, labels["R", (a - da) % R0, (b - db) % R1].index] == -ca % p, "Z check and R qubit")
            for (da, db), cb in mb.items():
                check(H[0][labels["X", a, b].index, labels["R", (a + da) % R0, (b + db) % R1].index] == cb, "X check and R qubit")
                check(H[1][labels["Z", a, b].index - N, labels["L", (a - da) % R0, (b - db) % R1].index] == cb, "Z check and L qubit")


def order(v, orders):
    k, w = 1, tuple(a % o for a, o in zip(v, orders))
    while any(w):
        w = tuple((a + b) % o for a, b, o in zip(w, v, orders))
        k += 1
    return k


def span(g, h, orders):
    return {tuple((i * a + j * b) % o for a, b, o in zip(g, h, orders)) for i in range(order(g, orders)) for j in range(order(h, orders))}


def equivalent(orders, ma, mb, new_orders, na, nb, p):
    """Is there an isomorphism of groups that maps the new polynomials to the old ones, up to shifts and exchange?"""
    if orders[0] * orders[1] != new_orders[0] * new_orders[1]:
        return False
    elems = list(itertools.product(*map(range, orders)))
    gens0 = [g for g in elems if order(g, orders) == new_orders[0]]
    gens1 = [g for g in elems if order(g, orders) == new_orders[1]]

    def shifts_to(img, target):
        if sorted(img.values()) != sorted(target.values()):
            return False
        f = next(iter(img))
        for t in target:
            s = tuple(b - a for a, b in zip(f, t))
            if {tuple((a + b) % o for a, b, o in zip(v, s, orders)): c for v, c in img.items()} == target:
                return True
        return False

    for g in gens0:
        for h in gens1:
            def phi(m):
                out = {}
                for (i, j), c in m.items():
                    w = tuple((i * a + j * b) % o for a, b, o in zip(g, h, orders))
                    out[w] = (out.get(w, 0) + c) % p
                return {w: c for w, c in out.items() if c}
            ia, ib = phi(na), phi(nb)
            if ((shifts_to(ia, ma) and shifts_to(ib, mb)) or (shifts_to(ia, mb) and shifts_to(ib, ma))) and len(span(g, h, orders)) == len(elems):
                return True
    return False


@contract([Q + "BBCode.get_equivalent_toric_layout_code_data", Q + "BBCode.change_poly_basis", Q + "BBCode.is_valid_basis",
           Q + "BBCode.get_order", Q + "BBCode.modular_inverse"])
def toric(code, ma, mb, p, connected):
    data = code.get_equivalent_toric_layout_code_data()
    orders = code.orders
    da = [tuple(y - x for x, y in zip(v, w)) for v in ma for w in ma if v != w]
    db = [tuple(y - x for x, y in zip(v, w)) for v in mb for w in mb if v != w]
    exist = connected and any(order(g, orders) * order(h, orders) == orders[0] * orders[1] == len(span(g, h, orders)) for g in da for h in db)
    check(bool(data) == exist, lambda: f"{len(data)} toric layouts were found; existence is {exist}")
    k = code.dimension
    for new_orders, pa, pb in data[:8]:
        na, nb = monomials(pa, code.symbols), monomials(pb, code.symbols)
        check(new_orders[0] >= new_orders[1], "width < height")
        check((0, 0) in na and (1 % new_orders[0] or 0, 0) in reduced(na, new_orders, p), lambda: f"{pa} is not of the form c + d x + ...")
        check((0, 0) in nb and (0, 1 % new_orders[1]) in reduced(nb, new_orders, p), lambda: f"{pb} is not of the form c + d y + ...")
        for m in (na, nb):
            check(all(-o / 2 < a <= o / 2 for v in m for a, o in zip(v, new_orders)), "exponents")
        check(equivalent(orders, ma, mb, new_orders, reduced(na, new_orders, p), reduced(nb, new_orders, p), p),
              lambda: f"the code with {new_orders, pa, pb} is not equivalent to the code with {orders, code.poly_a, code.poly_b}")
        if len(code) <= 80 and len(pa.free_symbols | pb.free_symbols) == 2:
            new = codes.BBCode(dict(zip(code.symbols, new_orders)), pa, pb, field=p)
            check(len(new) == len(code) and new.dimension == k, "parameters of the equivalent code")
            wx = lambda c: sorted(np.count_nonzero(A(c.matrix), axis=1))
            check(wx(new) == wx(code), "weights of checks of the equivalent code")


@contract([Q + "BBCode.get_order", Q + "BBCode.is_valid_basis", Q + "BBCode.modular_inverse", Q + "BBCode.as_exponent_vector"])
def lattice_math(code, rng):
    orders = code.orders
    vec = lambda: (rng.randrange(-2 * orders[0], 2 * orders[0] + 1), rng.randrange(-2 * orders[1], 2 * orders[1] + 1))
    for _ in range(12):
        g, h = vec(), vec()
        check(code.get_order(g) == order(g, orders), lambda: f"order of {g} on {orders}")
        valid = order(g, orders) * order(h, orders) == orders[0] * orders[1] == len(span(g, h, orders))
        check(code.is_valid_basis(g, h) == valid, lambda: f"is_valid_basis({g}, {h}) on {orders}")
        t = vec()
        inside = tuple(a % o for a, o in zip(t, orders)) in span(g, h, orders)
        if not inside:
            must_raise(ValueError, code.modular_inverse, (g, h), *t)
        else:
            i, j = code.modular_inverse((g, h), *t)
            check(all((i * a + j * b - c) % o == 0 for a, b, c, o in zip(g, h, t, orders)), "modular_inverse")
        x, y = code.symbols
        check(tuple(code.as_exponent_vector(x ** g[0] * y ** g[1])) == g, "as_exponent_vector")


def random_poly(rng, symbols, orders, p, terms, laurent=True):
    expr = sympy.Integer(0)
    for v in {tuple(rng.randrange(-o if laurent else 0, o + 1) for o in orders) for _ in range(terms)}:
        t = sympy.Integer(rng.randrange(1, p))
        for s, e in zip(symbols, v):
            t *= s ** e
        expr += t
    return expr


def random_case(rng, nsym, nmax, p):
    symbols = [X, Y, Z][:nsym] if rng.random() < 0.7 else [sympy.Symbol(s) for s in rng.sample(["a", "b", "q", "x1", "x10", "aa", "x2", "B"], nsym)]
    while True:
        orders = [rng.randrange(1, 8) for _ in range(nsym)]
        if 2 <= np.prod(orders) <= nmax:
            break
    for _ in range(100):
        pa = random_poly(rng, symbols, orders, p, rng.randrange(1, 4))
        pb = random_poly(rng, symbols, orders, p, rng.randrange(1, 4))
        if pa.free_symbols | pb.free_symbols == set(symbols) and pa.free_symbols and pb.free_symbols:
            return symbols, orders, pa, pb
    raise Skip("no polynomial")


def qc(ctx):
    for i in range(ctx.n(250, 4000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            p = rng.choice([2, 2, 2, 3, 5])
            symbols, orders, pa, pb = random_case(rng, rng.choice([1, 2, 2, 3]), 36, p)
            if rng.random() < 0.5:
                symbols = sorted(symbols, key=str)
                given = list(orders) if rng.random() < 0.5 else tuple(orders)
                if rng.random() < 0.3:  # unused orders
                    given = tuple(given) + (rng.randrange(1, 4),)
                    orders = list(given)
                    symbols = symbols + [sympy.Symbol("unused")]
            else:
                given = dict(zip(symbols, orders))
            code = codes.QCCode(given, pa, pb, field=p)
            if isinstance(given, dict):
                check(given == dict(zip(symbols, orders)), "orders were changed")
            matrices(code, symbols, orders, pa, pb, p)
            canonical_form(code, p) if len(orders) == len(code.symbols) and not any("~" in str(s) for s in code.symbols) else None

        ctx.case(f"qc-{i}", run)
    def foreign(p, c):
        """Coefficients that are not members of the field are rejected, or reduced."""
        for pa, pb in ((1 + c * X, 1 + X * Y), (X + Y, c * X * Y + X)):
            try:
                code = codes.QCCode((3, 2), pa, pb, field=p)
            except (ValueError, TypeError):
                continue
            check(p in (2, 3, 5), "a coefficient that is not a member of the field was accepted")
            matrices(code, [X, Y], (3, 2), pa, pb, p)

    for p in (2, 3, 4, 5):
        for c in (-1, -2, p, p + 1, -p):
            ctx.case(f"foreign-{p}-{c}", foreign, p, c)
    ctx.case("few-orders", must_raise, ValueError, codes.QCCode, [3], 1 + X, 1 + Y)
    ctx.case("bb-orders", must_raise, ValueError, codes.BBCode, [3, 3, 3], 1 + X, 1 + Y)
    ctx.case("bb-symbols", must_raise, ValueError, codes.BBCode, [3, 3], 1 + X, 1 + X)
    ctx.case("bb-three", must_raise, ValueError, codes.BBCode, [3, 3], 1 + X, 1 + X + Y + Z)


def bb(part):
    def group(ctx):
        for i in range(part, ctx.n(120, 2000), 3):
            if ctx.left() < 0:
                break

            def run(i=i):
                rng = ctx.rng(i)
                p = rng.choice([2, 2, 2, 3])
                symbols, orders, pa, pb = random_case(rng, 2, 40, p)
                given = dict(zip(symbols, orders)) if rng.random() < 0.5 else None
                if given is None:
                    symbols, given = sorted(symbols, key=str), tuple(orders)
                code = codes.BBCode(given, pa, pb, field=p)
                check(code.symbols == tuple(symbols), "symbols")
                matrices(code, symbols, orders, pa, pb, p)
                ma, mb = reduced(monomials(pa, symbols), orders, p), reduced(monomials(pb, symbols), orders, p)
                layout(code, ma, mb, p)
                canonical_form(code, p)
                lattice_math(code, rng)
                distinct = all(len({tuple(a % o for a, o in zip(v, orders)) for v in m}) == len(m) for m in (monomials(pa, symbols), monomials(pb, symbols)))
                if distinct:
                    import networkx as nx
                    toric(code, ma, mb, p, nx.is_weakly_connected(code.graph))

            ctx.case(f"bb-{i}", run)

    return group


def known(ctx):
    for i, (orders, pa, pb) in enumerate(families.polys()):
        def run(orders=orders, pa=pa, pb=pb, p=2):
            import networkx as nx
            code = codes.BBCode(orders, pa, pb, field=p)
            symbols = sorted(pa.free_symbols | pb.free_symbols, key=str)
            matrices(code, symbols, orders, pa, pb, p)
            ma, mb = reduced(monomials(pa, symbols), orders, p), reduced(monomials(pb, symbols), orders, p)
            layout(code, ma, mb, p)
            canonical_form(code, p)
            if len(ma) == len(monomials(pa, symbols)) and len(mb) == len(monomials(pb, symbols)):
                toric(code, ma, mb, p, nx.is_weakly_connected(code.graph))
        ctx.case(f"known-{i}", run)

    def params(orders, pa, pb, n, k):
        code = codes.BBCode(orders, pa, pb, field=2)
        check((len(code), code.dimension) == (n, k), lambda: f"[[{len(code)}, {code.dimension}]], expected {[n, k]}")

    # parameters published in arXiv:2308.07915
    ctx.case("bb72", params, {X: 6, Y: 6}, X**3 + Y + Y**2, Y**3 + X + X**2, 72, 12)
    ctx.case("bb90", params, {X: 15, Y: 3}, X**9 + Y + Y**2, 1 + X**2 + X**7, 90, 8)
    ctx.case("bb108", params, {X: 9, Y: 6}, X**3 + Y + Y**2, Y**3 + X + X**2, 108, 8)
    ctx.case("bb144", params, {X: 12, Y: 6}, X**3 + Y + Y**2, Y**3 + X + X**2, 144, 12)

    def equal_orders(a, b):
        """Layout functions are injective for every pair of orders."""
        for fold in (False, True):
            seen = {codes.BBCode.get_qubit_pos_from_orders((s, i, j), fold, (a, b)) for s in "LRXZ" for i in range(a) for j in range(b)}
            check(seen == {(x, y) for x in range(2 * a) for y in range(2 * b)}, f"sites of the layout (folded={fold}) for orders {(a, b)}")

    for a in range(1, ctx.n(9, 20)):
        for b in range(1, ctx.n(9, 20)):
            ctx.case(f"sites-{a}-{b}", equal_orders, a, b)


GROUPS = {"qc": qc, "bb_0": bb(0), "bb_1": bb(1), "bb_2": bb(2), "known": known}
GROUPS.update({g.__name__: g for g in proofs("lattices", "layouts", "lattice", "polynomials")})
