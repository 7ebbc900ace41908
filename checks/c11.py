"""C11: groups, lifts and named groups satisfy group and representation laws."""
import itertools
import math
import re

import galois
import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise
from qldpc import abstract

QUICK_LIMIT, THOROUGH_LIMIT = 70, 600
G = "qldpc.abstract.Group."
A = spec.A


def key(m):
    return tuple(m.array_form)


def pm(a, b):
    return tuple(b[i] for i in a)


def pinv(a):
    out = [0] * len(a)
    for i, j in enumerate(a):
        out[j] = i
    return tuple(out)


def closure(gens, size):
    ident = tuple(range(size))
    seen, todo = {ident}, [ident]
    while todo:
        x = todo.pop()
        for g in gens:
            y = pm(x, g)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


# generators as GAP prints them (cycles that start counting from 0); the answers of GAP are assumed
SMALL_GROUPS = {
    (1, 1): [], (2, 1): [[(0, 1)]], (4, 1): [[(0, 1, 2, 3)], [(0, 2), (1, 3)]], (4, 2): [[(0, 1)], [(2, 3)]],
    (6, 1): [[(0, 1)], [(0, 1, 2)]], (6, 2): [[(0, 1)], [(2, 3, 4)]], (8, 3): [[(0, 1, 2, 3)], [(0, 2)]],
    (8, 4): [[(0, 1, 2, 3), (4, 5, 6, 7)], [(0, 4, 2, 6), (1, 7, 3, 5)]], (12, 3): [[(0, 1, 2)], [(0, 1), (2, 3)]],
}
SMALL_NUMBER = {1: 1, 2: 1, 4: 2, 6: 2, 8: 5, 12: 5}


def with_gap(call):
    """call() with the answers of GAP for small groups"""
    ext = abstract.external.groups
    keep = ext.get_small_group_number, ext.get_generators
    names = {f"SmallGroup({o},{i})": gens for (o, i), gens in SMALL_GROUPS.items()}
    ext.get_small_group_number, ext.get_generators = SMALL_NUMBER.__getitem__, names.__getitem__
    try:
        return call()
    finally:
        ext.get_small_group_number, ext.get_generators = keep


def small_group(o, i):
    return with_gap(lambda: abstract.SmallGroup(o, i))


def small_groups(ctx):
    def rejected():
        for o, n in SMALL_NUMBER.items():
            for i in (0, -1, n + 1):
                must_raise(ValueError, small_group, o, i)
        must_raise((ValueError, AssertionError), small_group, 0, 1)

    def listed(o):
        got = with_gap(lambda: list(abstract.SmallGroup.generator(o)))
        check(len(got) == SMALL_NUMBER[o] and [g.group_index for g in got] == list(range(1, len(got) + 1)), "generator")
        check(all(g.order == o for g in got), "order")

    ctx.assume("the generators and the number of small groups that GAP reports (fixed answers for 9 groups)")
    ctx.case("rejected", rejected)
    for o in (1, 2, 4, 6):
        ctx.case(f"listed-{o}", listed, o)
    known = abstract.external.groups.KNOWN_GROUPS

    def stored(name):
        group = abstract.Group.from_name(name)
        if m := re.match(r"SmallGroup\((\d+),", name):
            check(group.order == int(m.group(1)), lambda: f"{name} has order {group.order}")
        check(abstract.Group.from_name(f"  {name.replace(',', ', ')} ") == group, "spaces in the name of a group")

    for name in known:
        ctx.case(f"stored-{name}", stored, name)


def instances(big=False):
    P = abstract
    M = P.GroupMember
    out = {}
    for n in (1, 2, 3, 4, 5, 6, 9, 12):
        out[f"Cyclic{n}"] = (lambda n=n: P.CyclicGroup(n), n)
    for orders in [(2,), (2, 3), (3, 2), (2, 2), (4, 2), (1, 3), (3, 1), (1, 1), (2, 2, 2), (2, 1, 3), (5, 2)]:
        for ds in (False, True):
            out[f"Abelian{orders}{'sum' if ds else ''}"] = (lambda o=orders, d=ds: P.AbelianGroup(*o, direct_sum=d), math.prod(orders))
    for n in (1, 2, 3, 4, 5, 6, 7):
        out[f"Dihedral{n}"] = (lambda n=n: P.DihedralGroup(n), 2 * n)
    for n in (3, 4):
        out[f"Alternating{n}"] = (lambda n=n: P.AlternatingGroup(n), math.factorial(n) // 2)
        out[f"Symmetric{n}"] = (lambda n=n: P.SymmetricGroup(n), math.factorial(n))
    out["Symmetric2"] = (lambda: P.SymmetricGroup(2), 2)
    if big:
        out["Alternating5"] = (lambda: P.AlternatingGroup(5), 60)
    out["Quaternion"] = (P.QuaternionGroup, 8)
    out["Trivial"] = (P.TrivialGroup, 1)
    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5)]:
        order = q ** (d * (d - 1) // 2) * math.prod(q**i - 1 for i in range(2, d + 1))
        for lin in (True, False):
            out[f"SL({d},{q}){'' if lin else 'perm'}"] = (lambda d=d, q=q, lin=lin: P.SL(d, q, linear_rep=lin), order)
            out[f"PSL({d},{q}){'' if lin else 'perm'}"] = (lambda d=d, q=q, lin=lin: P.PSL(d, q, linear_rep=lin), order // math.gcd(d, q - 1))
    out["C2xD3"] = (lambda: P.CyclicGroup(2) * P.DihedralGroup(3), 12)
    out["C2^3"] = (lambda: P.CyclicGroup(2)**3, 8)
    out["product(C2,C3)"] = (lambda: P.Group.product(P.CyclicGroup(2), P.CyclicGroup(3)), 6)
    out["product(C2,repeat=3)"] = (lambda: P.Group.product(P.CyclicGroup(2), repeat=3), 8)
    out["Q8xC2"] = (lambda: P.QuaternionGroup() * P.CyclicGroup(2), 16)
    out["gens-no-identity-first"] = (lambda: P.Group(M([0, 2, 1]), M([1, 0, 2])), 6)
    out["intransitive"] = (lambda: P.Group(M([1, 0, 2, 4, 3]), M([0, 1, 3, 2, 4]) * M([1, 0, 2, 3, 4])), None)
    out["point-lift"] = (lambda: P.Group(M([1, 2, 0, 3]), M([0, 1, 3, 2]), lift=lambda m: m.to_matrix()), 24)
    for (o, i), gens in SMALL_GROUPS.items():
        out[f"SmallGroup({o},{i})"] = (lambda o=o, i=i: small_group(o, i), o)
    out["from_sympy"] = (lambda: P.Group.from_sympy(P.DihedralGroup(4).to_sympy()), 8)
    return out


LIFT_FIELD = {"Quaternion": 3, "SL(2,2)": 2, "SL(2,3)": 3, "SL(2,4)": 4, "SL(2,5)": 5, "PSL(2,2)": 2, "PSL(2,3)": 3,
              "PSL(2,4)": 4, "PSL(2,5)": 5, "SL(2,2)perm": 2, "SL(2,3)perm": 3, "SL(2,4)perm": 4, "SL(2,5)perm": 5,
              "PSL(2,2)perm": 2, "PSL(2,3)perm": 3, "PSL(2,4)perm": 4, "PSL(2,5)perm": 5}
PERMUTATION_LIFT_EXCEPT = set(LIFT_FIELD)


@contract([G + m for m in ("__init__", "generate", "order", "__contains__", "index", "identity", "generators", "table", "is_abelian",
                           "random", "__eq__")])
def group_laws(name, make, order, rng):
    group = make()
    gens = [key(g) for g in group.generators]
    size = len(gens[0])
    want = closure(gens, size)
    members = list(group.generate())
    keys = [key(m) for m in members]
    check(len(set(keys)) == len(keys), "generate yields a member twice")
    check(set(keys) == want, lambda: f"generate yields {len(set(keys))} members, but the generators generate {len(want)}")
    check(group.order == len(want), lambda: f"order is {group.order}, but there are {len(want)} members")
    if order is not None:
        check(group.order == order, lambda: f"order is {group.order}, not {order}")
    check(key(group.identity) == tuple(range(size)), "identity")
    check(all(m in group for m in members), "a member is not in the group")
    check([group.index(m) for m in members] == list(range(len(members))), "index")
    check(all(isinstance(m, abstract.GroupMember) for m in members), "type of members")
    for _ in range(20):
        p = list(range(size))
        rng.shuffle(p)
        m = abstract.GroupMember(p)
        check((m in group) == (tuple(p) in want), lambda: f"membership of {p}")
        if tuple(p) not in want:
            must_raise(ValueError, group.index, m)
    T = A(group.table)
    check(T.shape == (group.order,) * 2, "shape of the table")
    pos = {k: i for i, k in enumerate(keys)}
    for i, a in enumerate(keys):
        for j, b in enumerate(keys) if len(keys) <= 24 else [(rng.randrange(len(keys)), None)]:
            b = keys[j]
            check(T[i, j] == pos[pm(a, b)], "table")
    check(bool(group.is_abelian) == all(pm(a, b) == pm(b, a) for a, b in itertools.product(gens, repeat=2)), "is_abelian")
    for _ in range(5):
        check(key(group.random()) in want, "random member outside of the group")
    if order and order <= 8:
        group.random(seed=1)
        seen = {key(group.random()) for _ in range(50 * order)}
        check(seen == want, lambda: f"only {len(seen)} of {len(want)} members are ever drawn at random")
    check(group == make() and (group * abstract.CyclicGroup(2)) != group, "==")
    check([key(m) for m in group.generate()] == keys, "generate changed")


@contract(["qldpc.abstract.GroupMember." + m for m in ("__mul__", "__matmul__", "to_matrix", "__lt__", "from_sympy")])
def member_laws(n, m, rng):
    perm = lambda k: rng.sample(range(k), k)
    a, b, c, d = perm(n), perm(n), perm(m), perm(m)
    M = abstract.GroupMember
    ga, gb, gc, gd = map(M, (a, b, c, d))
    check(key(ga * gb) == pm(a, b) and isinstance(ga * gb, M), "product")
    check(key(ga * ~ga) == tuple(range(n)) and key(~ga * ga) == tuple(range(n)), "inverse")
    check(key(ga @ gc) == tuple(a) + tuple(n + x for x in c), "tensor product acts on disjoint points")
    check((ga @ gc) * (gb @ gd) == (ga * gb) @ (gc * gd), "tensor products multiply factor by factor")
    ma, mb = A(ga.to_matrix()), A(gb.to_matrix())
    check(all(ma[i].tolist() == np.eye(n, dtype=int)[a[i]].tolist() for i in range(n)), "matrix of a permutation")
    check(np.array_equal(ma @ mb, A((ga * gb).to_matrix())), "to_matrix is not a homomorphism")
    s = sorted({M(p) for p in ([a, b] + [perm(n) for _ in range(3)])})
    check(all(s[i] < s[i + 1] and not s[i + 1] < s[i] for i in range(len(s) - 1)), "sorting")


def twin_group(group, members, rng):
    order = rng.sample(members, len(members))
    return abstract.Group(*group.generators, generate_func=lambda: iter(order))


@contract([G + "lift", G + "regular_lift", G + "lift_dim"])
def lift_laws(name, make, rng, limit):
    group = make()
    members = list(group.generate())
    n = group.order
    pairs = list(itertools.product(range(n), repeat=2))
    if len(pairs) > limit:
        pairs = rng.sample(pairs, limit)
    reg = {}

    def regular(m):
        if key(m) not in reg:
            reg[key(m)] = A(group.regular_lift(m))
        return reg[key(m)]

    for m in members if n <= 30 else rng.sample(members, 30):
        r = regular(m)
        check(r.shape == (n, n) and set(np.unique(r)) <= {0, 1} and (r.sum(0) == 1).all() and (r.sum(1) == 1).all(),
              "the regular lift is not a permutation matrix")
        for j in rng.sample(range(n), min(n, 6)):
            # acts on the group itself from the left
            check(r[group.index(m * members[j]), j] == 1, "the regular lift does not act by left multiplication")
    for i, j in pairs[:300]:
        check(np.array_equal(regular(members[i]) @ regular(members[j]), regular(members[i] * members[j])), "regular lift of a product")
    check(len({regular(m).tobytes() for m in members}) == n if n <= 30 else True, "the regular lift is not faithful")
    if n <= 30:  # an equal group whose members come in another order
        twin = twin_group(group, members, rng)
        check(twin == group and hash(twin) == hash(group), "equal groups have different hashes")
        tm = list(twin.generate())
        for m in rng.sample(members, min(n, 6)):
            r = A(twin.regular_lift(m))
            check(all(r[twin.index(m * g), j] == 1 for j, g in enumerate(tm)) and r.sum() == n, "regular lift of an equal group")
            check(np.array_equal(A(group.regular_lift(m)), regular(m)), "the regular lift depends on an equal group")


@contract([G + "lift", G + "lift_dim"])
def own_lift_laws(name, make, rng, limit):
    group = make()
    members = list(group.generate())
    n = group.order
    q = LIFT_FIELD.get(name, 2)
    pairs = list(itertools.product(range(n), repeat=2))
    if len(pairs) > limit:
        pairs = rng.sample(pairs, limit)
    L = {key(m): A(group.lift(m)) for m in members}
    d = group.lift_dim
    for m in members:
        x = L[key(m)]
        check(x.shape == (d, d), f"lift of shape {x.shape}, but lift_dim is {d}")
        check(x.min() >= 0 and x.max() < q, "entries of the lift are outside of the field")
        check(la.rank(x, q) == d, "the lift of a member is not invertible")
        if name not in PERMUTATION_LIFT_EXCEPT:
            check((x.sum(0) == 1).all() and (x.sum(1) == 1).all() and set(np.unique(x)) <= {0, 1}, "the lift is not a permutation matrix")
            check(np.array_equal(A(group.lift(~m)), x.T), "the lift of the inverse is not the transpose")
    for i, j in pairs:
        a, b = members[i], members[j]
        check(np.array_equal(la.matmul(L[key(a)], L[key(b)], q), L[key(a * b)]),
              lambda: f"the lift of a product is not the product of the lifts, for {a.array_form}, {b.array_form}")
    check(np.array_equal(A(group.lift(group.identity)), np.eye(d, dtype=int)), "lift of the identity")


@contract([G + "from_table"])
def tables(name, make, rng):
    base = make()
    T = A(base.table)
    n = len(T)
    perm = list(range(n))  # relabel members randomly, keeping the table a Cayley table
    rng.shuffle(perm)
    inv = np.argsort(perm)
    T2 = np.array([[perm[T[inv[i], inv[j]]] for j in range(n)] for i in range(n)])
    keep = T2.copy()
    reg = lambda i: np.array([[int(T2[i, c] == r) for c in range(n)] for r in range(n)])  # left regular representation
    group = abstract.Group.from_table(T2, integer_lift=reg)
    check(group.order == n, "order of a group from a table")
    members = list(group.generate())
    seen = set()
    for a in members:
        la_ = A(group.lift(a))
        seen.add(la_.tobytes())
        for b in members if n <= 8 else rng.sample(members, 6):
            check(np.array_equal(la_ @ A(group.lift(b)), A(group.lift(a * b))), "lift of a product (group from a table)")
    check(len(seen) == n, "the lift of a group from a table is not faithful")
    big = lambda i: np.block([[reg(i), np.zeros((n, 1), dtype=int)], [np.zeros((1, n), dtype=int), np.ones((1, 1), dtype=int)]])
    other = abstract.Group.from_table(T2, big)
    check({A(other.lift(m)).tobytes() for m in other.generate()} == {big(i).tobytes() for i in range(n)}, "the given lift is not used")
    check(other.lift_dim == n + 1, "dimension of the given lift")
    plain = abstract.Group.from_table(T2.tolist())
    check(plain.order == n and plain == group, "group from a table without a lift")
    check(bool(plain.is_abelian) == bool((T2 == T2.T).all()), "group from a table: is_abelian")
    # same orders of members
    orders = lambda ms: sorted(int(m.order()) for m in ms)
    check(orders(base.generate()) == orders(plain.generate()), "orders of members of a group from a table")
    check(np.array_equal(T2, keep), "the table was changed")


@contract([G + "from_generating_mats"])
def from_mats(label, mats, q):
    mats = [np.array(m, dtype=int) for m in mats]
    d = len(mats[0])
    args = [galois.GF(q)(m) for m in mats] if q else [m.copy() for m in mats]
    mul = (lambda a, b: la.matmul(a, b, q)) if q else (lambda a, b: a @ b)
    seen = {m.tobytes(): m for m in mats}
    todo = list(mats)
    while todo:
        x = todo.pop()
        for g in mats:
            y = mul(x, g)
            if y.tobytes() not in seen:
                seen[y.tobytes()] = y
                todo.append(y)
    group = abstract.Group.from_generating_mats(*args)
    check(group.order == len(seen), lambda: f"order {group.order} instead of {len(seen)}")
    members = list(group.generate())
    lifts = {key(m): A(group.lift(m)) for m in members}
    check({x.tobytes() for x in lifts.values()} == set(seen), "the lifts are not the generated matrices")
    for a, b in itertools.product(members[:30], repeat=2):
        check(np.array_equal(mul(lifts[key(a)], lifts[key(b)]), lifts[key(a * b)]), "lift of a product (group from matrices)")
    check(all(np.array_equal(A(a), m) for a, m in zip(args, mats)), "the matrices were changed")
    check(group.lift_dim == d, "lift_dim")
    check({A(group.lift(g)).tobytes() for g in group.generators} <= {m.tobytes() for m in mats}, "lifts of the generators")


@contract([G + "__mul__", G + "__pow__", G + "product"])
def products(a, b, rng):
    ga, gb = a(), b()
    P = ga * gb
    check(P.order == ga.order * gb.order, "order of a product")
    sa, sb = len(key(ga.identity)), len(key(gb.identity))
    check(len(key(P.identity)) == sa + sb, "points of a product")
    ma, mb = {key(m) for m in ga.generate()}, {key(m) for m in gb.generate()}
    for m in P.generate():
        k = key(m)
        l, r = k[:sa], tuple(x - sa for x in k[sa:])
        check(l in ma and r in mb, "a member of a product does not act as members of the factors on disjoint points")
    x, y = rng.choice(list(ga.generate())), rng.choice(list(gb.generate()))
    check((x @ y) in P, "a tensor product of members is not in the product")
    check(abstract.Group.product(ga, gb) == P and abstract.Group.product(ga, repeat=2) == ga * ga == ga**2, "product / power")


@contract([G + "random_symmetric_subset"])
def symmetric(make, rng, size, exclude, seed):
    group = make()
    S = group.random_symmetric_subset(size, exclude_identity=exclude, seed=seed)
    check(len(S) == size, f"{len(S)} members instead of {size}")
    check(all(m in group and ~m in S for m in S), "the subset is not symmetric")
    if exclude:
        check(group.identity not in S, "the identity was not excluded")
    S2 = group.random_symmetric_subset(size, exclude_identity=exclude, seed=seed)
    check(S == S2, "the same seed gives another subset")


def groups(ctx):
    for name, (make, order) in instances(ctx.tier != "quick").items():
        if ctx.left() < 0:
            return
        ctx.case(name, group_laws, name, make, order, ctx.rng(name))


def members(ctx):
    for i in range(ctx.n(150, 3000)):
        rng = ctx.rng(i)
        ctx.case(f"member-{i}", member_laws, rng.randrange(1, 7), rng.randrange(1, 6), rng)


def regular_lifts(ctx):
    for name, (make, order) in instances(ctx.tier != "quick").items():
        if ctx.left() < 0:
            return
        ctx.case(name, lift_laws, name, make, ctx.rng(name), ctx.n(300, 4000))


def own_lifts(ctx):
    for name, (make, order) in instances(ctx.tier != "quick").items():
        if ctx.left() < 0:
            return
        ctx.case(name, own_lift_laws, name, make, ctx.rng(name), ctx.n(700, 4000))


def constructions(ctx):
    for name in ("Cyclic4", "Dihedral3", "Dihedral4", "Quaternion", "Alternating4", "Abelian(2, 2)", "Symmetric3", "Cyclic1"):
        for i in range(ctx.n(3, 20)):
            rng = ctx.rng(f"{name}{i}")
            ctx.case(f"table-{name}-{i}", tables, name, instances()[name][0], rng)
    mats = {
        "S3": ([[[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]], None),
        "C4": ([[[0, -1], [1, 0]]], None), "D4": ([[[0, -1], [1, 0]], [[1, 0], [0, -1]]], None),
        "GL22": ([[[0, 1], [1, 0]], [[1, 1], [0, 1]]], 2), "SL23": ([[[1, 1], [0, 1]], [[0, 1], [2, 0]]], 3),
        "C2id": ([[[1, 0], [0, 1]], [[0, 1], [1, 0]]], None), "Borel3": ([[[1, 1], [0, 1]], [[2, 0], [0, 1]]], 3),
        "C3gf4": ([[[2, 0], [0, 3]]], 4), "Q8": ([[[0, 1], [2, 0]], [[1, 1], [1, 2]]], 3),
    }
    for name, (m, q) in mats.items():
        ctx.case(f"mats-{name}", from_mats, name, m, q)
    ctx.case("mats-none", lambda: check(abstract.Group.from_generating_mats().order == 1, "group without generators"))
    inst = instances()
    names = ["Cyclic1", "Cyclic3", "Dihedral3", "Abelian(2, 3)", "Quaternion", "Alternating3", "Symmetric3", "SL(2,2)", "Trivial"]
    for a, b in itertools.product(names, repeat=2):
        if ctx.left() < 0:
            return
        if inst[a][1] * inst[b][1] <= 48:
            ctx.case(f"product-{a}-{b}", products, inst[a][0], inst[b][0], ctx.rng(a + b))
    for name in ("Cyclic6", "Dihedral4", "Quaternion", "Abelian(2, 2, 2)", "Alternating4", "Cyclic5"):
        order = inst[name][1]
        for size in range(1, order + 1):
            for exclude in (False, True):
                odd_only = name in ("Cyclic5",)
                if exclude and (size > order - 1 or (odd_only and size % 2)):
                    continue
                if name == "Cyclic5" and not exclude and False:
                    continue
                ctx.case(f"subset-{name}-{size}-{exclude}", symmetric, inst[name][0], None, size, exclude, size, limit=5)
    for size in (0, 7):
        ctx.case(f"subset-size-{size}", must_raise, ValueError, abstract.CyclicGroup(6).random_symmetric_subset, size)


@contract(["qldpc.abstract.SpecialLinearGroup.iter_mats", "qldpc.abstract.ProjectiveSpecialLinearGroup.iter_mats",
           "qldpc.abstract.SpecialLinearGroup.get_generating_mats"])
def linear(d, q, both):
    F = galois.GF(q)
    mats = [A(m) for m in abstract.SL.iter_mats(d, q)]
    order = q ** (d * (d - 1) // 2) * math.prod(q**i - 1 for i in range(2, d + 1))
    check(len({m.tobytes() for m in mats}) == len(mats) == order, "members of SL")
    check(all(int(np.linalg.det(F(m))) == 1 for m in mats), "determinants")
    gens = [A(g) for g in abstract.SL.get_generating_mats(d, q)]
    check(all(m.tobytes() in {x.tobytes() for x in mats} for m in gens), "generators of SL are not in SL")
    pm_ = [A(m) for m in abstract.PSL.iter_mats(d, q)]
    roots = [r for r in range(1, q) if int(F(r) ** d) == 1]
    classes = {frozenset(la.mul(r, m, q).tobytes() for r in roots) for m in mats}
    got = {frozenset(la.mul(r, m, q).tobytes() for r in roots) for m in pm_}
    check(len(pm_) == len(got) == order // math.gcd(d, q - 1) and got == classes, "members of PSL")
    if q == 2:  # the default field
        for cls in (abstract.SL, abstract.PSL):
            for mine, named in zip(cls.get_generating_mats(d), cls.get_generating_mats(d, q)):
                check(np.array_equal(mine, named), "generators over the default field")
            check([A(m).tolist() for m in cls.iter_mats(d)] == [A(m).tolist() for m in cls.iter_mats(d, q)], "members over the default field")
            check(cls(d).field.order == q, "default field")
    if both:
        check(abstract.SL(d, q).order == order and abstract.PSL(d, q).order == order // math.gcd(d, q - 1), "orders of SL and PSL")


def linear_groups(ctx):
    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2)] + ([(2, 7)] if ctx.tier != "quick" else []):
        ctx.case(f"SL({d},{q})", linear, d, q, True)


def direction():
    """Does the lift of a generator g of the cyclic group of order 3 obey <0| L(g) = <1|?"""
    g = abstract.AbelianGroup(3)
    return A(g.lift(g.generators[0]))[0, 1] == 1


@contract(["qldpc.abstract.AbelianGroup.__init__", "qldpc.abstract.CyclicGroup.__init__"])
def abelian(orders, direct_sum):
    group = abstract.AbelianGroup(*orders, direct_sum=direct_sum)
    gens = [g for g in group.generators]
    # <i| L(g^p) = <i + p| or <i - p| (the documentation names both conventions)
    sign = 1 if direction() else -1
    shift = lambda n, p: np.roll(np.eye(n, dtype=int), sign * p, axis=1)
    big = [n for n in orders if n > 1]
    for powers, member in zip(itertools.product(*map(range, orders)), group.generate()):
        blocks = [shift(n, p) for n, p in zip(orders, powers)]
        want = la.block_diag(*blocks) if direct_sum else blocks[0]
        if not direct_sum:
            for b in blocks[1:]:
                want = np.kron(want, b)
        check(np.array_equal(A(group.lift(member)), want), lambda: f"lift of the member with exponents {powers}")
    check(len(gens) == max(1, len(big)), "generators")


def abelian_groups(ctx):
    for orders in [(1,), (2,), (5,), (2, 3), (3, 2), (4, 2), (1, 3), (3, 1), (2, 1, 3), (2, 2, 2), (1, 1), (3, 4)]:
        for ds in (False, True):
            ctx.case(f"{orders}-{ds}", abelian, orders, ds)

    def cyclic(n):
        g = abstract.CyclicGroup(n)
        gen_ = g.generators[0]
        for p in range(-n, 2 * n):
            m = gen_**p
            s = p if direction() else -p
            check(all(A(g.lift(m))[i, (i + s) % n] == 1 for i in range(n)), "lift of a power of the generator")

    for n in range(1, 9):
        ctx.case(f"cyclic-{n}", cyclic, n)


GROUPS = {"groups": groups, "members": members, "regular_lifts": regular_lifts, "own_lifts": own_lifts, "small_groups": small_groups,
          "constructions": constructions, "linear_groups": linear_groups, "abelian": abelian_groups}
GROUPS.update({g.__name__: g for g in proofs('algebra', 'members', 'representations')})
