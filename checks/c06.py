"""C06: classical code algebra."""
import itertools

import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise
from vf.proofs import groups as proofs
from qldpc import codes

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
C = "qldpc.codes.common.ClassicalCode."
A = spec.A


def space(code):
    return la.nullspace(A(code.matrix), spec.q_of(code))


@contract(C + "generator")
def generator(code):
    q, n = spec.q_of(code), len(code)
    G = A(code.generator).reshape(-1, n)
    check(la.rank(G, q) == len(G), "generator rows are dependent")
    check(la.same_span(G, space(code), q), "generator does not span the code")


@contract(C + "set_generator")
def preset(code, rng):
    """Exactly the bases of the code space are accepted, and used."""
    q, n = spec.q_of(code), len(code)
    G = space(code)
    k = len(G)
    given = [la.matmul(gen.matrix(rng, rng.choice([k, k, k + 1, max(k - 1, 0)]), k, q).reshape(-1, k), G, q).reshape(-1, n) if k else np.zeros((rng.randrange(2), n), dtype=int),
             np.vstack([G, la.matmul(gen.matrix(rng, 1, k, q), G, q)]) if k else G,
             gen.matrix(rng, max(k, 1), n, q), np.vstack([G[1:], gen.matrix(rng, 1, n, q)])]
    for M in given:
        other = codes.ClassicalCode(code.matrix)
        basis = la.same_span(M, G, q) and len(M) == k
        if not len(M):
            continue
        if not basis:
            must_raise(ValueError, other.set_generator, M if rng.random() < 0.5 else gen.gf(M, q))
            generator(other)
        else:
            other.set_generator(M if rng.random() < 0.5 else gen.gf(M, q))
            check(np.array_equal(A(other.generator), M), "the generator is not the one that was set")
            check(la.same_span(space(~other), A(code.matrix), q), "dual")
            if q ** k <= 200:
                words(other)


@contract([C + "dual", C + "__invert__"])
def dual(code):
    q, n = spec.q_of(code), len(code)
    D = ~code
    check(D.field is code.field and len(D) == n, "dual over a different field or length")
    check(la.same_span(space(D), A(code.matrix), q), "the dual is not the orthogonal complement")
    check(la.same_span(space(~D), space(code), q), "double dual is a different code")
    check(codes.ClassicalCode.equiv(~~code, code), "double dual is not equivalent")
    check(D.dimension == n - code.dimension, "dimension of the dual")
    generator(D)


@contract(C + "iter_words")
def words(code, limit=3000):
    q, n = spec.q_of(code), len(code)
    G = space(code)
    if q ** len(G) > limit:
        raise Skip("too many words")
    got = [tuple(int(x) for x in w) for w in code.iter_words()]
    want = {tuple(w) for w in la.words(G, q).tolist()}
    check(len(got) == len(set(got)), "a word is repeated")
    check(set(got) == want, "iter_words does not list the code space")
    nz = [tuple(int(x) for x in w) for w in code.iter_words(skip_zero=True)]
    check(len(nz) == len(got) - 1 and set(nz) == want - {(0,) * n}, "iter_words(skip_zero) does not skip exactly the zero word")


@contract(C + "__contains__")
def membership(code, rng):
    q, n = spec.q_of(code), len(code)
    H = A(code.matrix)
    for _ in range(6):
        w = np.array([rng.randrange(q) for _ in range(n)])
        if rng.random() < 0.5 and len(G := space(code)):
            w = la.matmul(np.array([rng.randrange(q) for _ in range(len(G))]), G, q)
        inside = not la.matmul(H, w, q).any()
        check((w.tolist() in code) == inside and (gen.gf(w, q) in code) == inside, "membership")
        ws = np.vstack([w, np.zeros(n, dtype=int)])
        check((ws in code) == inside, "membership of several words")
    w = A(code.get_random_word(seed=rng.randrange(1, 100)))
    check(not la.matmul(H, w, q).any(), "random word outside of the code")


@contract(C + "tensor_product")
def tensor(a, b):
    q = spec.q_of(a)
    t = codes.ClassicalCode.tensor_product(a, b)
    check(len(t) == len(a) * len(b) and t.field is a.field, "length of a tensor product")
    want = la.kron(space(a), space(b), q)
    check(la.same_span(space(t), want.reshape(-1, len(t)), q), "tensor product is not spanned by products of words")
    check(t.dimension == a.dimension * b.dimension, "dimension of a tensor product")
    generator(t)


@contract(C + "stack")
def stack(*cs):
    q = spec.q_of(cs[0])
    s = codes.ClassicalCode.stack(*cs)
    check(s.field is cs[0].field and len(s) == sum(map(len, cs)), "length of a stack")
    check(np.array_equal(A(s.matrix), la.block_diag(*[A(c.matrix) for c in cs])), "checks of a stack")
    want = la.block_diag(*[space(c) for c in cs])
    check(la.same_span(space(s), want, q), "words of a stack")
    check(s.dimension == sum(c.dimension for c in cs), "dimension of a stack")


@contract(C + "puncture")
def puncture(code, bits):
    q, n = spec.q_of(code), len(code)
    p = code.puncture(*bits)
    keep = [b for b in range(n) if b not in bits]
    check(p.field is code.field and len(p) == len(keep), "length of a punctured code")
    check(la.same_span(space(p), space(code)[:, keep], q), "punctured code is not the projection")


@contract(C + "shorten")
def shorten(code, bits):
    q, n = spec.q_of(code), len(code)
    s = code.shorten(*bits)
    keep = [b for b in range(n) if b not in bits]
    check(s.field is code.field and len(s) == len(keep), "length of a shortened code")
    G = space(code)
    c = la.nullspace(G[:, sorted(set(bits))].T, q) if len(G) and bits else np.eye(len(G), dtype=int)
    want = la.matmul(c, G, q).reshape(-1, n)[:, keep] if len(G) else np.zeros((0, len(keep)), dtype=int)
    check(la.same_span(space(s), want, q), "shortened code is not the words that vanish on the given bits")


@contract(C + "from_generator")
def from_generator(G, q):
    for M in (gen.gf(G, q), G.tolist()):
        code = codes.ClassicalCode.from_generator(M, None if not isinstance(M, list) else q)
        check(spec.q_of(code) == q and len(code) == G.shape[1], "field or length")
        check(la.same_span(space(code), G, q), "code is not generated by the given matrix")


def algebra(ctx):
    for i in range(ctx.n(220, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5, 7, 8, 9]), rng.randrange(1, 7)
        M = gen.matrix(rng, rng.randrange(1, n + 2), n, q)
        if rng.random() < 0.2:
            M = la.matmul(gen.matrix(rng, n + 1, n, q, 1), np.eye(n, dtype=int), q)

        def run():
            code = codes.ClassicalCode(gen.gf(M, q))
            seq = [lambda: generator(code), lambda: dual(code), lambda: words(code, 700), lambda: membership(code, rng),
                   lambda: preset(code, rng), lambda: spec.classical_params(code)]
            rng.shuffle(seq)
            for f in seq:
                try:
                    f()
                except Skip:
                    pass
            generator(codes.ClassicalCode(code))
            if M.any():
                from_generator(M, q)
        ctx.case(f"algebra-{i}-q{q}-n{n}", run)


def products(ctx):
    for i in range(ctx.n(150, 2500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 9])
        a, b = gen.classical(rng, q, 4), gen.classical(rng, q, 4)

        def run():
            tensor(a, b)
            stack(a, b)
            stack(a)
            stack(a, b, a)
            other = gen.classical(rng, 7, 3)
            must_raise(ValueError, codes.ClassicalCode.tensor_product, a, other)
            must_raise(ValueError, codes.ClassicalCode.stack, a, other)
            tensor(~a, b)
        ctx.case(f"products-{i}-q{q}", run)


def cut(ctx):
    for i in range(ctx.n(250, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5, 8]), rng.randrange(2, 7)
        code = codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, n + 1), n, q), q))
        bits = rng.sample(range(n), rng.randrange(0, n))

        def run():
            puncture(code, bits)
            shorten(code, bits)
            G = A(code.generator)
            check(la.same_span(G, space(code), q), "the original code was changed")
        ctx.case(f"cut-{i}-q{q}-n{n}-{bits}", run)


def named(ctx):
    from checks.c03 import classical_named
    for label, make in classical_named().items():
        def run(make=make):
            code = make()
            generator(code)
            dual(code)
            if len(code) <= 16:
                rng = ctx.rng(label)
                membership(code, rng)
                bits = rng.sample(range(len(code)), min(2, len(code) - 1))
                puncture(code, bits)
                shorten(code, bits)
                tensor(code, codes.RepetitionCode(2, spec.q_of(code)))
                words(code, 2000)
        ctx.case(label, run)


GROUPS = [algebra, products, cut, named] + proofs('classical', 'algebra', 'cutting')
