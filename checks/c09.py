"""C09: decoders return corrections that explain the syndrome."""
import itertools
import warnings

import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract
from qldpc import codes, decoders

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
from vf.proofs import groups as proofs

D = "qldpc.decoders."
A = spec.A


def symp_matrix(H, q):
    """Matrix M with M @ e = symplectic products of the rows of H with e."""
    n = H.shape[1] // 2
    return np.hstack([la.neg(H[:, n:], q), H[:, :n]])


def errors_by_weight(n, q, symplectic, wmax):
    """Yield (weight, error) for all errors of weight <= wmax."""
    local = list(itertools.product(range(q), repeat=2 if symplectic else 1))[1:]
    for w in range(wmax + 1):
        for sites in itertools.combinations(range(n), w):
            for vals in itertools.product(local, repeat=w):
                e = np.zeros((2 if symplectic else 1, n), dtype=int)
                for s, v in zip(sites, vals):
                    e[:, s] = v
                yield w, e.ravel()


def best_weights(M, q, symplectic, wmax):
    n = M.shape[1] // (2 if symplectic else 1)
    best = {}
    for w, e in errors_by_weight(n, q, symplectic, wmax):
        best.setdefault(tuple(la.matmul(M, e, q).tolist()), w)
    return best


def weight(e, symplectic):
    return int(la.symp_weight(e)) if symplectic else la.weight(e)


def answer(dec, syndrome, length):
    """Call decode; frame clauses: inputs unchanged, answers independent of earlier answers."""
    syn = np.array(syndrome, dtype=int)
    keep = syn.copy()
    e = dec.decode(syn)
    check(np.array_equal(syn, keep), "the decoder modified the syndrome")
    first = A(e).copy()
    check(first.shape == (length,), f"correction has shape {first.shape}, expected {(length,)}")
    try:
        e += 1
    except Exception:
        pass
    again = A(dec.decode(syn))
    check(np.array_equal(again, first), "the answer changed after an earlier answer was modified")
    return first


def explain(M, e, syndrome, q):
    return np.array_equal(la.matmul(M, e % q, q), np.array(syndrome)) and e.min(initial=0) >= 0 and e.max(initial=0) < q


@contract([D + "LookupDecoder.__init__", D + "LookupDecoder.decode", D + "get_decoder_lookup"])
def lookup(H, q, symplectic, wmax, via):
    mat = gen.gf(H, q)
    keep = H.copy()
    kw = {} if wmax is None else {"max_weight": wmax}
    if symplectic:
        kw["symplectic"] = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dec = decoders.get_decoder(mat, with_lookup=True, **kw) if via else decoders.LookupDecoder(mat, **kw)
    M = symp_matrix(H, q) if symplectic else H
    if wmax is None:
        d = spec.quantum_distance(H, q) if symplectic else spec.min_weight_classical(la.nullspace(H, q), q)
        wmax = 0 if d != d else (int(d) - 1) // 2
    best = best_weights(M, q, symplectic, wmax)
    for s, w in best.items():
        e = answer(dec, s, M.shape[1])
        check(explain(M, e, s, q), lambda: f"correction {e} does not reproduce the syndrome {s}")
        check(weight(e, symplectic) == w, lambda: f"correction {e} for {s} does not have minimum weight {w}")
    check(np.array_equal(A(mat), keep), "the decoder modified the matrix")
    # asking in another order gives the same answers
    for s, w in reversed(list(best.items())):
        check(weight(A(dec.decode(np.array(s))), symplectic) == w, "answers depend on earlier calls")


@contract([D + "GUFDecoder.__init__", D + "GUFDecoder.decode", D + "GUFDecoder.get_sub_problem_indices", D + "get_decoder_GUF"])
def guf(H, q, symplectic, wmax, via, errors, plain=False):
    mat = H.copy() if plain else gen.gf(H, q)
    keep = H.copy()
    kw = {"symplectic": True} if symplectic else {}
    if wmax is not None:
        kw["max_weight"] = wmax
    dec = decoders.get_decoder(mat, with_GUF=True, **kw) if via else decoders.GUFDecoder(mat, **kw)
    M = symp_matrix(H, q) if symplectic else H
    for e0 in errors:
        s = la.matmul(M, e0, q)
        e = answer(dec, s, M.shape[1])
        check(explain(M, e, s, q), lambda: f"correction {e} does not reproduce the syndrome {s} (of the error {e0})")
        if wmax is not None:
            plain_e = A(dec.decode(s, max_weight=len(e) + 1))
            check(explain(M, plain_e, s, q), "max_weight passed to decode")
            check(weight(e, symplectic) <= max(weight(plain_e, symplectic), wmax), "a lower max_weight gives a heavier correction")
        elif M.shape[1] <= 6:
            low = A(dec.decode(s, max_weight=0))
            check(explain(M, low, s, q), "max_weight passed to decode")
            check(weight(low, symplectic) <= weight(e, symplectic), "a lower max_weight gives a heavier correction")
        if wmax is not None and weight(e, symplectic) > wmax:
            # the search failed, so the answer is a lightest one within every error set that was searched
            union = set(np.flatnonzero(e)) | set(np.flatnonzero(plain_e))
            if symplectic:
                half = len(e) // 2
                union = {j % half for j in union} | {j % half + half for j in union}
            if s[M.any(axis=1)].all():
                union = set(range(M.shape[1]))  # every check is violated, so the search starts with every error that matters
            union = sorted(union)
            kernel = la.nullspace(M[:, union], q)
            if len(kernel) and q ** len(kernel) <= 1100:
                base = np.zeros((1, M.shape[1]), dtype=int)
                for v in la.words(kernel, q):
                    lighter = base.copy()
                    lighter[0, union] = v
                    lighter = la.add(e[None, :], lighter, q)[0]
                    check(weight(lighter, symplectic) >= weight(e, symplectic), lambda: f"correction {e} is heavier than {lighter} and than max_weight {wmax}")
        if M.shape[1] <= 6:
            check(np.array_equal(A(dec.decode(s)), e), "a max_weight passed to one call changes the answer of another call")
    check(np.array_equal(A(mat), keep), "the decoder modified the matrix")


@contract([D + "ILPDecoder.__init__", D + "ILPDecoder.decode", D + "ILPDecoder.cvxpy_constraints_for_syndrome"])
def ilp(H, q, errors, best, via):
    mat = gen.gf(H, q)
    keep = H.copy()
    dec = decoders.get_decoder(mat, with_ILP=True) if via else decoders.ILPDecoder(mat)
    for e0 in errors:
        s = la.matmul(H, e0, q)
        try:
            e = answer(dec, s, H.shape[1])
        except ValueError as err:
            check(False, f"no correction found for the syndrome {s} of the error {e0}: {err}")
        check(explain(H, e, s, q), lambda: f"correction {e} does not reproduce the syndrome {s}")
        check(la.weight(e) == best[tuple(s.tolist())], lambda: f"correction {e} for {s} does not have minimum weight")
    check(np.array_equal(A(mat), keep), "the decoder modified the matrix")


@contract([D + "BlockDecoder.decode"])
def block(H, q, blocks, rng):
    dec = decoders.GUFDecoder(gen.gf(H, q))
    bd = decoders.BlockDecoder(len(H), dec)
    es = [gen.matrix(rng, 1, H.shape[1], q)[0] for _ in range(blocks)]
    s = np.concatenate([la.matmul(H, e, q) for e in es])
    keep = s.copy()
    out = A(bd.decode(s))
    check(np.array_equal(s, keep), "the decoder modified the syndrome")
    check(out.shape == (blocks * H.shape[1],), f"shape {out.shape}")
    for i in range(blocks):
        part = out[i * H.shape[1]:(i + 1) * H.shape[1]]
        check(explain(H, part, s[i * len(H):(i + 1) * len(H)], q), f"correction of block {i} does not explain its syndrome")
        check(np.array_equal(part, A(dec.decode(s[i * len(H):(i + 1) * len(H)]))), "block answer differs from the single-block answer")


@contract([D + "DirectDecoder.from_indirect", D + "DirectDecoder.decode"])
def direct(H, q, rng, plain):
    mat = H.copy() if plain else gen.gf(H, q)
    inner = decoders.GUFDecoder(mat)
    dec = decoders.DirectDecoder.from_indirect(inner, mat)
    G = la.nullspace(H, q)
    words = la.matmul(gen.matrix(rng, 4, len(G), q), G, q).reshape(-1, H.shape[1]) if len(G) else np.zeros((1, H.shape[1]), dtype=int)
    for w in words:
        arg = w.copy()
        out = A(dec.decode(arg))
        check(np.array_equal(out, w), lambda: f"the code word {w} is mapped to {out}")
        check(np.array_equal(arg, w), "the decoder modified the word")
    for _ in range(4):
        w = la.add(words[rng.randrange(len(words))], gen.matrix(rng, 1, H.shape[1], q, 0.3)[0], q)
        arg = w.copy()
        out = A(dec.decode(arg))
        check(np.array_equal(arg, w), "the decoder modified the word")
        s = la.matmul(H, w, q)
        want = la.add(w, la.neg(A(inner.decode(s)), q), q)
        check(np.array_equal(out, want), lambda: f"{w} is mapped to {out}, not to itself minus the correction, {want}")
        check(not la.matmul(H, out, q).any(), "the result is not a code word")


class Recorder:
    """Decoder that records what it is asked, and answers with a fixed vector."""

    def __init__(self, reply):
        self.reply, self.seen = reply, []

    def decode(self, syndrome):
        self.seen.append(np.array(syndrome, dtype=int).copy())
        return self.reply.copy()


@contract([D + "DirectDecoder.from_indirect"])
def direct_any_decoder(H, q, rng, plain):
    """for ANY indirect decoder: decode(w) = w - decoder.decode(H w)"""
    mat = H.copy() if plain else gen.gf(H, q)
    reply = gen.matrix(rng, 1, H.shape[1], q)[0]
    rec = Recorder(reply)
    dec = decoders.DirectDecoder.from_indirect(rec, mat)
    for _ in range(3):
        w = gen.matrix(rng, 1, H.shape[1], q)[0]
        out = A(dec.decode(w.copy()))
        check(np.array_equal(rec.seen[-1], la.matmul(H, w, q)), "the decoder was asked about a wrong syndrome")
        check(np.array_equal(out, la.add(w, la.neg(reply, q), q)), "the result is not word - correction")


def small_errors(rng, n, q, symplectic, count):
    m = n * (2 if symplectic else 1)
    return [gen.matrix(rng, 1, m, q, rng.choice([0.1, 0.3, 0.8]))[0] for _ in range(count)]


def lookups(ctx):
    for i in range(ctx.n(70, 1500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5])
        n = rng.randrange(1, 6)

        def run():
            if rng.random() < 0.5:
                H = gen.matrix(rng, rng.randrange(1, n + 2), n, q)
                lookup(H, q, False, rng.choice([0, 1, 2, 3]) if q < 5 else 1, rng.random() < 0.5)
                lookup(H, q, False, None, False)
            else:
                m = min(n, 4 if q == 2 else 3)
                H = gen.stabilizer_matrix(rng, m, rng.randrange(1, m + 1), q, 0)
                lookup(H, q, True, rng.choice([0, 1, 2]) if q < 4 else 1, rng.random() < 0.5)
                if q < 4:
                    lookup(H, q, True, None, True)

        ctx.case(f"lookup-{i}", run)
    named = {"five": codes.FiveQubitCode(), "steane": codes.SteaneCode(), "c4": codes.C4Code()}
    for name, code in named.items():
        ctx.case(f"lookup-{name}", lambda c=code: lookup(A(c.matrix), 2, True, None, True))
    for r in (2, 3):
        ctx.case(f"lookup-hamming{r}", lambda r=r: lookup(A(codes.HammingCode(r).matrix), 2, False, None, True))
    ctx.case("lookup-repetition", lambda: lookup(A(codes.RepetitionCode(7, 3).matrix), 3, False, 3, True))


def violating_errors(rng, H, q, symplectic, count):
    """random errors that violate every nonzero check, if some are found"""
    M = symp_matrix(H, q) if symplectic else H
    every = [np.array([rng.randrange(q) for _ in range(M.shape[1])]) for _ in range(300)]
    return sorted(every, key=lambda e: not la.matmul(M, e, q)[M.any(axis=1)].all())[:count]


def union_find(ctx):
    for i in range(ctx.n(220, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 7, 8, 9])
        n = rng.randrange(1, 9)

        def run():
            wmax = rng.choice([None, None, 0, 1, 2]) if q < 4 and n < 6 else None
            if rng.random() < 0.6:
                H = gen.matrix(rng, rng.randrange(1, n + 3), n, q, rng.choice([0.15, 0.3, 0.6]))
                guf(H, q, False, wmax, rng.random() < 0.5, small_errors(rng, n, q, False, 5), plain=q == 2 and rng.random() < 0.3)
            else:
                if rng.random() < 0.5:
                    H = gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q)
                else:
                    H = gen.matrix(rng, rng.randrange(1, n + 3), 2 * n, q, rng.choice([0.15, 0.4]))
                guf(H, q, True, wmax, rng.random() < 0.5, small_errors(rng, n, q, True, 5), plain=q == 2 and rng.random() < 0.3)

        ctx.case(f"guf-{i}", run)
    for i in range(ctx.n(60, 900)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(1_000_000 + i)

        def limited():
            q, n, rows = rng.choice([(2, 5, 3), (2, 5, 4), (2, 11, 6), (2, 12, 7), (2, 11, 6), (2, 12, 7), (2, 12, 6), (3, 8, 5)])
            symplectic = n == 5
            H = gen.stabilizer_matrix(rng, n, rows, q) if symplectic else gen.matrix(rng, rows, n, q, 0.5)
            guf(H, q, symplectic, rng.choice([0, 0, 1, 2]), rng.random() < 0.5, violating_errors(rng, H, q, symplectic, 3))

        ctx.case(f"guf-limited-{i}", limited)

    def exhaustive(code, symplectic):
        H = A(code.matrix)
        q = code.field.order
        errs = [e for _, e in errors_by_weight(len(code), q, symplectic, 2)]
        guf(H, q, symplectic, None, True, errs[:ctx.n(60, 1000)])

    for name, code in {"steane": codes.SteaneCode(), "surface3": codes.SurfaceCode(3), "toric2": codes.ToricCode(2),
                       "five": codes.FiveQubitCode()}.items():
        ctx.case(f"guf-{name}", exhaustive, code, True)
    for name, code in {"ring7": codes.RingCode(7), "hamming3": codes.HammingCode(3), "rep5-3": codes.RepetitionCode(5, 3),
                       "hamming2-3": codes.HammingCode(2, 3)}.items():
        ctx.case(f"guf-{name}", exhaustive, code, False)

    def long_codes(name, code, symplectic, spread):
        """syndromes whose bits are far apart, so that clusters have to grow many times"""
        rng = ctx.rng(name)
        H, q = A(code.matrix), code.field.order
        n = len(code)
        errs = []
        for _ in range(ctx.n(4, 30)):
            e = np.zeros(n * (2 if symplectic else 1), dtype=int)
            start, run = rng.randrange(n), rng.randrange(1, spread + 1)
            e[[(start + j) % n for j in range(run)]] = rng.randrange(1, q)
            errs.append(e)
        guf(H, q, symplectic, None, False, errs)

    for name, code, symplectic, spread in [
            ("ring24", codes.RingCode(24), False, 12), ("rep31", codes.RepetitionCode(31), False, 31),
            ("rep12-3", codes.RepetitionCode(12, 3), False, 12), ("ring15-4", codes.RingCode(15, 4), False, 8),
            ("surface5", codes.SurfaceCode(5), True, 8), ("toric4", codes.ToricCode(4), True, 6)]:
        ctx.case(f"guf-long-{name}", long_codes, name, code, symplectic, spread)


def integer_programs(ctx):
    for i in range(ctx.n(24, 300)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 5, 7])
        n = rng.randrange(1, 6 if q < 5 else 4)

        def run():
            H = gen.matrix(rng, rng.randrange(1, n + 2), n, q)
            ilp(H, q, small_errors(rng, n, q, False, 3), best_weights(H, q, False, n), rng.random() < 0.5)

        ctx.case(f"ilp-{i}", run, limit=40)

    def wide(q, n):
        H = np.array([[q - 1] * n, [1] + [0] * (n - 1)])
        ilp(H, q, [np.full(n, q - 1), np.eye(n, dtype=int)[0]], best_weights(H, q, False, min(n, 2)), True)

    for q, n in [(2, 9), (3, 4), (5, 3)]:
        ctx.case(f"ilp-wide-{q}-{n}", wide, q, n, limit=40)


def composed(ctx):
    for i in range(ctx.n(150, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 8])
        n = rng.randrange(1, 7)
        H = gen.matrix(rng, rng.randrange(1, n + 2), n, q)
        ctx.case(f"block-{i}", lambda: block(H, q, rng.randrange(1, 4), rng))
        plain = q == 2 and rng.random() < 0.5
        ctx.case(f"direct-{i}", lambda: direct(H, q, rng, plain))
        ctx.case(f"direct-any-{i}", lambda: direct_any_decoder(H, q, rng, plain))


@contract([D + "get_decoder", D + "decode", D + "get_decoder_BP_OSD", D + "get_decoder_MWPM", D + "get_decoder_BP_LSD", D + "get_decoder_BF"])
def dispatch(H, q, rng, plain, kw):
    mat = H.copy() if plain else gen.gf(H, q)
    for _ in range(3):
        e0 = gen.matrix(rng, 1, H.shape[1], q, 0.3)[0]
        s = la.matmul(H, e0, q)
        e = A(decoders.decode(mat, s.astype(np.uint8) if kw.get("cast") else s, **{k: v for k, v in kw.items() if k != "cast"}))
        check(explain(H, e, s, q), lambda: f"{kw}: correction {e} does not reproduce the syndrome {s}")
    check(np.array_equal(A(mat), H), "the decoder modified the matrix")


def dispatching(ctx):
    ctx.assume("the decoders of the packages ldpc (BP+OSD) and pymatching solve the decoding problem (external code, sampled only)")
    for i in range(ctx.n(60, 800)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        n = rng.randrange(2, 8)
        H = gen.matrix(rng, rng.randrange(1, n + 1), n, 2)
        ctx.case(f"default-{i}", lambda: dispatch(H, 2, rng, True, {"cast": True}))
        ctx.case(f"guf-{i}", lambda: dispatch(H, 2, rng, True, {"with_GUF": True}))
        q = rng.choice([3, 4, 5])
        Hq = gen.matrix(rng, rng.randrange(1, n + 1), n, q)
        ctx.case(f"default-q-{i}", lambda: dispatch(Hq, q, rng, False, {}))
        R = A(codes.RingCode(n + 1).matrix)
        ctx.case(f"mwpm-{i}", lambda: dispatch(R, 2, rng, True, {"with_MWPM": True}))

    def static():
        rec = Recorder(np.array([1, 0, 1]))
        H = A(codes.RingCode(3).matrix)
        check(decoders.get_decoder(H, static_decoder=rec) is rec, "static decoder")
        out = decoders.decode(H, np.array([1, 0, 1]), static_decoder=rec)
        check(np.array_equal(out, [1, 0, 1]) and np.array_equal(rec.seen[-1], [1, 0, 1]), "static decoder was not asked")

        def constructor(matrix, **kw):
            check(matrix is H and kw == {"foo": 3}, "arguments of the decoder constructor")
            return rec

        check(decoders.get_decoder(H, decoder_constructor=constructor, foo=3) is rec, "decoder constructor")

    ctx.case("static", static)


GROUPS = {"lookup": lookups, "union_find": union_find, "ilp": integer_programs, "composed": composed, "dispatch": dispatching}
GROUPS.update({g.__name__: g for g in proofs("decoders", "lookup", "union_find", "derived", "integer_programs", "programs")})
