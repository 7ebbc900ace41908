"""C21: the disk cache refines the function that it wraps.

Model: per (directory, cache name) a finite map from call keys to results. A call returns model[key] without evaluation
if key is present; otherwise it evaluates the function once, and stores the result if the function returns.
"""
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from vf import env, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, private
from qldpc import abstract, cache, circuits, codes

QUICK_LIMIT, THOROUGH_LIMIT = 60, 500
T = "qldpc.cache."

SCALARS = [0, 1, 2, -1, 7, 10**20, "", "a", "b", "ab", "1", "0", "x y", 0.5, 1.5, -2.5, None, b"a", b""]


class Failure(Exception):
    pass


def outcome(fn, *args, **kwargs):
    try:
        return "value", fn(*args, **kwargs)
    except Failure as e:
        return "error", e.args


def value_of(tag, args, kwargs):
    """The wrapped functions: a result that tells all calls apart; some results are falsy, some calls fail."""
    h = random.Random(repr((tag, args, sorted(kwargs.items())))).randrange(8)
    if h == 0:
        raise Failure(tag, args, tuple(sorted(kwargs.items())))
    if h in (1, 2):
        return [None, 0][h - 1]
    if h == 3:
        return ()
    if h == 4:
        return []
    return tag, args, tuple(sorted(kwargs.items()))


def random_call(rng):
    n = rng.choice([0, 1, 1, 1, 2, 3])
    args = tuple(rng.choice(SCALARS) for _ in range(n))
    kwargs = {k: rng.choice(SCALARS) for k in rng.sample(["a", "b", "key", "x"], rng.choice([0, 0, 1, 2]))}
    return args, kwargs


@contract([T + "use_disk_cache", T + "get_disk_cache"])
def histories(rng, steps, root):
    names = ["n1", "n2", "deep/n", "n1.x"]
    dirs = [os.path.join(root, d) for d in ("p", "q")]
    model, evaluated, funcs = {}, [], []

    def make(tag, name, where, keyed):
        def fn(*args, **kwargs):
            """doc of fn"""
            evaluated.append((tag, args, kwargs))
            return value_of(tag, args, kwargs)

        key = (lambda *args, **kwargs: (len(args), repr(args), tuple(sorted(kwargs.items())))) if keyed else None
        wrapped = cache.use_disk_cache(name, cache_dir=where, **({"key_func": key} if keyed else {}))(fn)
        check(wrapped.__name__ == "fn" and wrapped.__doc__ == "doc of fn", "the name or documentation of the function is lost")
        return wrapped, tag, name, where, keyed

    # functions that share a cache must be the same function; everything else is separate
    for name in names:
        for where in dirs:
            funcs.append(make((name, where), name, where, rng.random() < 0.3))
    calls = [random_call(rng) for _ in range(rng.randrange(2, 7))]
    calls += [((1,), {}), (("a", 1), {}), ((), {"a": 1}), ((1, "a"), {})]
    for step in range(steps):
        i = rng.randrange(len(funcs))
        fn, tag, name, where, keyed = funcs[i]
        args, kwargs = rng.choice(calls)
        if rng.random() < 0.1:  # as in a new process: decorate the function again
            funcs[i] = make(tag, name, where, keyed)
            fn = funcs[i][0]
        if rng.random() < 0.08:  # entries can be removed
            got = cache.get_disk_cache(name, cache_dir=where)
            if hasattr(got, "clear"):
                check(len(list(got)) >= len(model.get((name, where), {})), "the number of entries in the cache")
                if rng.random() < 0.5:
                    got.clear()
                    model.pop((name, where), None)
        n = len(evaluated)
        got = outcome(fn, *args, **kwargs)
        want = outcome(value_of, tag, args, kwargs)
        check(got == want and type(got[1]) is type(want[1]), lambda: f"call {args} {kwargs} of {tag} gives {got}, the function itself gives {want}")
        known = model.setdefault((name, where), {})
        k, form = repr((args, sorted(kwargs.items()))), repr(list(kwargs.items()))
        fresh = evaluated[n:]
        if form in known.get(k, ()):
            check(not fresh, lambda: f"call {args} {kwargs} of {tag} was evaluated again")
        else:  # keyword arguments in another order may count as another call
            check(fresh == [(tag, args, kwargs)] or (k in known and not fresh), lambda: f"call {args} {kwargs} of {tag}: evaluations {fresh}")
            if want[0] == "value":
                known.setdefault(k, set()).add(form)
    for (name, where), known in model.items():
        number = len(list(cache.get_disk_cache(name, cache_dir=where)))
        check(len(known) <= number <= sum(map(len, known.values())), "the number of entries in the cache")


@contract([T + "get_disk_cache"])
def objects_of_cache(rng, root):
    """get_disk_cache gives a mapping that persists; names and directories are separate."""
    spaces = [(n, os.path.join(root, d)) for n in ("c", "d", "c.d") for d in ("e", "f")]
    model = {s: {} for s in spaces}
    for _ in range(40):
        s = rng.choice(spaces)
        c = cache.get_disk_cache(s[0], cache_dir=s[1])
        key = rng.choice([1, "1", (1,), ("1",), ("a", 2), (1, 2), "k"])
        act = rng.randrange(4)
        if act == 0:
            val = rng.choice([None, 0, [1, [2]], {"a": 1}, "text", (1, 2)])
            c[key] = val
            model[s][key] = val
        elif act == 1 and key in model[s]:
            del c[key]
            del model[s][key]
        check((key in c) == (key in model[s]), "membership")
        check(c.get(key, "absent") == model[s].get(key, "absent"), "contents")
    for s in spaces:
        c = cache.get_disk_cache(s[0], cache_dir=s[1])
        check({k: c[k] for k in c} == model[s], "the contents of a cache after all operations")
    default = cache.get_disk_cache("verif-default")
    default["k"] = 1
    check(cache.get_disk_cache("verif-default")["k"] == 1, "default directory")
    check("k" not in cache.get_disk_cache("verif-default2"), "default directory: names")


@contract([T + "use_disk_cache"])
def removal(root, rng):
    """Removing entries makes exactly those calls evaluate again."""
    runs = []

    @cache.use_disk_cache("r", cache_dir=root, key_func=lambda x: ("key", x))
    def f(x):
        runs.append(x)
        return x * 2

    xs = list(range(8))
    for x in xs + xs:
        check(f(x) == 2 * x, "value")
    check(sorted(runs) == xs, "evaluated again")
    gone = [x for x in xs if rng.random() < 0.5]
    c = cache.get_disk_cache("r", cache_dir=root)
    for x in gone:
        check(("key", x) in c, "the key of the entry is not the one of key_func")
        del c["key", x]
    runs.clear()
    for x in xs + xs:
        check(f(x) == 2 * x, "value")
    check(sorted(runs) == gone, "other calls than the removed ones were evaluated")


@contract([T + "use_disk_cache"])
def processes(root):
    """Results survive the process, and are found by another one."""
    prog = f"""
import sys
sys.path[:0] = {[p for p in sys.path if p]!r}
from qldpc import cache
@cache.use_disk_cache("p", cache_dir={root!r})
def f(x, *, y=0):
    print("run", x, y)
    return [x, y]
print(f(int(sys.argv[1]), y=int(sys.argv[2])))
"""
    def run(x, y):
        out = subprocess.run([sys.executable, "-c", prog, str(x), str(y)], capture_output=True, text=True, timeout=120)
        check(out.returncode == 0, out.stderr[-500:])
        return out.stdout.split("\n")[:-1]
    check(run(1, 2) == ["run 1 2", "[1, 2]"], "first call")
    check(run(1, 2) == ["[1, 2]"], "second process")
    check(run(2, 1) == ["run 2 1", "[2, 1]"], "other arguments")
    check(run(1, 2) == ["[1, 2]"], "third process")


@contract(["qldpc.circuits._sympy_group_intersection_generators", T + "use_disk_cache"])
def intersections(rng):
    """A cached function of the library: the key determines the result."""
    fn = private(circuits, "_sympy_group_intersection_generators")

    def perm(n):
        p = list(range(n))
        rng.shuffle(p)
        return abstract.GroupMember(p)

    pool = []
    for _ in range(5):
        n = rng.randrange(2, 6)
        gens = [perm(n) for _ in range(rng.randrange(1, 3))]
        if any(list(g.array_form) != list(range(n)) for g in gens):  # the groups of the library are never trivial
            pool.append(abstract.Group(*gens))
    for _ in range(20 if pool else 0):
        a, b = rng.choice(pool), rng.choice(pool)
        if a.identity.size != b.identity.size:
            continue
        got = abstract.Group(*map(abstract.GroupMember, fn(a, b)))
        want = {tuple(g.array_form) for g in a.generate()} & {tuple(g.array_form) for g in b.generate()}
        check({tuple(g.array_form) for g in got.generate()} == want, "the intersection of two groups is wrong")


@contract(["qldpc.external.groups.get_small_group_number", "qldpc.external.groups.get_small_group_structure", "qldpc.external.groups.get_generators",
           "qldpc.external.codes.get_code"])
def externals(rng):
    """Cached requests to external services are not confused with each other."""
    from qldpc import external
    log = []

    def reply(*commands):
        log.append(commands)
        text = " ".join(commands)
        h = random.Random(text).randrange(2, 9)
        if "NumberSmallGroups" in text:
            return str(h)
        if "StructureDescription" in text:
            return f"S{h}{text.count('1')}"
        if "CheckMat" in text:
            return "GF(2)\n[" + ",".join("1" if i == h else "0" for i in range(10)) + "]\n"
        return "(1,2)(3,4)\n(" + ",".join(map(str, range(1, h + 3))) + ")\n"

    gap = external.gap
    saved = gap.get_output, gap.is_installed, gap.require_package
    gap.get_output, gap.is_installed, gap.require_package = reply, lambda: True, lambda name: None
    try:
        order = list(range(1, 12)) * 2
        rng.shuffle(order)
        seen = {}
        for o in order:
            n = len(log)
            got = external.groups.get_small_group_number(o)
            check(got == random.Random(f"Print(NumberSmallGroups({o}));").randrange(2, 9), "get_small_group_number")
            check((len(log) == n) == (o in seen), "evaluated again, or not at all")
            seen[o] = got
        pairs = [(a, b) for a in (1, 11, 12) for b in (1, 2, 11)] * 2
        rng.shuffle(pairs)
        seen = set()
        for a, b in pairs:
            n = len(log)
            text = f"Print(StructureDescription(SmallGroup({a},{b})));"
            check(external.groups.get_small_group_structure(a, b) == f"S{random.Random(text).randrange(2, 9)}{text.count('1')}", "get_small_group_structure")
            check((len(log) == n) == ((a, b) in seen), "structure evaluated again, or not at all")
            seen.add((a, b))
        seen = {}
        for name in ["CodeA(1)", "CodeA(2)", "CodeB(1)", "CodeA(1)", "CodeB(1)", "CodeA(11)"]:
            n = len(log)
            got = external.codes.get_code(name)
            check((len(log) == n) == (name in seen) and seen.setdefault(name, got) == got, "get_code")
        seen = {}
        for name in ["GroupA(1)", "GroupA(2)", "GroupB(1)", "GroupA(1)", "GroupB(1)", "GroupA(2)"]:
            n = len(log)
            got = external.groups.get_generators(name)
            check((len(log) == n) == (name in seen) and seen.setdefault(name, got) == got, "get_generators")
    finally:
        gap.get_output, gap.is_installed, gap.require_package = saved


def with_root(fn):
    def run(*args):
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as root:
            return fn(*args, root)
    return run


def sequences(part):
    def group(ctx):
        if cache.running_with_pytest():
            raise RuntimeError("the disk cache is bypassed: pytest is imported")
        for i in range(part, ctx.n(60, 800), 2):
            if ctx.left() < 0:
                break
            ctx.case(f"calls-{i}", with_root(lambda root, i=i: histories(ctx.rng(i), ctx.n(40, 60), root)))
    return group


def library(ctx):
    if cache.running_with_pytest():
        raise RuntimeError("the disk cache is bypassed: pytest is imported")
    for i in range(ctx.n(10, 60)):
        ctx.case(f"mapping-{i}", with_root(lambda root: objects_of_cache(ctx.rng(f"m{i}"), root)))
        ctx.case(f"removal-{i}", with_root(lambda root: removal(root, ctx.rng(f"r{i}"))))
        ctx.case(f"intersections-{i}", intersections, ctx.rng(f"i{i}"))
    ctx.case("processes", with_root(processes), limit=200)
    ctx.case("externals", externals, ctx.rng("ext"))


GROUPS = {"calls_0": sequences(0), "calls_1": sequences(1), "library": library}
GROUPS.update({g.__name__: g for g in proofs("caching", "wrapper")})
