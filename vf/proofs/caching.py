"""The disk cache (C21): the wrapper against an abstract key-value store."""
from __future__ import annotations

import itertools
import os
import types

from vf import env  # noqa: F401
from vf.sym.mat import Unsupported
from vf.sym.prove import prove

import qldpc.cache as K
import qldpc.external.groups as EG

TRUSTED = [
    "diskcache.Cache: a mapping that is kept in its directory: reads return what was written under an equal key, keys of different type or content are different, caches in different directories share nothing",
    "key injectivity of the wrapper is proved for calls with up to 3 positional and 3 keyword arguments (opaque scalars, every order of keywords)",
]
P = "qldpc.cache."


class Scalar:
    """An opaque scalar argument: equal only to itself."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"a{self.n}"

    def __deepcopy__(self, memo):
        return self


class Failure(Exception):
    pass


class Store:
    """Any consistent cache: every entry under the key of a call is the result of that call. Decides whether there is one."""

    def __init__(self, ctx, results):
        self.ctx, self.results = ctx, results  # results: value stored under the key asked for
        self.key, self.hit, self.written, self.reads = None, None, [], 0

    def _ask(self, key):
        hash(key)
        if self.key is None:
            self.key = key
            self.hit = self.ctx.decide("the cache has an entry")
        elif self.key != key:
            raise Unsupported("two keys are used")
        return self.hit

    def __contains__(self, key):
        return self._ask(key)

    def __getitem__(self, key):
        if not self._ask(key):
            raise KeyError(key)
        self.reads += 1
        return self.results

    def get(self, key, default=None, **k):
        if k:
            raise Unsupported("get with options")
        if not self._ask(key):
            return default
        self.reads += 1
        return self.results

    def __setitem__(self, key, value):
        self._ask(key)
        self.written.append((key, value))

    def set(self, key, value, **k):
        if k:
            raise Unsupported("set with options")
        self[key] = value

    def __delitem__(self, key):
        raise Unsupported("deletion")


def with_globals(mod, over, fn):
    miss = object()
    saved = {k: mod.__dict__.get(k, miss) for k in over}
    mod.__dict__.update(over)
    try:
        return fn()
    finally:
        for k, v in saved.items():
            if v is miss:
                del mod.__dict__[k]
            else:
                mod.__dict__[k] = v


def calls():
    """Argument lists with up to 3 positional and 3 keyword arguments."""
    names = ["x", "y", "z"]
    for n in range(4):
        args = tuple(Scalar(i) for i in range(n))
        for m in range(4):
            for kw in itertools.permutations(names, m):
                yield args, {k: Scalar(10 + i) for i, k in enumerate(kw)}


def wrapper(h):
    def call(ctx, cl, F):
        use_key = ctx.decide("key_func is given")
        kind = "a value" if ctx.decide("the result is an ordinary value") else "None" if ctx.decide("the result is None") else "failure"
        value = {"a value": Scalar("result"), "None": None, "failure": None}[kind]
        for args, kw in calls() if not use_key else [((Scalar(0), Scalar(1)), {}), ((), {}), ((Scalar(0),), {"yy": Scalar(1)})]:
            store = Store(ctx, value)
            evaluated, opened, keyed = [], [], []

            def function(*a, **k):
                evaluated.append((a, k))
                if kind == "failure":
                    raise Failure
                return value

            def open_cache(name, *, cache_dir=None):
                opened.append((name, cache_dir))
                return store

            def key_func(*a, **k):
                keyed.append((a, k))
                return ("the key", a, tuple(k.items()))

            def run():
                deco = K.use_disk_cache("name", cache_dir="dir", **({"key_func": key_func} if use_key else {}))
                f = deco(function)
                cl.true(not evaluated, "nothing is evaluated before a call")
                try:
                    return ("returned", f(*args, **kw))
                except Failure:
                    return ("raised", None)
            r = with_globals(K, dict(get_disk_cache=open_cache, running_with_pytest=lambda: False), run)
            if store.hit and kind == "failure":
                return  # no entry belongs to a call that fails
            cl.true(opened and set(opened) == {("name", "dir")}, "the cache of the given name in the given directory")
            if use_key:
                cl.true(keyed and all(k == (args, kw) for k in keyed) and store.key == ("the key", args, tuple(kw.items())), "the key is that of key_func")
            if store.hit:
                cl.true(not evaluated, "a repeated call is not evaluated")
                cl.true(r == ("returned", value), "the entry is returned")
                cl.true(all(w == (store.key, value) for w in store.written), "entries are not changed")
            else:
                cl.true(len(evaluated) == 1 and evaluated[0] == (args, kw) and list(evaluated[0][1]) == list(kw), "the function is evaluated once, with the arguments of the call")
                if kind == "failure":
                    cl.true(r[0] == "raised" and not store.written, "failures are passed on and not cached")
                else:
                    cl.true(r == ("returned", value), "the result is returned")
                    cl.true(store.written == [(store.key, value)], "the result is stored under the key of the call")
            # one more decision would be taken for each call: the outcomes of the first one stand for all
            ctx.decide = lambda label, hit=store.hit: hit
    prove(h, "hit: the entry, without evaluation; miss: one evaluation, stored under the key that was asked for; failures are not stored",
          P + "use_disk_cache", call, [K], plain=True, min_paths=12)

    def keys(ctx, cl, F):
        seen = {}
        for args, kw in calls():
            got = []

            class S(dict):
                def __contains__(self, k):
                    got.append(k)
                    return False

                def get(self, k, d=None):
                    got.append(k)
                    return d

                def __setitem__(self, k, v):
                    got.append(k)
            with_globals(K, dict(get_disk_cache=lambda *a, **k: S(), running_with_pytest=lambda: False),
                         lambda: K.use_disk_cache("name")(lambda *a, **k: 0)(*args, **kw))
            cl.true(len(got) >= 1 and all(k == got[0] for k in got), "one key for each call")
            hash(got[0])
            flat = repr(got[0])
            key = (tuple(a.n for a in args), tuple(sorted((k, v.n) for k, v in kw.items())))  # keywords have no order
            cl.true(seen.setdefault(flat, key) == key, f"the calls {seen[flat]} and {key} have the same key {flat}")
    prove(h, "different calls have different keys", P + "use_disk_cache", keys, [K], plain=True)

    def same(ctx, cl, F):
        """The key of a call does not depend on anything but its arguments: the same call has the same key."""
        for args, kw in calls():
            got = []

            class S(dict):
                def __contains__(self, k):
                    got.append(k)
                    return False

                def get(self, k, d=None):
                    got.append(k)
                    return d
            for _ in range(2):
                with_globals(K, dict(get_disk_cache=lambda *a, **k: S(), running_with_pytest=lambda: False),
                             lambda: K.use_disk_cache("name")(lambda *a, **k: 0)(*args, **dict(kw)))
            cl.true(got[0] == got[-1], "the same call has the same key")
    prove(h, "the same call has the same key", P + "use_disk_cache", same, [K], plain=True)

    def directories(ctx, cl, F):
        given = ctx.decide("cache_dir is given")
        made = []

        class Dc:
            @staticmethod
            def Cache(path, **k):
                made.append((path, k))
                return "cache"
        over = dict(diskcache=Dc, running_with_pytest=lambda: False, platformdirs=types.SimpleNamespace(user_cache_dir=lambda *a, **k: "/user"))
        names = ["a", "b", "ab", "a_b", "group_generators", "codes"]
        for n in names:
            r = with_globals(K, over, lambda: K.get_disk_cache(n, **({"cache_dir": "/dir"} if given else {})))
            cl.true(r == "cache", "the cache is returned")
        paths = [p for p, _ in made]
        cl.true(len(paths) == len(set(map(os.path.normpath, paths))) == len(names), "different names have different directories")
        base = "/dir" if given else "/user"
        cl.true(all(os.path.normpath(p).startswith(base + os.sep) for p in paths), "caches are kept in the given directory, or in the user's")
        cl.true(all(not any(q != p and os.path.normpath(q).startswith(os.path.normpath(p) + os.sep) for q in paths) for p in paths), "no cache is inside another")
    prove(h, "caches of different names are in different directories", P + "get_disk_cache", directories, [K], plain=True, min_paths=2)

    def structure(ctx, cl, F):
        """get_small_group_structure keeps its answers in the cache itself."""
        gap = ctx.decide("GAP is installed")
        known = ctx.decide("GAP knows the group") if gap else None
        store = Store(ctx, "C2 x C2")
        asked = []
        fake = types.SimpleNamespace(
            cache=types.SimpleNamespace(get_disk_cache=lambda name, **k: store),
            external=types.SimpleNamespace(gap=types.SimpleNamespace(is_installed=lambda: gap, get_output=lambda c: asked.append(c) or ("Q8\n" if known else "\n"))))
        try:
            r = with_globals(EG, dict(qldpc=fake), lambda: EG.get_small_group_structure(8, 4))
        except ValueError:
            cl.true(gap and not known and not store.written, "failures are not stored")
            return
        if store.hit:
            cl.true(r == "C2 x C2" and not asked and not store.written, "the entry is returned without a question")
        elif gap:
            cl.true(known and r == "Q8" and store.written == [(store.key, "Q8")], "the answer is stored and returned")
            cl.true(len(asked) == 1 and "SmallGroup(8,4)" in asked[0], "GAP is asked for the group")
        else:
            cl.true(not store.written, "the name is not stored as a structure")
        found = set()
        for g in ((8, 4), (4, 8), (1, 23), (12, 3), (123, 0)):
            st = Store(ctx, "x")
            st.hit = True
            st._ask = lambda key: found.add(key) or True
            with_globals(EG, dict(qldpc=types.SimpleNamespace(cache=types.SimpleNamespace(get_disk_cache=lambda name, **k: st))), lambda: EG.get_small_group_structure(*g))
        cl.true(len(found) == 5, "different groups have different keys")
    prove(h, "descriptions of groups: stored answers are returned, answers of GAP are stored", "qldpc.external.groups.get_small_group_structure", structure, [EG], plain=True, min_paths=4)
