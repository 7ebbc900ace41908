"""Loop contracts: a function of /repo is re-compiled from its current source with the loops named by a contract cut.

The source text of the function is read from the module that runs; every statement is kept. A loop with a contract

    for T in I: B    becomes    claim the invariant; give the variables that B assigns arbitrary values that satisfy it;
                                either run B once and claim the invariant again (the path ends),
                                or assume that the iteration is over and go on after the loop.

`break`, `return` and `raise` in B continue the path as they do in Python. Dropped by the extraction: decorators and
annotations of the function.
"""
from __future__ import annotations

import ast
import contextlib
import inspect
import sys
import textwrap

from .mat import CTX, PathEnd, Unsupported

MUTATORS = {"append", "add", "update", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "sort",
            "reverse", "setdefault", "fill", "put", "resize", "difference_update", "intersection_update",
            "symmetric_difference_update", "add_edge", "add_node", "add_edges_from", "add_nodes_from", "__setitem__"}


class Undef:
    """The value of a variable that a contract does not describe."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported(f"variable {object.__getattribute__(self, '_n')} is used after a cut loop but not described by its contract")

    __getattr__ = __setattr__ = __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = __add__ = _no
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __sub__ = __mul__ = __radd__ = __contains__ = __index__ = _no
    __hash__ = None


ANY = object()  # as `mutates`: the contract checks the roots that the body modifies itself (attribute roots)


class Loop:
    """Base of loop contracts. `mutates`: names of objects that the body may modify in place (havoc must replace them)."""

    mutates = ()
    rebinds = False

    def enter(self, it, env):
        """Claims of the invariant on entry."""

    def havoc(self, env):
        """Arbitrary values, satisfying the invariant, of variables assigned in the body: {name: value}."""
        return {}

    def more(self, env):
        """Is there a further iteration? (for loops)"""
        return CTX[-1].decide("another iteration")

    def item(self, env):
        raise Unsupported("no item")

    def back(self, env):
        """Claims of the invariant at the end of an iteration."""

    def done(self, env):
        """Assumptions when the loop ends by itself."""


class Memoryless(Loop):
    """A loop whose iterations do not read what earlier ones assigned: one arbitrary iteration stands for all."""


def assigned(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
            # names bound by := inside a comprehension belong to the function
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
    for n in nodes:
        V().visit(n)
    return out


def mutated_roots(nodes):
    """Names through which objects may be modified in place."""
    out = set()

    def root(e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else "?"
    for n in nodes:
        for w in ast.walk(n):
            if isinstance(w, (ast.Subscript, ast.Attribute)) and isinstance(w.ctx, (ast.Store, ast.Del)):
                out.add(root(w))
            elif isinstance(w, ast.AugAssign):
                out.add(root(w.target))
            elif isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr in MUTATORS:
                out.add(root(w.func.value))
    return out


def reads_before_assignment(body, names):
    bad = set()

    def expr(e, have):
        for w in ast.walk(e):
            if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Load) and w.id in names and w.id not in have:
                bad.add(w.id)

    def block(stmts, have):
        have = set(have)
        for s in stmts:
            if isinstance(s, ast.If):
                expr(s.test, have)
                a, b = block(s.body, have), block(s.orelse, have)
                have = a & b
            elif isinstance(s, (ast.For, ast.While)):
                expr(s.iter if isinstance(s, ast.For) else s.test, have)
                inner = have | (assigned([s.target]) if isinstance(s, ast.For) else set())
                block(s.body, inner)
                block(s.orelse, have)
            elif isinstance(s, ast.Try):
                a = block(s.body, have)
                for h in s.handlers:
                    a &= block(h.body, have)
                block(s.orelse, have)
                have = block(s.finalbody, a)
            elif isinstance(s, ast.With):
                for i in s.items:
                    expr(i.context_expr, have)
                    if i.optional_vars is not None:
                        have |= assigned([i.optional_vars])
                have = block(s.body, have)
            elif isinstance(s, ast.AugAssign):
                expr(s.value, have)
                if isinstance(s.target, ast.Name):
                    if s.target.id in names and s.target.id not in have:
                        bad.add(s.target.id)
                else:
                    expr(s.target, have)
            else:
                expr(s, have)
                have |= assigned([s])
        return have
    block(body, set())
    return bad


class Runtime:
    def __init__(self, contracts):
        self.contracts = contracts

    def enter(self, k, it, env):
        self.contracts[k].enter(it, env)

    def havoc(self, k, env, names):
        got = self.contracts[k].havoc(env)
        extra = set(got) - set(names)
        if extra:
            raise Unsupported(f"the contract describes {extra}, which the loop does not assign")
        return tuple(got[n] if n in got else Undef(n) for n in names)

    def more(self, k, env):
        return self.contracts[k].more(env)

    def item(self, k, env):
        return self.contracts[k].item(env)

    def back(self, k, env):
        self.contracts[k].back(env)
        raise PathEnd

    def done(self, k, env):
        self.contracts[k].done(env)

    def cut(self):
        raise PathEnd

    def listcomp(self, it, cond, elt):
        if hasattr(it, "comprehension"):
            return it.comprehension(cond, elt)
        return [elt(x) for x in it if cond(x)]

    def genexp(self, it, cond, elt):
        if hasattr(it, "generator"):
            return it.generator(cond, elt)
        return (elt(x) for x in it if cond(x))

    def nested(self, parts):
        return NESTED[0](parts)

    def dictcomp(self, it, cond, key, value):
        if hasattr(it, "dict_comprehension"):
            return it.dict_comprehension(cond, key, value)
        return {key(*x): value(*x) for x in it if cond(*x)}


def _concatenate(parts):
    return [x for p in parts for x in p]


NESTED = [_concatenate]  # how the results of the inner loops of a nested comprehension are joined

VF = ["__vf__"]


def _call(name, *args):
    return ast.Call(ast.Attribute(ast.Name(VF[0], ast.Load()), name, ast.Load()), list(args), [])


def _locals():
    return ast.Call(ast.Name("locals", ast.Load()), [], [])


class Cutter(ast.NodeTransformer):
    def __init__(self, contracts, generators=False):
        self.contracts = contracts
        self.count = -1
        self.seen = set()
        self.generators = generators

    def visit_FunctionDef(self, n):
        return self.generic_visit(n)

    def visit_ListComp(self, n):
        if len(n.generators) == 2 and not n.generators[0].is_async:  # [e for a in A if p for b in B if q]: join the inner lists
            inner = ast.copy_location(ast.ListComp(n.elt, n.generators[1:]), n)
            outer = ast.copy_location(ast.ListComp(inner, n.generators[:1]), n)
            new = _call("nested", self.visit(outer))
            ast.copy_location(new, n)
            return ast.fix_missing_locations(new)
        n = self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async or not isinstance(n.generators[0].target, ast.Name) \
                or any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.Await)) for w in ast.walk(n)):
            return n
        g = n.generators[0]

        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
        test = ast.Constant(True) if not g.ifs else g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        new = _call("listcomp", g.iter, lam(test), lam(n.elt))
        ast.copy_location(new, n)
        return ast.fix_missing_locations(new)

    def visit_GeneratorExp(self, n):
        n = self.generic_visit(n)
        g = n.generators[0]
        if not self.generators or len(n.generators) != 1 or g.is_async or any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.Await)) for w in ast.walk(n)):
            return n

        def lam(body):  # the target is bound as by an assignment: a function of one item
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            names = [e.id for e in g.target.elts]
            inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
            return ast.Lambda(ast.arguments([], [ast.arg("__item")], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name("__item", ast.Load()), ast.Load())], []))
        if not isinstance(g.target, ast.Name) and not (isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts)
                                                       and len({e.id for e in g.target.elts}) == len(g.target.elts)):
            return n
        test = ast.Constant(True) if not g.ifs else g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        new = _call("genexp", g.iter, lam(test), lam(n.elt))
        ast.copy_location(new, n)
        return ast.fix_missing_locations(new)

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) != 1 or g.is_async or not (isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts)) \
                or any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.Await)) for w in ast.walk(n)):
            return n

        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), body)
        test = ast.Constant(True) if not g.ifs else g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        new = _call("dictcomp", g.iter, lam(test), lam(n.key), lam(n.value))
        ast.copy_location(new, n)
        return ast.fix_missing_locations(new)

    def _loop(self, n):
        self.count += 1
        k = self.count
        c = self.contracts.get(k)
        n = self.generic_visit(n)
        if c is None:
            return n
        self.seen.add(k)
        names = assigned(n.body) | (assigned([n.target]) if isinstance(n, ast.For) else set())
        if not isinstance(c, Memoryless) or True:
            roots = mutated_roots(n.body)
            if c.mutates is ANY:
                c.roots = roots - _fresh(n.body)
                outer = ()
            else:
                outer = {r for r in roots if r not in c.mutates and r not in _fresh(n.body)}
            if outer:
                raise Unsupported(f"the loop body may modify {sorted(outer)} in place")
        once = ast.For(ast.Name("__once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), [], [])
        if isinstance(c, Memoryless):
            bad = reads_before_assignment(n.body, names)
            if bad:
                raise Unsupported(f"iterations read {sorted(bad)} of earlier ones")
            if isinstance(n, ast.While):
                once.body = n.body
                once.orelse = [ast.If(n.test, [ast.Expr(_call("cut"))], list(n.orelse) or [ast.Pass()])]
                out = [ast.If(n.test, [once], list(n.orelse))]
            else:
                raise Unsupported("memoryless for loop")
        else:
            key = ast.Constant(k)
            if c.rebinds:  # the contract may replace objects that the body modifies in place
                names = names | {r for r in roots if r in self.local}
            names = sorted(names)
            out = [ast.Expr(_call("enter", key, n.iter if isinstance(n, ast.For) else ast.Constant(None), _locals()))]
            if names:
                out.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                                      _call("havoc", key, _locals(), ast.Tuple([ast.Constant(x) for x in names], ast.Load()))))
            else:
                out.append(ast.Expr(_call("havoc", key, _locals(), ast.Tuple([], ast.Load()))))
            head = [ast.Assign([n.target], _call("item", key, _locals()))] if isinstance(n, ast.For) else []
            once.body = head + n.body
            once.orelse = [ast.Expr(_call("back", key, _locals()))]
            test = _call("more", key, _locals()) if isinstance(n, ast.For) else n.test
            out.append(ast.If(test, [once], [ast.Expr(_call("done", key, _locals()))] + list(n.orelse)))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    visit_For = visit_While = _loop


def _fresh(body):
    """Names that the body binds to newly made objects before it modifies them (assignment of a call or a display)."""
    out = set()
    for s in body:
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.BinOp)):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    out.add(t.id)
    return out


def source_function(fn):
    """AST of the function as it is in the file that runs, with the file's line numbers."""
    lines, start = inspect.getsourcelines(fn)
    tree = ast.parse(textwrap.dedent("".join(lines)))
    ast.increment_lineno(tree, start - 1)
    node = tree.body[0]
    if not isinstance(node, ast.FunctionDef):
        raise Unsupported(f"{fn} is not a plain function")
    return tree, node


def strip(node):
    node.decorator_list = []
    node.returns = None
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        x.annotation = None


def recompile(fn, contracts, transform=None, generators=False):
    fn = inspect.unwrap(fn)
    tree, node = source_function(fn)
    if any(isinstance(w, ast.Name) and w.id == "super" for w in ast.walk(node)):
        raise Unsupported("super() in a function with cut loops")
    strip(node)
    VF[0] = f"__vf_{fn.__qualname__.replace('.', '_')}__"
    c = Cutter(contracts, generators)
    c.local = assigned(node.body)
    body = []
    for s in node.body:
        r = c.visit(s)
        body += r if isinstance(r, list) else [r]
    node.body = body
    if c.seen != set(contracts):
        raise Unsupported(f"the function has no loops {set(contracts) - c.seen}")
    if transform is not None:
        tree = transform(tree)
    ast.fix_missing_locations(tree)
    ns = {}
    exec(compile(tree, fn.__code__.co_filename, "exec"), fn.__globals__, ns)
    new = ns[node.name]
    new.__vf_runtime__ = Runtime(contracts)
    new.__vf_name__ = VF[0]
    return new


@contextlib.contextmanager
def cut(owner, name, contracts, transform=None, generators=False):
    """Replace a function of a module or class of /repo by itself with loops cut."""
    raw = owner.__dict__[name]
    fn = raw.__func__ if isinstance(raw, (staticmethod, classmethod)) else raw.fget if isinstance(raw, property) else raw
    new = recompile(fn, contracts, transform, generators)
    mod = sys.modules[fn.__module__]
    setattr(mod, new.__vf_name__, new.__vf_runtime__)
    wrapped = type(raw)(new) if isinstance(raw, (staticmethod, classmethod, property)) else new
    setattr(owner, name, wrapped)
    try:
        yield new
    finally:
        setattr(owner, name, raw)
        delattr(mod, new.__vf_name__)
