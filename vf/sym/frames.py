"""Frame contracts ("assigns nothing") for all functions of /repo, checked function by function on their source.

Every expression has an abstract value (top, inner): the caller's objects that it may be (or be a view of), and those
that objects contained in it may be. A caller is checked against the summaries of its callees: which parameters they
modify, and which parameters their results share memory with; the summaries are the least fixed point of the same rules.
An origin is definite if the value is such an object on every path.
"""
from __future__ import annotations

import ast
import pathlib

from .loops import MUTATORS

FRESH_METHODS = {"copy", "astype", "dot", "sum", "tolist", "any", "all", "nonzero", "argsort", "argmax", "argmin", "flatten", "cumsum",
                 "format", "join", "split", "strip", "encode", "lower", "upper", "to_undirected", "null_space", "row_space", "row_reduce",
                 "startswith", "endswith", "replace", "count", "index", "find", "min", "max", "conj", "as_expr", "degree", "subgraph", "union",
                 "intersection", "difference", "isdisjoint", "issuperset", "issubset", "isinstance", "number_of_nodes", "is_integer"}
VIEWS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "diagonal", "get", "__getitem__", "setdefault", "pop", "popitem"}
INNER = {"items", "values", "keys", "nodes", "edges", "neighbors", "successors", "predecessors"}
NP_VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "transpose", "squeeze", "broadcast_to",
            "moveaxis", "swapaxes", "flip", "fliplr", "flipud", "split", "array_split", "hsplit", "vsplit", "diagonal"}
NP_WRITES = {"fill_diagonal": 0, "put": 0, "copyto": 0, "place": 0, "putmask": 0, "put_along_axis": 0, "shuffle": 0}
SHALLOW = {"list", "tuple", "set", "dict", "sorted", "frozenset", "reversed", "iter", "zip", "enumerate", "map", "filter", "chain", "product",
           "combinations", "permutations", "islice", "from_iterable", "starmap", "zip_longest", "pairwise", "repeat", "cycle", "deque", "Counter"}
PICK = {"next", "min", "max", "getattr", "cast", "vars", "super", "reduce", "first"}
FRESH_FUNCS = {"len", "int", "float", "str", "bool", "range", "sum", "abs", "any", "all", "isinstance", "issubclass", "hasattr", "callable", "type",
               "repr", "hash", "print", "round", "divmod", "pow", "ord", "chr", "deepcopy", "array", "open", "id", "format", "slice", "complex"}
IMMUTABLE = {"int", "str", "bool", "float", "None", "complex", "bytes"}
IMMUTABLE_METHODS = {"add": True}


class Val:
    __slots__ = ("top", "inner", "imm", "fields", "new")

    def __init__(self, top=None, inner=None, imm=False, fields=None, new=False):
        self.fields = fields or {}      # attributes whose values are known
        self.new = new                  # another object that shares the memory
        self.top = dict(top or {})      # origin -> definite
        self.inner = dict(inner or {})
        self.imm = imm                  # a number, string, ...: cannot be modified

    def join(self, o):
        def j(a, b):
            return {k: a.get(k, False) and b.get(k, False) for k in a.keys() | b.keys()}
        fields = {k: self.fields[k].join(o.fields[k]) for k in self.fields.keys() & o.fields.keys()}
        return Val(j(self.top, o.top), j(self.inner, o.inner), self.imm and o.imm, fields, self.new and o.new)

    def merge(self, o):
        """Contains both."""
        def u(a, b):
            return {k: a.get(k, False) or b.get(k, False) for k in a.keys() | b.keys()}
        return Val(u(self.top, o.top), u(self.inner, o.inner), self.imm and o.imm)

    def element(self):
        if self.imm:
            return FRESH
        return Val(self.inner, self.inner)

    def container(self):
        """A new object that contains this one."""
        return Val({}, self.merge(Val(self.inner, {})).top)

    def shallow(self):
        return Val({}, self.inner)

    def maybe(self):
        return Val({k: False for k in self.top}, {k: False for k in self.inner}, self.imm)

    def key(self):
        return (tuple(sorted(self.top.items())), tuple(sorted(self.inner.items())), self.imm, self.new,
                tuple(sorted((k, v.key()) for k, v in self.fields.items())))


FRESH = Val()
NUMBER = Val(imm=True)
GRAPH = Val(fields={"[]": Val(fields={"[]": Val()})})  # its dictionaries are its own


class Summary:
    def __init__(self, params):
        self.params = params
        self.mutates = {}   # parameter -> {(line, what): definite}
        self.attrs = {}     # attributes of self that are assigned -> line
        self.result = None  # Val over parameter names
        self.fields = {}    # of a constructor: the attributes that it sets
        self.unknown = set()

    def key(self):
        return (tuple(sorted((p, tuple(sorted(m.items()))) for p, m in self.mutates.items())), tuple(sorted(self.attrs)),
                self.result.key() if self.result else None, tuple(sorted((k, v.key()) for k, v in self.fields.items())))


class Function:
    def __init__(self, module, cls, node, outer=None):
        self.module, self.cls, self.node, self.outer = module, cls, node, outer
        self.name = node.name
        self.qual = ".".join(x for x in (module, cls, node.name) if x)
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.pos + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.deco = {ast.unparse(d).split(".")[-1].split("(")[0] for d in node.decorator_list}
        self.is_method = cls is not None and "staticmethod" not in self.deco
        self.summary = Summary(self.params)


def immutable_annotation(a):
    if a is None:
        return False
    if isinstance(a, ast.Constant):
        return a.value is None
    if isinstance(a, ast.Name):
        return a.id in IMMUTABLE
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return immutable_annotation(a.left) and immutable_annotation(a.right)
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("Literal",):
        return True
    return False


class Analysis:
    def __init__(self, root):
        self.functions, self.by_name, self.classes = [], {}, {}
        self.modules = {}
        self.trusted = set()
        root = pathlib.Path(root)
        for path in sorted(root.rglob("*.py")):
            if "test" in path.name or "__pycache__" in str(path):
                continue
            mod = ".".join(path.relative_to(root.parent).with_suffix("").parts)
            tree = ast.parse(path.read_text())
            self.modules[mod] = tree
            self._collect(mod, None, tree.body)
        for f in self.functions:
            self.by_name.setdefault(f.name, []).append(f)
        for phase in (0, 1):  # the second time with the attributes that constructors set
            for f in self.functions:
                f.summary.mutates, f.summary.attrs, f.summary.result = {}, {}, None
            self._fixpoint()

    def _fixpoint(self):
        for _ in range(12):
            before = [f.summary.key() for f in self.functions]
            for f in self.functions:
                Walker(self, f).run()
            if before == [f.summary.key() for f in self.functions]:
                break

    def _collect(self, mod, cls, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.functions.append(Function(mod, cls, n))
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = (mod, [ast.unparse(b).split(".")[-1].split("[")[0] for b in n.bases], n)
                self._collect(mod, n.name, n.body)
            elif isinstance(n, ast.If):
                self._collect(mod, cls, n.body + n.orelse)

    def method(self, cls, name):
        """The implementations that self.name() may call: that of the class or its bases, and of its subclasses."""
        out = []
        for f in self.by_name.get(name, []):
            if f.cls and (f.cls == cls or self.derives(cls, f.cls) or self.derives(f.cls, cls)):
                out.append(f)
        return out

    def derives(self, a, b, depth=0):
        if a not in self.classes or depth > 10:
            return False
        bases = self.classes[a][1]
        return b in bases or any(self.derives(x, b, depth + 1) for x in bases)


class Walker:
    def __init__(self, analysis, f):
        self.an, self.f = analysis, f
        self.env = {}
        self.sum = f.summary
        self.returns = None

    def run(self):
        f = self.f
        self.env = {}
        for p in f.params:
            if immutable_annotation(f.ann.get(p)):
                self.env[p] = NUMBER
            elif p in (f.vararg, f.kwarg):
                self.env[p] = Val({}, {p: True})  # a new tuple or dictionary, with the caller's objects in it
            else:
                self.env[p] = Val({p: True}, {p: True})
        if f.is_method and f.name in ("__init__", "__new__") and f.pos:
            self.env[f.pos[0]] = Val({"<new>": True}, {})  # under construction
        self.block(f.node.body)
        if self.returns is not None:
            self.sum.result = self.returns
        if f.name == "__init__" and f.pos and f.pos[0] in self.env:
            self.sum.fields = self.env[f.pos[0]].fields
        return self.sum

    # ---------------------------------------------------------------- statements
    def block(self, body):
        """Returns False if the end of the block is not reached."""
        for s in body:
            if self.stmt(s) is False:
                return False
        return True

    def branch(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            if self.block(b) is not False:
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        env = outs[0]
        for o in outs[1:]:
            new = {}
            for k in env.keys() | o.keys():
                if k in env and k in o:
                    new[k] = env[k].join(o[k])
                else:
                    new[k] = (env.get(k) or o.get(k))
            env = new
        self.env = env

    def stmt(self, s):
        if isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value else NUMBER
            self.returns = v if self.returns is None else self.returns.join(v)
            return False
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.expr(s.value)
                self.assign(s.target, NUMBER if immutable_annotation(s.annotation) else v, s.value)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                v = self.env.get(t.id, FRESH)
                if v.imm or self.number(s.value, v):
                    self.env[t.id] = NUMBER if v.imm else v
                else:
                    self.modify(v, s, f"{ast.unparse(t)} {type(s.op).__name__}= ...", aug=True)
                    add = self.expr(s.value)
                    self.env[t.id] = Val(v.top, v.merge(Val(add.inner, add.inner)).inner)
            elif isinstance(t, ast.Attribute):
                self.store_attr(t, s, FRESH)
            else:
                self.modify(self.expr(t.value), s, f"{ast.unparse(t)} changed")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.modify(self.expr(t.value), s, "del")
                elif isinstance(t, ast.Attribute):
                    self.store_attr(t, s, FRESH)
        elif isinstance(s, ast.If):
            self.expr(s.test)
            t = s.test
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and immutable_annotation(t.args[1]):
                saved = self.env.get(t.args[0].id)
                self.env[t.args[0].id] = NUMBER
                start = dict(self.env)
                ends = self.block(s.body)
                first = self.env
                self.env = {**start, t.args[0].id: saved} if saved is not None else start
                if self.block(s.orelse) is False:
                    if ends is False:
                        return False
                    self.env = first
                elif ends is not False:
                    self.env = {k: self.env[k].join(first[k]) if k in first and k in self.env else self.env.get(k) or first.get(k)
                                for k in self.env.keys() | first.keys()}
                return True
            return self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.expr(s.iter)
            else:
                self.expr(s.test)
            for _ in range(3):
                before = {k: v.key() for k, v in self.env.items()}
                if isinstance(s, ast.For):
                    self.assign(s.target, it.element(), None)
                self.branch(s.body, [])
                if before == {k: v.key() for k, v in self.env.items()}:
                    break
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.branch(s.body + s.orelse, *[h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            return self.block(s.body)
        elif isinstance(s, ast.Expr):
            self.expr(s.value)
        elif isinstance(s, (ast.FunctionDef, ast.Lambda)):
            self.nested(s)
        elif isinstance(s, ast.Assert):
            self.expr(s.test)
        elif isinstance(s, ast.Match):
            self.expr(s.subject)
            self.branch(*[c.body for c in s.cases])
        return True

    def nested(self, s):
        """A nested function: its free variables are those of this function; its parameters are its callers' objects."""
        saved, ret = dict(self.env), self.returns
        a = s.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.env[x.arg] = Val({f"<{getattr(s, 'name', 'lambda')}.{x.arg}>": True}, {f"<{getattr(s, 'name', 'lambda')}.{x.arg}>": True})
        if isinstance(s, ast.Lambda):
            self.expr(s.body)
        else:
            self.block(s.body)
        self.env, self.returns = saved, ret
        if hasattr(s, "name"):
            self.env[s.name] = FRESH

    def number(self, value, v):
        return isinstance(value, ast.Constant) and isinstance(value.value, (int, float, str)) and not v.top

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts + value.elts):
                vals = [self.expr(e) for e in value.elts]
                for e, w in zip(t.elts, vals):
                    self.assign(e, w, None)
                return
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    self.assign(e.value, v.shallow(), None)
                else:
                    self.assign(e, v.element(), None)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, t, v)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value)
            self.expr(t.slice)
            self.modify(base, t, f"{ast.unparse(t)[:60]} is assigned")
            self.hold(t.value, v)

    def hold(self, target, v):
        """The object of the expression `target` now contains v."""
        attr, direct = None, True
        while isinstance(target, (ast.Attribute, ast.Subscript)):
            attr = target.attr if isinstance(target, ast.Attribute) else attr
            target = target.value
        if isinstance(target, ast.Name) and target.id in self.env:
            o = self.env[target.id]
            fields = dict(o.fields)
            if attr in fields:
                w = fields[attr]
                fields[attr] = Val(w.top, w.merge(Val({}, v.merge(Val(v.inner, {})).top)).inner, False, w.fields, w.new)
            self.env[target.id] = Val(o.top, o.merge(Val({}, v.merge(Val(v.inner, {})).top)).inner, False, fields, o.new)

    def set_field(self, target, attr, v):
        if isinstance(target, ast.Name) and target.id in self.env:
            o = self.env[target.id]
            self.env[target.id] = Val(o.top, o.inner, o.imm, {**o.fields, attr: v}, o.new)

    def store_attr(self, t, s, v):
        base = self.expr(t.value)
        for o, d in base.top.items():
            if o == "<new>" and isinstance(t.value, ast.Name):
                self.hold(t.value, v)
                self.set_field(t.value, t.attr, v)
                return
        if isinstance(t.value, ast.Name) and self.f.is_method and self.f.pos and t.value.id == self.f.pos[0] and base.top.get(self.f.pos[0]):
            self.sum.attrs.setdefault(t.attr, s.lineno)
            return
        if not base.new:
            self.modify(base, s, f"attribute {t.attr} is assigned")
        self.hold(t.value, v)
        self.set_field(t.value, t.attr, v)

    def modify(self, v, node, what, aug=False):
        for o, d in v.top.items():
            if o.startswith("<"):
                continue
            m = self.sum.mutates.setdefault(o, {})
            k = (node.lineno, what)
            m[k] = d and not aug if k not in m else (m[k] and d and not aug)

    # ---------------------------------------------------------------- expressions
    def expr(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c)
        return FRESH

    def e_Name(self, e):
        return self.env.get(e.id, FRESH)

    def e_Constant(self, e):
        return NUMBER

    def e_JoinedStr(self, e):
        return NUMBER

    def e_Compare(self, e):
        self.expr(e.left)
        for c in e.comparators:
            self.expr(c)
        return FRESH

    def e_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        if a.imm and b.imm:
            return NUMBER
        return Val({}, a.merge(b).inner if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) else {})

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        return NUMBER if v.imm else FRESH

    def e_BoolOp(self, e):
        vs = [self.expr(v) for v in e.values]
        out = vs[0]
        for v in vs[1:]:
            out = out.join(v)
        return out

    def e_IfExp(self, e):
        self.expr(e.test)
        return self.expr(e.body).join(self.expr(e.orelse))

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.env[e.target.id] = v
        return v

    def e_Attribute(self, e):
        v = self.expr(e.value)
        if e.attr in ("shape", "size", "ndim", "order", "dtype", "name", "characteristic", "degree"):
            return NUMBER if e.attr not in ("order",) else FRESH
        if e.attr in v.fields:
            return v.fields[e.attr]
        if e.attr == "T":
            return Val(v.top, v.inner, new=True)
        props = [f for f in self.an.by_name.get(e.attr, []) if f.deco & {"property", "cached_property"}]
        own = [f for f in props if self.f.cls and isinstance(e.value, ast.Name) and self.f.pos and e.value.id == self.f.pos[0] and f in self.an.method(self.f.cls, e.attr)]
        if self.f.cls and self.f.is_method and isinstance(e.value, ast.Name) and self.f.pos and e.value.id == self.f.pos[0]:
            props = own
        if props:
            return self.apply_all(props, [v], {}, e)
        return v.element()

    def e_Subscript(self, e):
        v = self.expr(e.value)
        self.expr(e.slice)
        if v.imm:
            return NUMBER
        if "[]" in v.fields:
            return Val({}, v.inner, False, v.fields["[]"].fields)
        if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple):
            return v.join(v.element()) if v.top != v.inner else Val(v.top, v.inner)
        return v.element()

    def e_Starred(self, e):
        return self.expr(e.value).element()

    def _display(self, elts):
        out = FRESH
        for x in elts:
            out = out.merge(self.expr(x).container())
        return Val({}, out.inner)

    def e_Tuple(self, e):
        return self._display(e.elts)

    e_List = e_Set = e_Tuple

    def e_Dict(self, e):
        return self._display([x for x in e.keys if x] + e.values)

    def _comp(self, e):
        saved = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.expr(g.iter).element(), None)
            for c in g.ifs:
                self.expr(c)
        if isinstance(e, ast.DictComp):
            v = self.expr(e.key).container().merge(self.expr(e.value).container())
        else:
            v = self.expr(e.elt).container()
        walrus = {w.target.id for w in ast.walk(e) if isinstance(w, ast.NamedExpr)}
        self.env = {**saved, **{k: self.env[k] for k in walrus if k in self.env}}
        return v

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = _comp

    def e_Lambda(self, e):
        self.nested(e)
        return FRESH

    def e_Yield(self, e):
        if e.value:
            v = self.expr(e.value).container()
            self.returns = v if self.returns is None else self.returns.merge(v)
        return FRESH

    def e_YieldFrom(self, e):
        v = self.expr(e.value).shallow()
        self.returns = v if self.returns is None else self.returns.merge(v)
        return FRESH

    def e_Call(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.expr(a.value)))
            else:
                args.append(("", self.expr(a)))
        kws = {}
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg == "out":
                self.modify(v, e, "written as out=")
                return v
            kws[k.arg] = v
        allv = FRESH
        for s, v in args:
            allv = allv.merge(v.element() if s else v)
        for v in kws.values():
            allv = allv.merge(v)
        fn = e.func
        vals = [v for s, v in args if not s]
        starred = any(s for s, _ in args)
        if isinstance(fn, ast.Name):
            name = fn.id
            if name in self.env and name not in self.an.classes:
                return Val({}, {k: False for k in allv.merge(self.env[name]).inner}) if name in self.f.params else FRESH
            if name in SHALLOW:
                return Val({}, allv.merge(Val()).inner)
            if name in ("map", "filter"):
                return allv.shallow()
            if name in PICK:
                return allv.element().join(allv) if name in ("min", "max") and len(vals) > 1 else allv.element()
            if name in ("setattr", "delattr"):
                if vals:
                    self.modify(vals[0], e, name)
                return FRESH
            if name in FRESH_FUNCS:
                return NUMBER if name in ("len", "int", "float", "str", "bool", "abs", "hash", "ord", "round", "repr") else FRESH
            if name in self.an.classes:
                return self.construct(name, args, kws, allv, e)
            cands = [f for f in self.an.by_name.get(name, []) if f.cls is None]
            if cands:
                return self.apply_all(cands, [v for s, v in args] if not starred else None, kws, e, allv)
            self.an.trusted.add(name)
            return FRESH
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            root = ast.unparse(fn.value)
            rootname = root.split(".")[0].split("(")[0]
            external = isinstance(fn.value, (ast.Name, ast.Attribute)) and rootname not in self.env and rootname not in ("cls",)
            if external:
                if rootname in ("np", "numpy", "scipy", "galois", "itertools", "functools", "collections", "random", "copy", "sympy", "nx", "math",
                                "operator", "stim", "ast", "re", "os", "cvxpy", "ldpc", "pymatching", "warnings", "diskcache", "requests", "urllib",
                                "platformdirs", "subprocess", "numba", "abc", "typing", "sys", "time", "json", "hashlib"):
                    if name in NP_WRITES and vals:
                        self.modify(vals[NP_WRITES[name]], e, f"{root}.{name}")
                        return FRESH
                    if root == "copy" and name == "copy":
                        return allv.shallow()
                    if rootname in ("np", "numpy") and name in NP_VIEWS:
                        v = vals[0] if vals else FRESH
                        return Val(v.top, v.inner)
                    if rootname in ("itertools", "collections", "functools") and (name in SHALLOW):
                        return Val({}, allv.inner)
                    if name in ("reduce",):
                        return Val({}, {}).join(allv.element())
                    self.an.trusted.add(f"{root}.{name}")
                    return GRAPH if rootname == "nx" and name in ("Graph", "DiGraph") and not e.args else FRESH
                if name in self.an.classes:
                    return self.construct(name, args, kws, allv, e)
                if rootname in self.an.classes:
                    cands = [f for f in self.an.method(root.split(".")[-1], name)] or self.an.by_name.get(name, [])
                    cands = [f for f in cands if f.cls]
                    if cands:
                        if name in ("__init__", "__new__"):
                            if vals and not starred:
                                self.hold(e.args[0], allv)
                            return Val({}, allv.inner)
                        vs = [v for s, v in args] if not starred else None
                        if any(f.deco & {"classmethod"} for f in cands) and vs is not None:
                            vs = [FRESH] + vs
                        return self.apply_all(cands, vs, kws, e, allv)
                cands = [f for f in self.an.by_name.get(name, []) if f.cls is None or "staticmethod" in f.deco]
                if cands:
                    return self.apply_all(cands, [v for s, v in args] if not starred else None, kws, e, allv)
                self.an.trusted.add(f"{root}.{name}")
                return FRESH
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                base = self.env.get(self.f.pos[0], FRESH) if self.f.pos else FRESH
                if name in ("__init__", "__new__"):
                    if self.f.pos and self.f.pos[0] in self.env:
                        self.hold(ast.Name(self.f.pos[0]), allv)
                    return Val({}, allv.inner)
                cands = [f for f in self.an.by_name.get(name, []) if f.cls and f.cls != self.f.cls and self.an.derives(self.f.cls, f.cls)]
                return self.apply_all(cands, [base] + [v for s, v in args] if not starred else None, kws, e, allv)
            base = self.expr(fn.value)
            mine = self.f.cls and isinstance(fn.value, ast.Name) and self.f.pos and fn.value.id == self.f.pos[0] and self.f.is_method
            cands = self.an.method(self.f.cls, name) if mine else []
            if not cands and name not in FRESH_METHODS and name not in VIEWS and name not in MUTATORS and name not in INNER:
                cands = [f for f in self.an.by_name.get(name, []) if f.cls]
            if cands and all(f.deco & {"property", "cached_property"} for f in cands):
                return FRESH  # a call of the value of an attribute, such as a field: converts, copies
            if name == "copy" and not base.imm and not (mine and cands):
                return Val({}, {}) if not mine else FRESH
            if cands:
                static = [f for f in cands if "staticmethod" in f.deco]
                vs = [v for s, v in args] if not starred else None
                out = None
                rest = [f for f in cands if "staticmethod" not in f.deco]
                if static:
                    out = self.apply_all(static, vs, kws, e, allv)
                if rest:
                    r = self.apply_all(rest, None if vs is None else [base] + vs, kws, e, allv.merge(base))
                    out = r if out is None else out.join(r)
                return out
            if name in MUTATORS:
                self.modify(base, e, f".{name}()")
                if name in ("add_edge", "add_node", "add_edges_from", "add_nodes_from"):  # nodes are immutable
                    return FRESH
                self.hold(fn.value, allv.merge(allv.container()))
                return base.element() if name in ("pop", "popitem", "setdefault") else FRESH
            if name in FRESH_METHODS:
                return FRESH
            if name in VIEWS:
                return base.element() if name in ("get", "__getitem__", "pop", "setdefault") else Val(base.top, base.inner, new=name == "view")
            if name in INNER:
                return base.shallow()
            self.an.trusted.add(f"(method) {name}")
            return FRESH
        self.expr(fn)
        return FRESH

    def construct(self, name, args, kws, allv, e):
        self.called(self.an.method(name, "__init__") + self.an.method(name, "__new__"), args, kws, e)
        fields = {}
        own = [f for f in self.an.by_name.get("__init__", []) if f.cls == name]
        if len(own) == 1 and not any(s for s, _ in args):
            bind = dict(zip(own[0].pos, [FRESH] + [v for s, v in args]))
            bind.update({k: v for k, v in kws.items() if k})
            for a, w in own[0].summary.fields.items():
                if not w.top and not w.inner:
                    fields[a] = w
        return Val({}, allv.merge(Val(allv.inner, {})).merge(Val(allv.top, allv.top)).inner, False, fields)

    def called(self, cands, args, kws, e):
        if any(s for s, _ in args):
            return
        cands = [f for f in cands]
        if cands:
            self.apply_all(cands[:6], [FRESH] + [v for s, v in args], kws, e)

    def apply_all(self, cands, vals, kws, e, allv=FRESH):
        out = None
        many = len(cands) > 1
        for f in cands:
            bind = {}
            if vals is not None:
                for p, v in zip(f.pos, vals):
                    bind[p] = v
                extra = vals[len(f.pos):]
                if f.vararg:
                    x = FRESH
                    for v in extra:
                        x = x.merge(v.container())
                    bind[f.vararg] = Val({}, x.inner)
            else:
                for p in f.pos + ([f.vararg] if f.vararg else []):
                    bind[p] = allv.maybe()
            for k, v in kws.items():
                if k in f.pos + f.kwonly:
                    bind[k] = v
                elif k is None:
                    for p in f.kwonly:
                        bind.setdefault(p, v.element().maybe())
                elif f.kwarg:
                    bind[f.kwarg] = bind.get(f.kwarg, FRESH).merge(v.container())
            for p, sites in [(p, dict(m)) for p, m in f.summary.mutates.items()]:
                v = bind.get(p)
                if v is not None and not v.imm:
                    src = v if p not in (f.vararg, f.kwarg) else Val(v.inner, v.inner)
                    for (line, what), d in sites.items():
                        self.modify(src if d and not many else src.maybe(), e, f"{f.name}() modifies its argument {p}")
            r = f.summary.result
            if r is None:
                got = FRESH
            else:
                top, inner = {}, {}
                for src, dst in ((r.top, top), (r.inner, inner)):
                    for o, d in src.items():
                        v = bind.get(o)
                        if v is None or v.imm:
                            continue
                        for k, dd in (v.top if src is r.top else {**v.inner, **v.top}).items():
                            dst[k] = dst.get(k, False) or (d and dd and not many)
                got = Val(top, inner, r.imm, {k: w for k, w in r.fields.items() if not w.top and not w.inner})
            out = got if out is None else out.join(got)
        return out or FRESH
