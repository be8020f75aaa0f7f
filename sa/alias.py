"""May-alias and effect analysis over the syntax tree: which writes can reach an object a caller passed in, a module-level
table or a cached result, and which of those a function hands out.

Flow-sensitive inside a function (strong updates of names), summaries per function, fixed point over the call graph.
An origin is a tuple: ("param", function, name, depth) - the argument itself (0) or what it holds (1), ("global", name),
("cache", function).  Values with no origins are new objects or not known: only positive information leads to reports."""
from __future__ import annotations
import ast
from . import flow
from .loader import dotted as _dotted


def dotted(n):
    """a.b.c, without calls in it"""
    x = n
    while isinstance(x, ast.Attribute):
        x = x.value
    return _dotted(n) if isinstance(x, ast.Name) else None


NONE = frozenset()
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "discard", "add", "fill", "resize", "setflags", "put", "itemset", "partition", "byteswap", "__setitem__",
            "__iadd__", "__imul__", "__delitem__", "appendleft", "popleft", "extendleft", "rotate"}
INSERTERS = {"append", "extend", "insert", "update", "setdefault", "add", "__setitem__", "appendleft"}
VIEWM = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "__array__"}
VIEWA = {"T", "real", "imag", "flat", "mT", "base"}
VIEWF = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asfarray", "require", "reshape", "ravel", "squeeze",
         "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "diagonal",
         "broadcast_to", "flip", "flipud", "fliplr", "rot90", "real", "imag", "matrix_transpose", "permute_dims"}
SPLITF = {"split", "array_split", "hsplit", "vsplit", "broadcast_arrays"}
SCALARA = {"shape", "ndim", "dtype", "size", "itemsize", "nbytes", "strides", "flags", "__name__", "__class__", "dim", "char"}
SCALARF = {"len", "int", "float", "complex", "bool", "str", "repr", "abs", "round", "isinstance", "issubclass", "hasattr", "hash",
           "id", "ord", "chr", "any", "all", "type", "divmod", "pow", "callable", "print", "format", "sum"}
FRESHM = {"copy", "astype", "flatten", "tolist", "sum", "dot", "max", "min", "mean", "conj", "conjugate", "prod", "cumsum", "cumprod",
          "argsort", "argmax", "argmin", "nonzero", "round", "clip", "all", "any", "std", "var", "trace", "repeat", "take", "item",
          "searchsorted", "compress", "choose", "format", "join", "split", "strip", "startswith", "endswith", "lower", "upper",
          "replace", "index", "count", "keys", "ptp", "random", "uniform", "normal", "standard_normal", "integers", "ljust"}
SCALAR_ANN = {"int", "float", "bool", "str", "complex", "None", "np.floating", "np.integer", "Real", "Number", "bytes", "object",
              "np.random.Generator", "type"}


class Val:
    __slots__ = ("self_", "inner", "kind", "items", "elem", "fns", "frozen")

    def __init__(self, self_=NONE, inner=NONE, kind="?", items=None, elem=None, fns=(), frozen=False):
        self.self_, self.inner, self.kind, self.items, self.elem, self.fns = self_, inner, kind, items, elem, tuple(fns)
        self.frozen = frozen

    def all(self):
        return self.self_ | self.inner

    def key(self):
        return (self.self_, self.inner, self.kind, tuple(i.key() for i in self.items) if self.items is not None else None,
                self.elem.key() if self.elem else None, tuple(f.qual for f in self.fns), self.frozen)


FRESH = Val()
SCALAR = Val(kind="scalar")
ARRAY = Val(kind="array")


def depth_of(v, n=0):
    if n > 6:
        return n
    return max([depth_of(x, n + 1) for x in (v.items or ())] + ([depth_of(v.elem, n + 1)] if v.elem else []) + [n])


def container(kind, items=None, elem=None):
    inner = NONE
    for v in (items or ()):
        inner |= v.all()
    if elem is not None:
        inner |= elem.all()
    r = Val(NONE, inner, kind, list(items) if items is not None else None, elem)
    if depth_of(r) > 4:
        r = Val(NONE, inner, kind)
    return r


def join(a, b):
    if a is None or a is b:
        return b
    if b is None:
        return a
    if a.kind == "none" != b.kind:                   # None holds nothing and cannot be written to
        return b
    if b.kind == "none" != a.kind:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    elem = None
    if items is None and a.kind == b.kind in ("list", "tuple", "iter", "dict"):
        elem = join(a.elem or (joins(a.items) if a.items else None), b.elem or (joins(b.items) if b.items else None))
    kind = a.kind if a.kind == b.kind else "scalar?" if "scalar" in (a.kind, b.kind) or "scalar?" in (a.kind, b.kind) else "?"
    r = Val(a.self_ | b.self_, a.inner | b.inner, kind, items, elem,
            a.fns + tuple(f for f in b.fns if f not in a.fns), a.frozen and b.frozen)
    if depth_of(r) > 4:
        r = Val(r.self_, r.inner, r.kind, fns=r.fns)
    return r


def joins(vs):
    r = None
    for v in vs:
        r = join(r, v)
    return r or FRESH


def element(v):
    """what iterating over v yields"""
    if v.kind == "range":
        return SCALAR
    if v.elem is not None:
        return v.elem
    if v.items:
        return joins(v.items)
    if v.kind in ("list", "tuple", "dict", "iter"):
        return Val(v.inner, v.inner)
    if v.kind == "scalar":
        return SCALAR
    if v.kind == "array":
        return Val(v.self_, v.inner, "array")
    return Val(v.all(), v.inner)


class Summary:
    def __init__(self):
        self.writes = {}              # origin -> (where, what)
        self.ret = None
        self.stores = None            # constructors: what the new object holds

    def key(self):
        return (frozenset(self.writes), self.ret.key() if self.ret else None, self.stores.key() if self.stores else None)


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.fns = flow.all_functions(prog)
        self.bynode = {id(f.node): f for f in self.fns.values()}
        self.disp = prog.dispatch_table()
        self.methods = {}
        for f in self.fns.values():
            if f.cls is not None and f.parent is None:
                self.methods.setdefault(f.node.name, []).append(f)
        self.sums = {q: Summary() for q in self.fns}
        self.captured = {q: {} for q in self.fns}
        self.sites = 0
        self.globals, self.gnodes, self.kept, self.empty = {}, {}, {}, set()
        before = None
        for _ in range(8):
            self.sites = 0
            for q, f in self.fns.items():
                self.sums[q] = Func(self, f).run()
            now = ({q: (s.key(), {n: v.key() for n, v in self.captured[q].items()}) for q, s in self.sums.items()},
                   {q: v.key() for q, v in self.kept.items()})
            if before == now:
                break
            before = now

    def cached(self, f):
        return any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in ("lru_cache", "cache", "memoize")
                   for d in getattr(f.node, "decorator_list", ()))

    def constant_key(self, origins, key):
        """the entries named key of these tables are all numbers or strings"""
        qs = [o[1] for o in origins if o[0] == "global"]
        if not qs or len(qs) != len(origins):
            return False
        for q in qs:
            node = self.gnodes.get(q)
            if node is None:
                return False
            vals = [v for d in ast.walk(node) if isinstance(d, ast.Dict) for k, v in zip(d.keys, d.values)
                    if isinstance(k, ast.Constant) and k.value == key or isinstance(k, ast.Name) and self.names(q, k.id) == key]
            if not vals or not all(isinstance(v, ast.Constant) or isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant) for v in vals):
                return False
        return True

    def holds_arrays(self, q):
        c = self.prog.classes.get(q)
        for k in (self.prog.mro(c) if c is not None else []):
            if isinstance(k, str):
                continue
            for n in ast.walk(k.node):
                if isinstance(n, ast.AnnAssign) and (isinstance(n.target, ast.Name) or isinstance(n.target, ast.Attribute)) and \
                        ast.unparse(n.annotation).startswith(("ArrayF", "np.ndarray", "NDArray", "onp.")) and \
                        (isinstance(n.target, ast.Attribute) or n in k.node.body):
                    return True
        return False

    def names(self, q, n):
        r = self.prog.lookup(q.rsplit(".", 1)[0], n)
        return r[2].value if r and r[0] == "const" and isinstance(r[2], ast.Constant) else None

    def class_called(self, module, v):
        d = dotted(v.func) if isinstance(v, ast.Call) else None
        r = self.prog.resolve_dotted(self.prog.mod(module), d) if d else None
        return r[1].qual if r and r[0] == "class" else None

    def global_val(self, q, node):
        """a module-level name: its table, if it is something that can be written to"""
        r = self.globals.get(q)
        if r is None:
            self.gnodes[q] = node
            o = frozenset([("global", q)])
            x = node
            if is_empty(x):
                kept = self.kept.get(q)
                self.empty.add(q)
                return container("dict" if not isinstance(x, ast.List) else "list", elem=kept) if kept is not None else \
                    Val(kind="dict" if not isinstance(x, ast.List) else "list")
            if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("MappingProxyType", "frozenset", "TypeVar", "namedtuple"):
                r = FRESH
            elif isinstance(x, (ast.List, ast.ListComp)):
                r = Val(o, o, "list")
            elif isinstance(x, (ast.Dict, ast.DictComp)):
                vals = x.values if isinstance(x, ast.Dict) else [x.value]
                r = Val(o, o if any(mutable(v) for v in vals) else NONE, "dict")
                cs = {self.class_called(q.rsplit(".", 1)[0], v) for v in vals}
                if len(cs) == 1 and None not in cs:
                    r = Val(o, NONE, "dict", elem=Val(NONE, o, "obj:" + cs.pop()))
            elif isinstance(x, ast.Tuple):
                r = Val(NONE, o if any(mutable(v) for v in x.elts) else NONE, "tuple")
            elif isinstance(x, ast.Call):
                n = dotted(x.func) or ""
                if n.split(".")[0] in ("np", "numpy") and n.split(".")[-1] not in ("float64", "dtype", "finfo"):
                    r = Val(o, NONE, "array")
                elif n.split(".")[-1][:1].islower() and n.split(".")[-1] not in ("float", "int", "sqrt", "tuple", "compile", "version", "search", "partial"):
                    r = Val(o, o)
                else:
                    r = Val(NONE, NONE)
            else:
                r = FRESH
            self.globals[q] = r
        return r


def is_empty(x):
    return isinstance(x, (ast.List, ast.Dict)) and not (x.elts if isinstance(x, ast.List) else x.keys) or \
        isinstance(x, ast.Call) and not x.args and not x.keywords and (dotted(x.func) or "").split(".")[-1] in (
            "dict", "list", "WeakKeyDictionary", "WeakValueDictionary", "OrderedDict") or \
        isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "defaultdict"


def mutable(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(n, ast.Call) and (
        (dotted(n.func) or "").split(".")[0] in ("np", "numpy")) or isinstance(n, ast.Tuple) and any(mutable(x) for x in n.elts) or \
        isinstance(n, ast.BinOp) and (mutable(n.left) or mutable(n.right))


def annotated(n, o0, o1):
    """what an argument annotated like this may be"""
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        a, b = annotated(n.left, o0, o1), annotated(n.right, o0, o1)
        return a if b.kind == "none" else b if a.kind == "none" else a if a.kind == b.kind and not a.elem and not b.elem else \
            Val(a.self_ | b.self_, a.inner | b.inner)
    t = ast.unparse(n)
    if t == "None":
        return Val(kind="none")
    if t in SCALAR_ANN or t.startswith(("Literal", "np.float", "np.int")):
        return SCALAR
    if t.startswith("Callable"):
        return Val(NONE, o1, "func")
    if t.startswith(("ArrayF", "np.ndarray", "NDArray", "onp.Array")):
        return Val(o0, NONE, "array")
    head = t.split("[")[0].split(".")[-1]
    if isinstance(n, ast.Subscript):
        xs = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        xs = [x for x in xs if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
        e = joins([annotated(x, o1, o1) for x in (xs[1:] if head in ("dict", "Mapping", "MutableMapping") else xs)])
        if depth_of(e) > 2:
            e = Val(e.self_, e.inner, e.kind)
    else:
        e = None
    if head in ("Sequence", "list", "Iterable", "Collection", "MutableSequence"):
        return Val(o0, e.all() if e else o1, "list", None, e)
    if head in ("tuple", "Tuple"):
        return Val(NONE, e.all() if e else o1, "tuple", None, e)
    if head in ("dict", "Mapping", "MutableMapping"):
        return Val(o0, e.all() if e else o1, "dict", None, e)
    return Val(o0, o1)


class Func:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.out = Summary()
        self.rets = []
        self.stores = NONE
        self.closures = []
        self.frozen = set()
        self.is_init = f.node.__class__ is not ast.Lambda and f.cls is not None and f.node.name in ("__init__", "__post_init__", "__new__")

    # {{{ entry

    def run(self):
        f, an = self.f, self.an
        env = {}
        a = f.node.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for i, x in enumerate(allargs):
            env[x.arg] = self.param(x)
            d = defaults.get(x.arg)
            if d is not None and mutable(d):
                env[x.arg] = join(env[x.arg], Val(frozenset([("global", f"default of {x.arg} in {f.qual}")])))
        if a.vararg:
            o1 = frozenset([("param", f.qual, a.vararg.arg, 1)])
            env[a.vararg.arg] = Val(NONE, o1, "tuple")
        if a.kwarg:
            o1 = frozenset([("param", f.qual, a.kwarg.arg, 1)])
            env[a.kwarg.arg] = Val(NONE, o1, "dict")
        if isinstance(f.node, ast.Lambda):
            self.rets.append(self.ev(f.node.body, env))
        else:
            self.block(f.node.body, env)
        self.out.ret = joins(self.rets) if self.rets else Val(kind="none")
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in flow.own_nodes(f.node)):
            self.out.ret = container("iter", elem=joins(self.yields) if getattr(self, "yields", None) else FRESH)
        if self.is_init:
            self.out.stores = Val(NONE, self.stores, "obj")
        if an.cached(f):
            r = self.out.ret
            ann = ast.unparse(f.node.returns) if getattr(f.node, "returns", None) is not None else ""
            if r.kind == "?" and not r.frozen and ann.startswith(("ArrayF", "np.ndarray", "NDArray", "onp.", "ArrayLike")):
                r = Val(r.self_, r.inner, "array")
            elif r.kind == "?" and ann:
                c = flow.resolve(an.prog, f, ann)
                if c is not None and c[0] == "class":
                    r = Val(r.self_, r.inner, "obj:" + c[1].qual)
            self.out.ret = self.mark_cached(r, frozenset([("cache", f.qual)]))
        return self.out

    def mark_cached(self, v, o):
        """a value that is kept: what it offers to be written to"""
        if v.frozen or v.kind in ("scalar", "none", "range", "func"):
            return v
        if v.kind == "tuple" and v.items is not None:
            return container("tuple", [self.mark_cached(x, o) for x in v.items])
        if v.kind == "tuple" and v.elem is not None:
            return container("tuple", elem=self.mark_cached(v.elem, o))
        if v.kind in ("array", "list", "dict"):
            return Val(v.self_ | o, v.inner, v.kind, v.items, v.elem)
        if v.kind.startswith("obj:") and self.an.holds_arrays(v.kind[4:]):
            return Val(v.self_, v.inner | o, v.kind)
        return v

    def param(self, x):
        o0, o1 = frozenset([("param", self.f.qual, x.arg, 0)]), frozenset([("param", self.f.qual, x.arg, 1)])
        ann = ast.unparse(x.annotation) if x.annotation is not None else ""
        if isinstance(x.annotation, ast.Constant) and isinstance(x.annotation.value, str):
            ann = x.annotation.value
        try:
            return annotated(ast.parse(ann, mode="eval").body, o0, o1) if ann else Val(o0, o1)
        except SyntaxError:
            return Val(o0, o1)

    # }}}

    def write(self, v, node, what, inner=False):
        self.an.sites += 1
        for o in (v.self_ | v.inner) if inner else v.self_:
            self.out.writes.setdefault(o, (self.f.where(node), what))

    def set(self, env, name, v):
        env[name] = v
        for q in self.closures:
            c = self.an.captured[q]
            c[name] = join(c.get(name), v)

    def closure(self, g, env):
        """a function defined here sees the names as they are now, and as they become"""
        c = self.an.captured[g.qual]
        first = g.qual not in self.closures
        if first:
            c.clear()
            self.closures.append(g.qual)
        for n, v in env.items():
            c[n] = join(c.get(n), v)

    # {{{ statements

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for n in a.keys() | b.keys():
            out[n] = join(a.get(n), b.get(n))
        return out

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    v = self.keep(t.value, v, s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.augmented(s, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            self.rets.append(self.ev(s.value, env) if s.value is not None else Val(kind="none"))
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.narrow(s.test, a, b)
            return self.merge(self.block(s.body, a), self.block(s.orelse, b))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter, env)
            out = env
            for _ in range(4):
                e = dict(out)
                self.assign(s.target, element(v), e)
                self.loops = getattr(self, "loops", []) + [[]]
                e = self.block(s.body, e)
                ex = self.loops.pop()
                new = out
                for x in [e] + ex:
                    new = self.merge(new, x)
                if self.same(new, out):
                    break
                out = new
            return self.block(s.orelse, out) if s.orelse else out
        elif isinstance(s, ast.While):
            out = env
            for _ in range(4):
                e = dict(out)
                self.ev(s.test, e)
                self.loops = getattr(self, "loops", []) + [[]]
                e = self.block(s.body, e)
                ex = self.loops.pop()
                new = out
                for x in [e] + ex:
                    new = self.merge(new, x)
                if self.same(new, out):
                    break
                out = new
            return out
        elif isinstance(s, (ast.Break, ast.Continue)):
            if getattr(self, "loops", None):
                self.loops[-1].append(dict(env))
            return None
        elif isinstance(s, ast.Try):
            e = self.block(s.body, dict(env))
            out = self.block(s.orelse, e) if e is not None and s.orelse else e
            start = self.merge(dict(env), e)
            for h in s.handlers:
                out = self.merge(out, self.block(h.body, dict(start)))
            return self.block(s.finalbody, out) if s.finalbody and out is not None else out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            return self.block(s.body, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.an.bynode.get(id(s))
            if g:
                self.closure(g, env)
            self.set(env, s.name, Val(kind="func", fns=[g] if g else []))
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                if isinstance(s, ast.ImportFrom):
                    r = self.an.prog.resolve_import(self.f.module.resolve_from(s), x.name)
                    if r is not None and r[0] == "const":
                        self.set(env, x.asname or x.name, self.resolved(r))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, env), t, f"del {ast.unparse(t)}")
        elif isinstance(s, ast.Match):
            self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                out = self.merge(out, self.block(c.body, dict(env)))
            return out
        return env

    def keep(self, expr, v, src, env):
        """a value put into a module-level cache stays there"""
        if not isinstance(expr, ast.Name) or expr.id in env:
            return v
        r = flow.resolve(self.an.prog, self.f, expr)
        if r is None or r[0] != "const" or not is_empty(r[2]):
            return v
        q = f"{r[1].name}.{r[3]}"
        v = self.mark_cached(v, frozenset([("cache", q)]))
        self.an.kept[q] = join(self.an.kept.get(q), v)
        if isinstance(src, ast.Name) and src.id in env:
            self.set(env, src.id, v)
        return v

    def same(self, a, b):
        return a.keys() == b.keys() and all(a[k].key() == b[k].key() for k in a)

    def narrow(self, test, a, b):
        """isinstance(x, int): a scalar; x is None"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, b, a)
        if isinstance(test, ast.Call) and dotted(test.func) == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            names = {ast.unparse(x) for x in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])}
            n = test.args[0].id
            if n in a and names <= SCALAR_ANN | {"Number", "numbers.Number", "np.number"}:
                a[n] = SCALAR
            elif n in a and names <= {"list"}:
                a[n] = Val(a[n].self_, a[n].inner, "list", a[n].items, a[n].elem)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in a and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is):
                a[test.left.id] = Val(kind="none")
            elif isinstance(test.ops[0], ast.IsNot):
                b[test.left.id] = Val(kind="none")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, container("list", elem=element(v)), env)
                elif v.items is not None and not star and len(v.items) == len(t.elts):
                    self.assign(x, v.items[i], env)
                else:
                    self.assign(x, element(v), env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.write(b, t, f"{ast.unparse(t)} = ...")
            if b.kind != "array" and not (isinstance(t.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in t.slice.elts)):
                self.insert(t.value, b, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id in ("self", "cls"):
                self.stores |= v.all()
                return
            if t.attr == "writeable":
                return
            if t.attr == "shape":
                pass
            self.write(b, t, f"{ast.unparse(t)} = ...")
            if b.kind != "array":
                self.insert(t.value, b, v, env)

    def insert(self, expr, b, v, env):
        """an object denoted by expr now also holds v"""
        if isinstance(expr, ast.Name) and expr.id in env:
            old = env[expr.id]
            elem = join(old.elem or (joins(old.items) if old.items else None), v) if old.kind in ("list", "dict") else None
            if elem is None and old.kind in ("list", "dict"):
                elem = v
            n = Val(old.self_, old.inner | v.all(), old.kind, None, elem if not old.self_ else None, old.fns)
            if depth_of(n) > 4:
                n = Val(n.self_, n.inner, n.kind)
            self.set(env, expr.id, n)
        elif isinstance(expr, (ast.Subscript, ast.Attribute)):
            self.insert(expr.value, b, v, env)

    def augmented(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        what = ast.unparse(s)
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()), env)
            if old.kind in ("scalar", "tuple", "none", "range"):
                self.set(env, t.id, FRESH if old.kind != "scalar" or v.kind != "scalar" else SCALAR)
                return
            self.write(old, s, what)
            if old.kind == "scalar?":
                old = Val(old.self_, old.inner, "?")
            if old.kind == "list":
                old = Val(old.self_, old.inner | v.inner, "list", None, join(element(old), element(v)) if old.elem or old.items else None)
            self.set(env, t.id, old)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.write(b, s, what)
            if b.kind in ("list", "dict"):
                self.write(element(b), s, what)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            x = self.attribute(b, t.attr)
            if x.kind != "scalar":
                self.write(x, s, what)
            if not (isinstance(t.value, ast.Name) and t.value.id in ("self", "cls")):
                self.write(b, s, what)

    # }}}

    # {{{ expressions

    def name(self, n, env):
        if n in env:
            return env[n]
        g = below = self.f
        while g is not None:
            if g is not self.f and n in flow.locals_of(g) and n not in g.nested:
                return self.an.captured[below.qual].get(n, FRESH)
            below = g
            if n in g.nested:
                return Val(kind="func", fns=[g.nested[n]])
            if g is self.f and n in flow.locals_of(g):
                return FRESH
            g = g.parent
        return self.resolved(flow.resolve(self.an.prog, self.f, n))

    def resolved(self, r):
        if r is None:
            return FRESH
        if r[0] == "const":
            return self.an.global_val(f"{r[1].name}.{r[3]}" if len(r) > 3 and isinstance(r[3], str) else f"{r[1].name}", r[2] if isinstance(r[2], ast.AST) else r[-1])
        if r[0] == "func":
            f = self.an.bynode.get(id(r[1].node))
            return Val(kind="func", fns=[f] if f else [])
        if r[0] == "nested":
            return Val(kind="func", fns=[r[1]])
        if r[0] in ("class", "ext", "module"):
            return Val(kind="func")
        return FRESH

    def ev(self, n, env):
        if n is None:
            return FRESH
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        r = FRESH
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return r

    def e_Constant(self, n, env):
        return Val(kind="none") if n.value is None else SCALAR

    def e_Name(self, n, env):
        return self.name(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return container("tuple", elem=joins([element(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env) for x in n.elts]))
        return container("tuple", [self.ev(x, env) for x in n.elts])

    def e_List(self, n, env):
        r = self.e_Tuple(n, env)
        return Val(r.self_, r.inner, "list", r.items, r.elem)

    def e_Set(self, n, env):
        return container("list", elem=joins([self.ev(x, env) for x in n.elts]))

    def e_Dict(self, n, env):
        vs = [self.ev(v, env) for v in n.values]
        for k in n.keys:
            if k is not None:
                self.ev(k, env)
        return container("dict", elem=joins(vs) if vs else None)

    def comp(self, n, elt, env, kind):
        env = dict(env)
        for g in n.generators:
            self.assign(g.target, element(self.ev(g.iter, env)), env)
            for c in g.ifs:
                self.ev(c, env)
        return container(kind, elem=self.ev(elt, env))

    def e_ListComp(self, n, env):
        return self.comp(n, n.elt, env, "list")

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, n, env):
        return self.comp(n, n.elt, env, "iter")

    def e_DictComp(self, n, env):
        return self.comp(n, n.value, env, "dict")

    def e_Lambda(self, n, env):
        g = self.an.bynode.get(id(n))
        if g:
            self.closure(g, env)
        return Val(kind="func", fns=[g] if g else [])

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        a, b = dict(env), dict(env)
        self.narrow(n.test, a, b)
        return join(self.ev(n.body, a), self.ev(n.orelse, b))

    def e_BoolOp(self, n, env):
        return joins([self.ev(v, env) for v in n.values])

    def e_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if a.kind == "scalar" and b.kind == "scalar":
            return SCALAR
        for x, y in ((a, b), (b, a)):
            if x.kind in ("list", "tuple") and (isinstance(n.op, ast.Add) and y.kind in ("list", "tuple", "?") or isinstance(n.op, ast.Mult)):
                if y.kind in ("list", "tuple", "?") and isinstance(n.op, ast.Add):
                    return Val(NONE, x.inner | y.inner, x.kind, None, join(element(x), element(y)) if y.kind != "?" else None)
                return Val(NONE, x.inner, x.kind, None, element(x) if x.items is None or x.items else None)
        if a.kind == "list" and b.kind == "list" and isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return container("list", elem=joins([element(a), element(b)]))       # sets
        if "array" in (a.kind, b.kind):
            return ARRAY
        return FRESH

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return SCALAR if v.kind == "scalar" or isinstance(n.op, ast.Not) else ARRAY if v.kind == "array" else FRESH

    def e_Compare(self, n, env):
        for x in [n.left] + n.comparators:
            self.ev(x, env)
        return FRESH

    def e_JoinedStr(self, n, env):
        return SCALAR

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_Await(self, n, env):
        return FRESH

    def e_Yield(self, n, env):
        self.yields = getattr(self, "yields", []) + [self.ev(n.value, env)]
        return FRESH

    def e_YieldFrom(self, n, env):
        self.yields = getattr(self, "yields", []) + [element(self.ev(n.value, env))]
        return FRESH

    def attribute(self, v, a):
        if a in SCALARA:
            return SCALAR
        if a in VIEWA:
            return Val(v.self_, v.inner, v.kind, frozen=v.frozen)
        if v.kind in ("array", "scalar", "func", "list", "tuple", "dict"):
            return FRESH
        return Val(v.inner, v.inner)

    def e_Attribute(self, n, env):
        d = dotted(n)
        if d is not None:
            root = d.split(".")[0]
            if root not in env:
                r = flow.resolve(self.an.prog, self.f, n)
                if r is not None and r[0] != "local":
                    return self.resolved(r)
        return self.attribute(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        i = self.ev(n.slice, env)
        if v.kind == "func":
            return v
        if v.kind == "scalar":
            return SCALAR
        if v.kind in ("list", "tuple", "iter"):
            if isinstance(n.slice, ast.Slice):
                return container(v.kind, elem=element(v)) if not v.self_ or v.items else Val(NONE, v.inner, v.kind)
            if v.items is not None:
                k = n.slice
                if isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.USub) and isinstance(k.operand, ast.Constant) and type(k.operand.value) is int:
                    k = ast.Constant(-k.operand.value)
                if isinstance(k, ast.Constant) and type(k.value) is int and -len(v.items) <= k.value < len(v.items):
                    return v.items[k.value]
            return element(v)
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and self.an.constant_key(v.all(), n.slice.value):
            return SCALAR
        if v.kind == "dict":
            return v.elem or Val(v.inner, v.inner)
        if not self.basic(n.slice, env):
            return Val(NONE, NONE, "array" if v.kind == "array" else "?")
        if v.kind == "array":
            return Val(v.self_, NONE, "array", frozen=v.frozen)
        return Val(v.all(), v.inner)

    def basic(self, s, env):
        """an index that certainly selects a view"""
        if isinstance(s, ast.Tuple):
            return all(self.basic(x, env) for x in s.elts)
        if isinstance(s, ast.Slice) or isinstance(s, ast.Constant):
            return True
        if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            return True
        d = dotted(s) or ""
        if d.split(".")[-1] == "newaxis":
            return True
        v = self.ev(s, env)
        return v.kind == "scalar"

    # {{{ calls

    def subst(self, val, amap):
        """a value of the callee in terms of the caller; amap: (function, parameter) -> Val"""
        def o(s):
            r = set()
            for x in s:
                if x[0] == "param" and (x[1], x[2]) in amap:
                    a = amap[x[1], x[2]]
                    r |= a.self_ if x[3] == 0 else a.inner
                else:
                    r.add(x)
            return frozenset(r)
        if not any(x[0] == "param" for x in val.all()):
            return val
        items = [self.subst(x, amap) for x in val.items] if val.items is not None else None
        return Val(o(val.self_), o(val.inner), val.kind, items, self.subst(val.elem, amap) if val.elem else None, val.fns, val.frozen)

    def bind(self, g, args, kws, first=None):
        """(function, parameter) -> Val for a call"""
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if first is not None:
            vals = [first] + vals
        m = {}
        extra = FRESH
        for i, v in enumerate(vals):
            if i < len(names):
                m[g.qual, names[i]] = v
            else:
                extra = join(extra, v)
        for k, v in kws.items():
            if k is None:
                continue
            m[g.qual, k] = v
        if a.vararg:
            m[g.qual, a.vararg.arg] = container("tuple", elem=extra)
        for x in names + [y.arg for y in a.kwonlyargs]:
            m.setdefault((g.qual, x), FRESH)
        if a.kwarg:
            m[g.qual, a.kwarg.arg] = container("dict", elem=joins(kws.values()) if kws else FRESH)
        return m

    def apply(self, g, args, kws, node, first=None):
        s = self.an.sums.get(g.qual) or Summary()
        amap = self.bind(g, args, kws, first)
        for o, (where, what) in s.writes.items():
            if o[0] == "param" and (o[1], o[2]) in amap:
                a = amap[o[1], o[2]]
                tgt = a.self_ if o[3] == 0 else a.inner
            else:
                tgt = frozenset([o])
            for t in tgt:
                self.out.writes.setdefault(t, (self.f.where(node), f"{ast.unparse(node)[:60]}, which does {what} at {where}"))
        if self.is_init and g.cls is not None and g.node.__class__ is not ast.Lambda and g.node.name == "__init__" and s.stores is not None:
            self.stores |= self.subst(s.stores, amap).inner
        return self.subst(s.ret, amap) if s.ret is not None else FRESH

    def construct(self, cls, args, kws, node):
        obj = Val(NONE, NONE, "obj")
        init = None
        for c in self.an.prog.mro(cls) if hasattr(self.an.prog, "mro") else [cls]:
            for n in ("__init__", "__new__"):
                fs = [f for f in self.methods(n) if f.cls is not None and f.cls.qual == getattr(c, 'qual', None)]
                if fs and init is None:
                    init = fs[0]
        allargs = NONE
        for v in list(args) + list(kws.values()):
            allargs |= v.all()
        if init is not None:
            self.apply(init, args, kws, node, first=obj)
            s = self.an.sums[init.qual]
            if s.stores is not None and init.node.name == "__init__":
                return Val(NONE, self.subst(s.stores, self.bind(init, args, kws, obj)).inner, "obj:" + cls.qual)
        return Val(NONE, allargs, "obj:" + cls.qual)

    def of_class(self, q, m):
        c = self.an.prog.classes.get(q)
        if c is None:
            return self.methods(m)
        for k in self.an.prog.mro(c):
            for h in self.methods(m):
                if h.cls is not None and h.cls.qual == getattr(k, "qual", None):
                    return [h]
        return []

    def methods(self, n):
        return self.an.methods.get(n, [])

    def e_Call(self, n, env):
        f = n.func
        args, spread = [], False
        for a in n.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                v, spread = element(v), True
            args.append(v)
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        for k in n.keywords:
            if k.arg == "out" and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                self.write(kws["out"], n, f"{ast.unparse(n)[:60]}")
            if k.arg in ("overwrite_a", "overwrite_b", "overwrite_x", "inplace") and isinstance(k.value, ast.Constant) and k.value.value is True and args:
                self.write(args[0] if k.arg != "overwrite_b" or len(args) < 2 else args[1], n, f"{ast.unparse(n)[:60]}")
        copyfalse = any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in n.keywords)
        r = None
        d = dotted(f)
        if d is not None and d.split(".")[0] not in env:
            r = flow.resolve(self.an.prog, self.f, f)
        elif d is not None and d.split(".")[0] in env and "." not in d and d in self.f.nested:
            r = ("nested", self.f.nested[d])
        if r is not None and r[0] == "func":
            fns = [self.an.bynode.get(id(r[1].node))] + [self.an.bynode.get(id(h.node)) for h in self.an.disp.get(r[1].qual, {}).values()]
            fns = [g for g in fns if g is not None]
            if fns:
                return joins([self.apply(g, args, kws, n) for g in fns])
            return FRESH
        if r is not None and r[0] == "nested":
            return self.apply(r[1], args, kws, n)
        if r is not None and r[0] == "class":
            return self.construct(r[1], args, kws, n)
        if r is not None and r[0] == "ext":
            return self.external(r[1], n, args, kws, copyfalse)
        if r is None and isinstance(f, ast.Name) and f.id not in env and f.id not in flow.locals_of(self.f):
            return self.external("builtins." + f.id, n, args, kws, copyfalse)
        if isinstance(f, ast.Attribute):
            return self.method(n, f, args, kws, env, copyfalse)
        v = self.ev(f, env)
        if v.fns:
            return joins([self.apply(g, args, kws, n) for g in v.fns])
        origins = {o[0] for o in v.all()}
        if v.kind.startswith("obj:"):
            cands = self.of_class(v.kind[4:], "__call__")
            return joins([self.apply(h, args, kws, n, first=v) for h in cands]) if cands else FRESH
        if origins and origins <= {"global", "cache"}:               # one of our own objects
            cands = self.methods("__call__")
            return joins([self.apply(h, args, kws, n, first=v) for h in cands]) if cands else FRESH
        # an arbitrary callable may hand back what it was given, or what it holds
        s = v.inner
        for a in list(args) + list(kws.values()):
            s |= a.all()
        return Val(s, s)

    def external(self, q, n, args, kws, copyfalse):
        short = q.split(".")[-1]
        x = args[0] if args else joins(kws.values()) if kws else FRESH
        if q.startswith(("numpy.", "scipy.")):
            if short in VIEWF or short == "array" and copyfalse or short in ("nan_to_num",) and copyfalse:
                if short == "nan_to_num":
                    self.write(x, n, ast.unparse(n)[:60])
                if x.kind in ("list", "tuple", "scalar", "range", "dict"):
                    return ARRAY
                return Val(x.self_, NONE if x.kind == "array" else x.inner, "array", frozen=x.frozen)
            if short in SPLITF:
                return container("list", elem=Val(x.self_, NONE, "array"))
            if short in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle") or q.endswith(".at"):
                self.write(x, n, ast.unparse(n)[:60])
                return SCALAR
            if short in ("nditer", "vectorize"):
                return Val(x.all(), x.all())
            return ARRAY
        if q in ("random.shuffle",) or q.startswith("heapq.heap"):
            self.write(x, n, ast.unparse(n)[:60])
            if short in ("heappush", "heappushpop", "heapreplace") and len(args) > 1:
                pass
            return Val(x.inner | (args[1].all() if len(args) > 1 else NONE), x.inner) if short != "heappush" else SCALAR
        if q.startswith("operator.") and short in ("iadd", "imul", "isub", "itruediv", "ipow", "imatmul", "setitem", "delitem"):
            self.write(x, n, ast.unparse(n)[:60])
            return x
        if short in ("cast", "assert_type"):
            return args[1] if len(args) > 1 else x
        if short in ("list", "tuple", "sorted", "set", "frozenset", "reversed", "iter", "deque", "chain", "product", "islice", "cycle"):
            kind = "iter" if short in ("iter", "reversed", "chain", "product", "islice", "cycle") else "tuple" if short == "tuple" else "list"
            if not args:
                return container(kind, [])
            if short == "product":
                return container("iter", elem=container("tuple", elem=joins([element(a) for a in args])))
            if short in ("list", "tuple") and x.items is not None:
                return Val(NONE, x.inner, kind, x.items)
            return container(kind, elem=joins([element(a) for a in (args if short == "chain" else args[:1])]))
        if short == "dict":
            return container("dict", elem=joins([element(element(a)) if a.kind != "dict" else element(a) for a in args] + list(kws.values())))
        if short == "enumerate":
            return container("iter", elem=container("tuple", [SCALAR, element(x)]))
        if short in ("zip", "zip_longest"):
            return container("iter", elem=container("tuple", [element(a) for a in args]) if not any(isinstance(a, ast.Starred) for a in n.args)
                             else container("tuple", elem=joins([element(a) for a in args])))
        if short in ("map", "starmap", "filter"):
            xs = [element(a) for a in args[1:]]
            if short == "filter":
                return container("iter", elem=joins(xs))
            if x.fns:
                return container("iter", elem=joins([self.apply(g, xs, {}, n) for g in x.fns]))
            return container("iter", elem=joins(xs))
        if short in ("min", "max", "next", "reduce"):
            src = args[1:] if short == "reduce" else args
            e = joins([element(a) if len(src) == 1 or short == "reduce" else a for a in src])
            return Val(e.self_, e.inner, e.kind)
        if short in ("range", "wandering_element", "gnitstam"):
            return Val(kind="range")
        if short == "deepcopy":
            return Val(kind=x.kind)
        if short == "copy" or short == "replace":
            s = NONE
            for a in list(args) + list(kws.values()):
                s |= a.inner
            for a in kws.values():
                s |= a.all()
            return Val(NONE, s if x.kind != "array" else NONE, x.kind if short == "copy" else "obj")
        if short == "getattr":
            return Val(x.inner, x.inner)
        if short == "setattr" or short == "__setattr__":
            if not (n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self"):
                self.write(x, n, ast.unparse(n)[:60])
            elif len(args) > 2:
                self.stores |= args[2].all()
            return SCALAR
        if short == "partial":
            return Val(NONE, joins(args).all(), "func", fns=())
        if short in SCALARF:
            return SCALAR if short != "sum" else FRESH
        return FRESH

    def method(self, n, f, args, kws, env, copyfalse):
        m = f.attr
        if isinstance(f.value, ast.Call) and dotted(f.value.func) == "super":
            cls = self.f.cls
            g = self.f
            while cls is None and g.parent is not None:
                g = g.parent
                cls = g.cls
            for c in (self.an.prog.mro(cls)[1:] if cls is not None else []):
                for h in self.methods(m):
                    if h.cls is not None and h.cls.qual == getattr(c, 'qual', None):
                        return self.apply(h, args, kws, n, first=env.get("self", FRESH))
            if m in ("__new__", "__init__"):
                s = NONE
                for a in args + list(kws.values()):
                    s |= a.all()
                self.stores |= s
                return Val(NONE, s, "obj")
            return FRESH
        v = self.ev(f.value, env)
        if v.kind == "func":
            cands = []
        elif isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.f.cls is not None:
            fam = set(self.an.prog.mro(self.f.cls)) | set(self.an.prog.subclasses(self.f.cls)) if hasattr(self.an.prog, "subclasses") else set()
            names = {c if isinstance(c, str) else c.qual for c in fam}
            cands = [h for h in self.methods(m) if h.cls is not None and (h.cls.qual in names)]
        elif v.kind.startswith("obj:"):
            cands = self.of_class(v.kind[4:], m)
        elif v.kind in ("?", "obj"):
            cands = self.methods(m)
        else:
            cands = []
        if cands:
            return joins([self.apply(h, args, kws, n, first=v) for h in cands])
        if m in VIEWM or m == "astype" and copyfalse:
            if m == "setflags":
                pass
            return Val(v.self_, v.inner, v.kind if v.kind == "array" else "?", frozen=v.frozen)
        if m in MUTATORS:
            if m == "setflags":
                if any(k.arg == "write" and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords) and \
                        isinstance(f.value, ast.Name) and f.value.id in env:
                    o = env[f.value.id]
                    self.write(o, n, ast.unparse(n)[:60])
                    self.set(env, f.value.id, Val(o.self_, o.inner, o.kind, o.items, o.elem, o.fns, True))
                    return SCALAR
            self.write(v, n, ast.unparse(n)[:60])
            if m in INSERTERS:
                for a in args:
                    self.insert(f.value, v, element(a) if m in ("extend", "update") else a, env)
            return element(v) if m in ("pop", "setdefault", "popleft", "popitem") else SCALAR
        if m in ("get", "values", "items", "popitem"):
            e = element(v) if v.kind == "dict" else Val(v.inner, v.inner)
            if m == "get":
                return joins([e] + args[1:])
            if m == "values":
                return container("iter", elem=e)
            if m == "items":
                return container("iter", elem=container("tuple", [FRESH, e]))
        if m == "copy":
            return Val(NONE, NONE if v.kind == "array" else v.inner, v.kind, v.items, v.elem) if v.kind in ("list", "dict") else Val(kind=v.kind)
        if m in FRESHM:
            return ARRAY if v.kind == "array" else FRESH
        return FRESH

    # }}}

    # }}}
