"""Parses /repo's modepy package and resolves its names: modules, classes, MRO, dispatch tables, imports."""
from __future__ import annotations
import ast, builtins, hashlib, os

REPO = os.environ.get("MODEPY_REPO", "/repo")


class AnalysisError(Exception):
    """an anchor vanished or the analysis is otherwise not possible"""


class Func:
    def __init__(self, module, node, qual, cls=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.decorators = getattr(node, "decorator_list", [])

    @property
    def params(self):
        a = self.node.args
        return a.posonlyargs + a.args

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.methods: dict = {}
        self.consts: dict = {}
        self.fields: list = []          # annotated class-level names, in order: (name, default node or None, kw_only)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, st, f"{qual}.{st.name}", self)
                decs = [dotted(d) for d in st.decorator_list]
                if any(d and d.split(".")[-1] == "overload" for d in decs):
                    continue
                if any(d and d.endswith(".setter") for d in decs):
                    continue
                self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        if isinstance(v, ast.Name) and v.id in self.methods:
                            self.methods[t.id] = self.methods[v.id]
                        else:
                            self.consts[t.id] = v
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                kw = False
                d = st.value
                if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field":
                    kws = {k.arg: k.value for k in d.keywords}
                    kw = isinstance(kws.get("kw_only"), ast.Constant) and bool(kws["kw_only"].value)
                    d = kws.get("default")
                self.fields.append((st.target.id, d, kw))
                if st.value is not None and not isinstance(st.value, ast.Call):
                    self.consts[st.target.id] = st.value
        self.dataclass = None
        for d in node.decorator_list:
            n = dotted(d.func if isinstance(d, ast.Call) else d)
            if n and n.split(".")[-1] == "dataclass":
                self.dataclass = {"frozen": False, "init": True, "eq": True}
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if isinstance(k.value, ast.Constant):
                            self.dataclass[k.arg] = k.value.value

    def __repr__(self):
        return f"<Class {self.qual}>"


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + "." + n.attr
    if isinstance(n, ast.Call):
        return dotted(n.func)
    return None


class Module:
    def __init__(self, name, path, package):
        self.name, self.path = name, path
        src = open(path).read()
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.pkg = name if self.is_pkg else name.rpartition(".")[0]
        self.package = package
        self.names: dict = {}           # name -> ("func", Func) | ("class", Class) | ("const", node) | ("import", modname, attr)
        self.order: list = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any((dotted(d) or "").split(".")[-1] == "overload" for d in st.decorator_list):
                    continue
                f = Func(self, st, f"{self.name}.{st.name}")
                if st.name in self.names and self.names[st.name][0] == "func":
                    # "_" style redefinition: keep every one for dispatch registration
                    f.qual += f"#{st.lineno}"
                self.names[st.name] = ("func", f)
                self.order.append(("func", f))
            elif isinstance(st, ast.ClassDef):
                c = Class(self, st, f"{self.name}.{st.name}")
                self.names[st.name] = ("class", c)
                self.order.append(("class", c))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._bind(t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._bind(st.target, st.value)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name, None)
                    else:
                        self.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                m = self.resolve_from(st)
                for a in st.names:
                    self.names[a.asname or a.name] = ("import", m, a.name)
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    self._scan_tc(st.body)
                    self._scan(st.orelse)
                    continue
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                    continue
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                self.order.append(("call", st.value))

    def _scan_tc(self, body):
        for st in body:
            if isinstance(st, ast.ImportFrom):
                m = self.resolve_from(st)
                for a in st.names:
                    self.names.setdefault(a.asname or a.name, ("import", m, a.name))

    def _bind(self, t, v):
        if isinstance(t, ast.Name):
            self.names[t.id] = ("const", v)
            self.order.append(("const", (t.id, v)))
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for a, b in zip(t.elts, v.elts):
                self._bind(a, b)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, a in enumerate(t.elts):
                if isinstance(a, ast.Name):
                    self.names[a.id] = ("const", ast.copy_location(ast.Subscript(v, ast.Constant(i), ast.Load()), v))

    def resolve_from(self, st):
        if st.level == 0:
            return st.module or ""
        base = self.pkg.split(".")
        if st.level > 1:
            base = base[:-(st.level - 1)]
        return ".".join(base + ([st.module] if st.module else []))


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods: dict = {}
        self.extra: dict = {}           # module name -> path, for reference programs
        self.used: set = set()
        self.classes: dict = {}
        self._mro: dict = {}
        self._disp = None

    # {{{ modules

    def modpath(self, name):
        if name in self.extra:
            return self.extra[name]
        if name != "modepy" and not name.startswith("modepy."):
            return None
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def mod(self, name) -> Module:
        m = self.mods.get(name)
        if m is None:
            p = self.modpath(name)
            if p is None:
                raise AnalysisError(f"module {name} not found")
            m = self.mods[name] = Module(name, p, self)
            for kind, x in m.order:
                if kind == "class":
                    self.classes[x.qual] = x
        self.used.add(name)
        return m

    def code_modules(self):
        """all non-data, non-test modules"""
        out = []
        root = os.path.join(self.repo, "modepy")
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("test", "__pycache__")]
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    if rel.endswith("_data"):
                        continue
                    out.append(rel)
        return sorted(out)

    def load_all(self):
        for m in self.code_modules():
            self.mod(m)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.used):
            self.mod(n)
            h.update(self.mods[n].src.encode())
        return h.hexdigest()[:16]

    # }}}

    # {{{ names

    def lookup(self, modname, name, _seen=None):
        """-> ("func", Func) ("class", Class) ("const", Module, node) ("module", name) ("ext", dotted) or None"""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.mod(modname)
        e = m.names.get(name)
        if e is None:
            if self.modpath(modname + "." + name):
                return ("module", modname + "." + name)
            return None
        if e[0] == "const":
            return ("const", m, e[1], name)
        if e[0] == "import":
            return self.resolve_import(e[1], e[2], _seen)
        return e

    def resolve_import(self, mod, attr, _seen=None):
        if attr is None:
            if self.modpath(mod):
                return ("module", mod)
            return ("ext", mod)
        if self.modpath(mod):
            if self.modpath(mod + "." + attr) and attr not in self.mod(mod).names:
                return ("module", mod + "." + attr)
            r = self.lookup(mod, attr, _seen)
            if r is None and self.modpath(mod + "." + attr):
                return ("module", mod + "." + attr)
            return r
        if mod in ("__future__",):
            return ("ext", mod + "." + attr)
        return ("ext", mod + "." + attr)

    def find(self, qual):
        """'modepy.modes.jacobi' or 'modepy.modes._SimplexONB.functions' -> Func | Class"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if self.modpath(mn):
                rest = parts[i:]
                if not rest:
                    return self.mod(mn)
                r = self.lookup(mn, rest[0])
                if r is None:
                    raise AnalysisError(f"{qual} not found")
                o = r[1] if r[0] in ("func", "class") else r
                for a in rest[1:]:
                    if isinstance(o, Class):
                        f = self.method(o, a)
                        if f is None:
                            raise AnalysisError(f"{qual} not found")
                        o = f
                    else:
                        raise AnalysisError(f"{qual} not found")
                return o
        raise AnalysisError(f"{qual} not found")

    # }}}

    # {{{ classes

    def bases(self, c: Class):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = dotted(b)
            if d is None:
                continue
            r = self.resolve_dotted(c.module, d)
            if r and r[0] == "class":
                out.append(r[1])
            elif r and r[0] == "ext":
                out.append(r[1])
            else:
                out.append("builtins." + d)
        return out

    def resolve_dotted(self, module, d):
        parts = d.split(".")
        r = self.lookup(module.name, parts[0])
        if r is None:
            return ("ext", "builtins." + d) if hasattr(builtins, parts[0]) else None
        for p in parts[1:]:
            if r[0] == "module":
                r = self.resolve_import(r[1], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
            if r is None:
                return None
        return r

    def mro(self, c: Class):
        r = self._mro.get(c.qual)
        if r is None:
            bs = self.bases(c)
            seqs = [list(self.mro(b)) if isinstance(b, Class) else [b] for b in bs] + [list(bs)]
            r = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                r.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro[c.qual] = r
        return r

    def cls(self, qual) -> Class:
        c = self.classes.get(qual)
        if c is None:
            c = self.find(qual)
            if not isinstance(c, Class):
                raise AnalysisError(f"{qual} is not a class")
            self.classes[c.qual] = c
        return c

    def method(self, c: Class, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def class_const(self, c: Class, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.consts:
                return k, k.consts[name]
        return None

    def issub(self, a, b) -> bool:
        """a, b: Class or qualified/ext names"""
        if isinstance(a, str):
            a = self.classes.get(a, a)
        bq = b.qual if isinstance(b, Class) else b
        if isinstance(a, Class):
            return any((k.qual if isinstance(k, Class) else k) == bq for k in self.mro(a))
        return a == bq

    # }}}

    # {{{ singledispatch

    def dispatch_table(self):
        """generic qual -> {class qual or ext name: Func}"""
        if self._disp is None:
            self.load_all()
            disp: dict = {}
            for m in list(self.mods.values()):
                for kind, f in m.order:
                    if kind == "func":
                        for d in f.decorators:
                            n = dotted(d)
                            if n and n.split(".")[-1] == "singledispatch":
                                disp.setdefault(f.qual, {})
            for m in list(self.mods.values()):
                for kind, f in m.order:
                    if kind == "func":
                        for d in f.decorators:
                            self._register(disp, m, d, f)
                    elif kind == "call":
                        self._register_call(disp, m, f)
            self._disp = disp
        return self._disp

    def _register(self, disp, m, d, f):
        call = d if isinstance(d, ast.Call) else None
        n = dotted(d)
        if not n or not n.endswith(".register"):
            return
        g = self.resolve_dotted(m, n[:-len(".register")])
        if not g or g[0] != "func" or g[1].qual not in disp:
            return
        if call is not None and call.args:
            cs = [call.args[0]]
        else:
            ps = f.params
            cs = [ps[0].annotation] if ps and ps[0].annotation is not None else []
        for c in cs:
            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                c = ast.parse(c.value, mode="eval").body
            self._reg1(disp, m, g[1].qual, c, f)

    def _register_call(self, disp, m, call):
        # generic.register(Cls)(impl)  /  generic.register(Cls, impl)
        inner = call.func if isinstance(call.func, ast.Call) else call
        n = dotted(inner.func)
        if not n or not n.endswith(".register"):
            return
        g = self.resolve_dotted(m, n[:-len(".register")])
        if not g or g[0] != "func" or g[1].qual not in disp or not inner.args:
            return
        impl = call.args[0] if inner is not call else (inner.args[1] if len(inner.args) > 1 else None)
        if impl is None:
            return
        d = dotted(impl)
        r = d and self.resolve_dotted(m, d)
        if r and r[0] == "func":
            self._reg1(disp, m, g[1].qual, inner.args[0], r[1])

    def _reg1(self, disp, m, gq, c, f):
        d = dotted(c)
        r = d and self.resolve_dotted(m, d)
        if r and r[0] == "class":
            self.classes[r[1].qual] = r[1]
            disp[gq][r[1].qual] = f
        elif r and r[0] == "ext":
            disp[gq][r[1]] = f

    def dispatch(self, gq, c: Class):
        """implementation chosen for class c (None: default)"""
        t = self.dispatch_table().get(gq)
        if t is None:
            raise AnalysisError(f"{gq} is not a singledispatch function")
        for k in self.mro(c):
            q = k.qual if isinstance(k, Class) else k
            if q in t:
                return t[q]
        return None

    def subclasses(self, c: Class):
        self.load_all()
        return [k for k in self.classes.values() if k is not c and self.issub(k, c)]

    # }}}
