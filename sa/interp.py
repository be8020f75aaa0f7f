"""Extraction of gated value graphs (what a function computes, as a term over its parameters) from the syntax tree.

A syntax-directed dataflow walk: names and heap cells map to terms, branches join with gating functions (ite), loops
become recurrences that are put in closed form where a rule applies (sums, products, maps, filters, recurrences).
Nothing of the analysed program is executed.
"""
from __future__ import annotations
import ast, builtins, re
from fractions import Fraction
from .terms import *
from . import terms as T
from . import lit
from .loader import Program, Func, Class, AnalysisError, dotted
from . import vn

EXC_PARENT = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ValueError": "Exception",
    "TypeError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "StopIteration": "Exception", "Exception": "BaseException", "DeprecationWarning": "Warning",
    "Warning": "Exception", "numpy.linalg.LinAlgError": "ValueError", "UserWarning": "Warning",
}

MAXUNROLL = 64


OPERATORS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
             ast.Pow: "pow", ast.MatMult: "matmul"}


def _declined(r):
    """condition under which a value is the singleton NotImplemented"""
    if r.op == "ext" and r.args[0] == "builtins.NotImplemented":
        return TRUE
    if r.op == "ite":
        return ite(r.args[0], _declined(r.args[1]), _declined(r.args[2]))
    return FALSE


def _accepted(r):
    if r.op == "ite":
        if _declined(r.args[1]) is TRUE:
            return _accepted(r.args[2])
        if _declined(r.args[2]) is TRUE:
            return _accepted(r.args[1])
        return ite(r.args[0], _accepted(r.args[1]), _accepted(r.args[2]))
    return r


class Opaque(Exception):
    pass


class State:
    __slots__ = ("frames", "heap")

    def __init__(self, frames=None, heap=None):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap))


class Raised(tuple):
    """(condition, exception)"""
    st = None


class Frame:
    def __init__(self, fid, module, func=None, cls=None, parent=None, selfname=None):
        self.fid, self.module, self.func, self.cls, self.parent = fid, module, func, cls, parent
        self.selfname = selfname
        self.locals = set()
        self.outer = set()
        self.views = {}


def assigned_names(node):
    """names bound anywhere in a function body (not in nested scopes)"""
    out = set()
    nonloc = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonloc.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for st in (node if isinstance(node, list) else [node]):
        walk(st)
    return out - nonloc


_inplace: dict = {}
MUTATORS = {"fill", "sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "reverse", "put", "itemset", "partition"}
FRESH_CALLS = {"len", "range", "enumerate", "isinstance", "abs", "sum", "min", "max", "float", "int", "print", "str", "repr", "type",
               "zip", "sorted", "any", "all", "cast", "tuple", "list", "set"}


def strip_annotations(args):
    import copy
    r = copy.deepcopy(args)
    for a in r.posonlyargs + r.args + r.kwonlyargs + [x for x in (r.vararg, r.kwarg) if x]:
        a.annotation = None
    return r


def inplace_info(node):
    """(names updated by item stores, names updated by augmented assignment, names among them that other places may also hold)"""
    r = _inplace.get(node)
    if r is not None:
        return r
    store, aug, esc = set(), set(), set()

    def root(t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return t.id if isinstance(t, ast.Name) else None
    for n in ast.walk(node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(x, ast.Subscript) and root(x):
                        store.add(root(x))
            if isinstance(n.value, ast.Name):
                esc.add(n.value.id)
            elif isinstance(n, ast.Assign) and len(n.targets) > 1:
                esc |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n.value, ast.IfExp):
                esc |= {x.id for x in (n.value.body, n.value.orelse) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                aug.add(n.target.id)
            elif root(n.target):
                store.add(root(n.target))
        elif isinstance(n, (ast.List, ast.Set)) or isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load):
            esc |= {x.id for x in n.elts if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Dict):
            esc |= {x.id for x in n.values if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and isinstance(n.elt, ast.Name):
            esc.add(n.elt.id)
        elif isinstance(n, (ast.Yield, ast.NamedExpr)) and isinstance(n.value, ast.Name):
            esc.add(n.value.id)
        elif isinstance(n, ast.Call):
            d = dotted(n.func) or ""
            if isinstance(n.func, ast.Attribute) and d.split(".")[0] in ("np", "numpy", "la", "math", "cmath", "warnings") or d in FRESH_CALLS:
                if not any(k.arg == "out" for k in n.keywords):
                    continue
            esc |= {x.id for x in [*n.args, *[k.value for k in n.keywords]] if isinstance(x, ast.Name)}
    # elements of a returned tuple or of an index are not kept
    r = _inplace[node] = (store, aug, (store | aug) & esc)
    return r


def basic_index(i):
    """does the index select a view (integers, slices) rather than make a copy?"""
    if i.op == "seq":
        return all(basic_index(x) for x in i.args)
    return i.op in ("slice", "num", "none", "ellipsis") or is_int(i)


_hasref: dict = {}


def hasref(t):
    r = _hasref.get(t.id)
    if r is None:
        r = t.op == "ref" or any(hasref(k) for k in kids(t))
        _hasref[t.id] = r
    return r


DATAMOD = re.compile(r"_data(_|$)")


def isarr(t):
    return t.op == "arr"


def unarr(t):
    return t.args[0] if t.op == "arr" else t


def arr(t):
    if t.op == "arr":
        return t
    if t.op == "ite":
        return ite(t.args[0], arr(t.args[1]), arr(t.args[2]))
    if t.op in ("seq", "map", "concat", "filter", "flat"):
        return mk("arr", t)
    return t


T._REBUILD["arr"] = arr


def flat(t):
    if isbot(t):
        return t
    if t.op == "seq":
        return concat(*t.args)
    if t.op == "map" and t.args[2].op == "seq" and len(t.args[2].args) == 1:
        return map_(t.args[0], t.args[1], t.args[2].args[0])
    if t.op == "map" and t.args[2].op == "ite":
        c, a, b = t.args[2].args
        if a.op == "seq" and len(a.args) == 1 and b.op == "seq" and not b.args:
            return filter_(t.args[0], t.args[1], a.args[0], c)
        if b.op == "seq" and len(b.args) == 1 and a.op == "seq" and not a.args:
            return filter_(t.args[0], t.args[1], b.args[0], not_(c))
    if t.op == "concat":
        return concat(*[flat(x) for x in t.args])
    return mk("flat", t)


T._REBUILD["flat"] = flat

SEQLIKE = ("seq", "map", "concat", "rep", "filter", "flat")
SCALARK = ("int", "nat", "pos", "real", "jac", "expr")


class Interp:
    def __init__(self, prog: Program, keep=(), kinds=None, expand=()):
        self.prog = prog
        self.keep = set(keep)
        self.kinds = kinds or {}
        self.expand = set(expand)
        self.stand_ins: dict = {}
        self.missing: tuple = ()          # packages taken to be absent
        self.st = State()
        self.pend: list = []
        self.guard: list = []
        self.handlers: list = []
        self.stack: list = []
        self.nexted: set = set()
        self.nfid = 0
        self.nref = 0
        self.closures: dict = {}
        self.captured: set = set()
        self.frames: dict = {}
        self.modconst: dict = {}
        self.inlined: set = set()
        self.calls: set = set()
        self.notes: set = set()
        self.symshape: dict = {}
        self.symcls: dict = {}
        self.budget = 400000
        self.current = None
        self.lineno = None

    # {{{ state helpers

    def newref(self, content):
        self.nref += 1
        r = mk("ref", self.nref)
        self.st.heap[self.nref] = content
        return r

    ROOTS = {"builtins.object", "object", "abc.ABC", "typing.Generic", "typing.Protocol"}

    def lacks(self, x, *methods):
        """*x* is an object none of whose classes (all known) defines any of the special methods"""
        if x.op != "obj":
            return False
        c = self.prog.classes.get(x.args[0])
        if c is None or self.prog.class_const(c, "STAND_IN"):
            return False
        for k in self.prog.mro(c):
            if isinstance(k, Class):
                continue
            n = k if isinstance(k, str) else getattr(k, "args", [None])[0] if getattr(k, "op", None) == "ext" else None
            if n not in self.ROOTS:
                return False
        return not any(self.prog.method(c, m) for m in methods)

    def consume(self, t):
        """contents of an iterator, which is thereby exhausted; other values are unchanged"""
        if t.op == "ref":
            x = self.deref(t)
            if x.op == "iter":
                while self.st.heap[t.args[0]].op == "ref":
                    t = self.st.heap[t.args[0]]
                s, pos = x.args
                self.st.heap[t.args[0]] = mk("iter", s, size(s))
                if pos is ZERO:
                    return s
                from . import models
                return self.index(s, mk("slice", pos, NONE, NONE))
        return t

    def deref(self, t):
        n = 0
        while t.op == "ref":
            t = self.st.heap.get(t.args[0])
            if t is None:
                return opaque("dangling reference")
            n += 1
            if n > 50:
                return opaque("cyclic reference")
        if t.op == "ite" and hasref(t) and (t.args[1].op in ("ref", "ite") or t.args[2].op in ("ref", "ite")):
            return ite(t.args[0], self.deref(t.args[1]), self.deref(t.args[2]))
        return t

    def deep(self, t, memo=None):
        if not hasref(t):
            return t
        if memo is None:
            memo = {}
        r = memo.get(t.id)
        if r is None:
            if t.op == "ref":
                if t.id in memo.get("busy", ()):
                    return opaque("cyclic")
                memo.setdefault("busy", set()).add(t.id)
                r = self.deep(self.deref(t), memo)
                memo["busy"].discard(t.id)
            elif t.op in T.BINDERS and t.op not in ("map", "filter", "exists"):
                r = mk(t.op, *[self.deep(a, memo) if isinstance(a, Term) else a for a in t.args])
            elif t.op == "map":
                r = map_(self.deep(t.args[0], memo), t.args[1], self.deep(t.args[2], memo))
            else:
                r = rebuild(t, [self.deep(a, memo) if isinstance(a, Term) else a for a in t.args])
            memo[t.id] = r
        return r

    def merge(self, c, a: State, b: State) -> State:
        if a is b:
            return a
        out = State({}, {})
        for rid in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(rid), b.heap.get(rid)
            out.heap[rid] = x if y is None or x is y else y if x is None else self.mergeval(c, x, y, a, b)
        for fid in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                out.frames[fid] = fa if fb is None else fb
                continue
            if fa is fb:
                out.frames[fid] = fa
                continue
            d = {}
            for n in fa.keys() | fb.keys():
                x, y = fa.get(n), fb.get(n)
                d[n] = x if y is None or x is y else y if x is None else self.mergeval(c, x, y, a, b)
            out.frames[fid] = d
        return out

    def mergeval(self, c, x, y, a, b):
        if x.op == "undef":
            return y
        if y.op == "undef":
            return x
        if (x.op == "ref") != (y.op == "ref"):
            s = self.st
            if x.op == "ref":
                self.st = a
                x = self.deref(x)
            else:
                self.st = b
                y = self.deref(y)
            self.st = s
        if x.op == "obj" and y.op == "obj" and x.args[0] == y.args[0] and x.args[1::2] == y.args[1::2]:
            fs = []
            for n, u, v in zip(x.args[1::2], x.args[2::2], y.args[2::2]):
                fs += [n, u if u is v else self.mergeval(c, u, v, a, b)]
            return mk("obj", x.args[0], *fs)
        return ite(c, x, y)

    # }}}

    # {{{ raising

    def raise_(self, cond, exc):
        if cond is FALSE:
            return
        g = and_(*self.guard, cond)
        if g is not FALSE:
            self.pend.append(self.raised(g, exc, None))

    def raised(self, g, exc, st):
        """a pending exception; where it can be caught, with the state at the point where it is raised"""
        r = Raised((g, exc))
        if self.handlers and self.catches(exc):
            r.st = (st or self.st).copy()
        return r

    def catches(self, exc):
        return any(self.exc_match(exc, h) for hs in self.handlers for h in hs)

    def exc_match(self, exc, handler):
        for e in exc.split("|"):
            seen = 0
            while e is not None and seen < 20:
                if e == handler or e.split(".")[-1] == handler:
                    return True
                e = self.exc_parent(e)
                seen += 1
        return False

    def exc_parent(self, e):
        if e in EXC_PARENT:
            return EXC_PARENT[e]
        for c in self.prog.classes.values():
            if c.qual == e or c.qual.split(".")[-1] == e:
                bs = self.prog.bases(c)
                if bs:
                    b = bs[0]
                    return b.qual if isinstance(b, Class) else b.replace("builtins.", "")
        return None

    # }}}

    # {{{ outcomes

    def take(self, mark=0):
        p, self.pend = self.pend[mark:], self.pend[:mark]
        return p

    def falls(self, o):
        """merged state of the fall-through leaves"""
        if o[0] == "fall":
            return o[1]
        if o[0] == "if":
            a, b = self.falls(o[2]), self.falls(o[3])
            if a is None:
                return b
            if b is None:
                return a
            return self.merge(o[1], a, b)
        return None

    def graft(self, o, rest):
        if o[0] == "fall":
            return rest
        if o[0] == "if":
            return ("if", o[1], self.graft(o[2], rest), self.graft(o[3], rest))
        return o

    def with_pend(self, pend, o):
        for p in reversed(pend):
            c, e = p
            st = getattr(p, "st", None) or self.st
            if c is TRUE:
                o = ("raise", e, st)
            else:
                o = ("if", c, ("raise", e, st), o)
        return o

    def exec_block(self, stmts, fr):
        """-> outcome tree; self.st is undefined afterwards"""
        for i, s in enumerate(stmts):
            o = self.exec_stmt(s, fr)
            if o is None:
                continue
            if o[0] == "fall":
                self.st = o[1]
                continue
            m = self.falls(o)
            if m is None:
                return o
            self.st = m
            rest = self.exec_block(stmts[i + 1:], fr)
            return self.graft(o, rest)
        return ("fall", self.st)

    def value_of(self, o, path=()):
        """-> (value or None, state or None); raises go to self.pend"""
        if o[0] == "ret":
            return o[1], o[2]
        if o[0] == "fall":
            return NONE, o[1]
        if o[0] == "raise":
            g = and_(*self.guard, *path)
            if g is not FALSE:
                self.pend.append(self.raised(g, o[1], o[2]))
            return None, None
        if o[0] == "if":
            a, sa = self.value_of(o[2], path + (o[1],))
            b, sb = self.value_of(o[3], path + (not_(o[1]),))
            if a is None:
                return b, sb
            if b is None:
                return a, sa
            if a is b:
                v = a
            else:
                v = self.mergeval(o[1], a, b, sa, sb)
            return v, self.merge(o[1], sa, sb)
        raise Opaque("control flow " + o[0])

    # }}}

    # {{{ statements

    def exec_stmt(self, s, fr):
        self.budget -= 1
        if self.budget < 0:
            raise Opaque("budget")
        self.lineno = getattr(s, "lineno", None)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Opaque(f"statement {type(s).__name__}")
        mark = len(self.pend)
        o = m(s, fr)
        p = self.take(mark)
        if not p:
            return o
        return self.with_pend(p, o if o is not None else ("fall", self.st))

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        return None

    def x_Assert(self, s, fr):
        return None

    def x_Delete(self, s, fr):
        return None

    def x_Global(self, s, fr):
        return None

    def x_Nonlocal(self, s, fr):
        return None

    def x_ClassDef(self, s, fr):
        raise Opaque("local class")

    def x_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.setname(fr, a.asname, self.modterm(a.name))
            else:
                self.setname(fr, a.name.split(".")[0], self.modterm(a.name.split(".")[0]))

    def x_ImportFrom(self, s, fr):
        m = fr.module.resolve_from(s)
        if any(m == q or m.startswith(q + ".") for q in self.missing):
            return ("raise", "ImportError", self.st)
        for a in s.names:
            r = self.prog.resolve_import(m, a.name)
            if r and r[0] == "ext" and f"{m}.{a.name}" in self.stand_ins:
                r = ("func", self.stand_ins[f"{m}.{a.name}"])
            self.setname(fr, a.asname or a.name, self.entity(r, f"{m}.{a.name}"))

    def modterm(self, name):
        return mk("module", name) if self.prog.modpath(name) else mk("ext", name)

    def x_FunctionDef(self, s, fr):
        if any((dotted(d) or "").split(".")[-1] == "overload" for d in s.decorator_list):
            return None
        self.setname(fr, s.name, self.closure(s, fr))

    def x_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        return ("ret", v, self.st)

    def x_Raise(self, s, fr):
        exc = s.exc
        if exc is None:
            return ("raise", getattr(fr, "current_exc", None) or "Exception", self.st)
        if isinstance(exc, ast.Call):
            name = self.excname(exc.func, fr)
            for a in exc.args:
                self.ev_msg(a, fr)
        else:
            name = self.excname(exc, fr)
        return ("raise", name, self.st)

    def ev_msg(self, a, fr):
        """evaluate a message only for the exceptions it can raise itself"""
        try:
            self.ev(a, fr)
        except Opaque:
            pass

    def excname(self, n, fr):
        t = self.ev(n, fr)
        if t.op == "cls":
            return t.args[0].split(".")[-1]
        if t.op == "ext":
            return t.args[0].replace("builtins.", "").split(".")[-1]
        return dotted(n) or "Exception"

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        v = self.shared(s.targets, s.value, v, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.shared([s.target], s.value, self.ev(s.value, fr), fr), fr)

    def arrayish(self, v):
        """surely an array with at least one axis"""
        if v.op in ("arr", "alloc"):
            return True
        k = self.kind(v)
        if k in ("vec", "mat", "ndarr") or k and k.startswith("nd"):
            return True
        if v.op in ("add", "mul", "pow", "abs"):
            return any(self.arrayish(a) for a in v.args)
        return bool(self.rank(v))

    def shared(self, targets, node, v, fr):
        """arrays that are updated in place while several names hold them live on the heap"""
        if fr.func is None:
            return v
        store, aug, risky = inplace_info(fr.func.node)
        names = [t.id for t in targets if isinstance(t, ast.Name)]
        for n in names:
            fr.views.pop(n, None)
        if v.op in ("ref", "mv") or self.is_scalar(v):
            return v
        mutable = lambda n: n in store and v.op not in ("none", "str", "obj", "func", "cls", "closure", "module", "ext") or n in aug and self.arrayish(v)
        if isinstance(node, ast.Name):
            if any(mutable(n) for n in [node.id, *names]):
                v = self.newref(v)
                self.setname_any(fr, node.id, v)
        elif any(n in risky and mutable(n) for n in names):
            return self.newref(v)
        elif isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and len(names) == len(targets) == 1 and self.arrayish(v):
            if names[0] != node.value.id and (mutable(names[0]) or node.value.id in store | aug):
                base = self.ev(node.value, fr)
                if unarr(self.deref(base)).op in ("dict", "dictmap"):
                    return v
                i = self.ev_index(node.slice, fr)
                if basic_index(i):
                    fr.views[names[0]] = (node.value.id, i)
        return v

    def update_views(self, name, new, fr):
        """name was updated in place: so are the arrays it is a view of and those that are views of it"""
        if fr.func is None or not fr.views:
            return
        if name in fr.views:
            x, i = fr.views[name]
            b = ast.Name(x, ast.Load())
            base = self.ev(b, fr)
            self.store_item(b, base, i, new, fr, skip=name)
        else:
            self.refresh_views(name, fr, None)

    def refresh_views(self, name, fr, skip):
        for y, (x, i) in list(fr.views.items()):
            if x == name and y != skip and y in self.st.frames.get(fr.fid, {}):
                self.setname(fr, y, self.index(self.deref(self.name(x, fr)), i))

    def x_AugAssign(self, s, fr):
        t = s.target
        load = self.as_load(t)
        old = self.ev(load, fr)
        rhs = self.ev(s.value, fr)
        o = self.deref(old)
        if isinstance(s.op, ast.Add) and (o.op in SEQLIKE or self.kind(o) == "seq"):
            new = concat(o, self.as_seq(self.deref(rhs)))
        else:
            new = self.binop(s.op, o, self.deref(rhs))
        if old.op == "ref":
            self.st.heap[old.args[0]] = new
            if isinstance(t, ast.Name) and fr.views:
                self.refresh_views(t.id, fr, None)
        else:
            self.assign(t, new, fr)
            if isinstance(t, ast.Name) and fr.views and not self.is_scalar(o):
                self.update_views(t.id, new, fr)

    def as_load(self, t):
        n = ast.parse(ast.unparse(t), mode="eval").body
        return ast.copy_location(n, t)

    def x_If(self, s, fr):
        c = truthy(self.deref(self.ev(s.test, fr)))
        pre = self.take_local()
        c = self.simp(c)
        if c is TRUE:
            o = self.exec_block(s.body, fr)
            return self.with_pend(pre, o)
        if c is FALSE:
            o = self.exec_block(s.orelse, fr) if s.orelse else ("fall", self.st)
            return self.with_pend(pre, o)
        base = self.st
        self.st = base.copy()
        self.guard.append(c)
        a = self.exec_block(s.body, fr)
        self.guard.pop()
        self.st = base.copy()
        self.guard.append(not_(c))
        b = self.exec_block(s.orelse, fr) if s.orelse else ("fall", self.st)
        self.guard.pop()
        self.st = base
        return self.with_pend(pre, ("if", c, a, b))

    def take_local(self):
        p = self.pend[self._mark():]
        del self.pend[self._mark():]
        return p

    def _mark(self):
        return self.marks[-1] if getattr(self, "marks", None) else 0

    def simp(self, c):
        """simplify a condition by what the enclosing guards say"""
        if c in (TRUE, FALSE):
            return c
        facts = vn.Facts()
        m = {}
        for g in self.guard:
            for a in (g.args if g.op == "and" else (g,)):
                at, tr = (a.args[0], False) if a.op == "not" else (a, True)
                if at.op in T.ATOMS:
                    f = facts.assume(at, tr)
                    if f is not None:
                        facts = f
        for at in vn.split_atoms(c):
            k = facts.query(at)
            if k is not None:
                m[at] = boolc(k)
        return subst(c, m) if m else c

    def x_With(self, s, fr):
        supp = []
        for it in s.items:
            e = it.context_expr
            if isinstance(e, ast.Call):
                d = dotted(e.func) or ""
                if d.split(".")[-1] == "suppress":
                    supp += [self.excname(a, fr) for a in e.args]
                    continue
            self.ev(e, fr)
            if it.optional_vars is not None:
                raise Opaque("with ... as")
        if supp:
            return self.run_try(s.body, [(supp, [], None)], [], [], fr)
        return self.exec_block(s.body, fr)

    def x_Try(self, s, fr):
        hs = []
        for h in s.handlers:
            if h.type is None:
                names = ["BaseException"]
            elif isinstance(h.type, ast.Tuple):
                names = [self.excname(e, fr) for e in h.type.elts]
            else:
                names = [self.excname(h.type, fr)]
            hs.append((names, h.body, h.name))
        return self.run_try(s.body, hs, s.orelse, s.finalbody, fr)

    def run_try(self, body, handlers, orelse, final, fr):
        if all(all(n in ("ImportError", "ModuleNotFoundError") for n in h[0]) for h in handlers) and handlers and not self.missing:
            o = self.exec_block(list(body) + list(orelse), fr)   # the optional dependency is assumed present
        else:
            self.handlers.append([n for h in handlers for n in h[0]])
            o = self.exec_block(list(body), fr)
            self.handlers.pop()
            if orelse:
                m = self.falls(o)
                if m is not None:
                    self.st = m
                    o = self.graft(o, self.exec_block(list(orelse), fr))
            o = self.handle(o, handlers, fr)
        if final:
            m = self.falls(o)
            if m is not None:
                self.st = m
                o = self.graft(o, self.exec_block(list(final), fr))
        return o

    def handle(self, o, handlers, fr):
        if o[0] == "if":
            self.guard.append(o[1])
            a = self.handle(o[2], handlers, fr)
            self.guard[-1] = not_(o[1])
            b = self.handle(o[3], handlers, fr)
            self.guard.pop()
            return ("if", o[1], a, b)
        if o[0] == "raise":
            for names, body, name in handlers:
                if any(self.exc_match(o[1], n) for n in names):
                    self.st = o[2].copy()
                    if name:
                        self.setname(fr, name, opaque("exception"))
                    saved = getattr(fr, "current_exc", None)
                    fr.current_exc = o[1]
                    mark = len(self.pend)
                    r = self.exec_block(body, fr)
                    fr.current_exc = saved
                    return self.with_pend(self.take(mark), r)
        return o

    def x_Break(self, s, fr):
        return ("brk", self.st)

    def x_Continue(self, s, fr):
        return ("cont", self.st)

    # }}}

    # {{{ assignment

    def setname(self, fr, name, v):
        if name in fr.outer and fr.parent is not None:
            return self.setname(fr.parent, name, v)
        self.st.frames.setdefault(fr.fid, {})[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            if not self.set_by_class(base, t.attr, v):
                self.store_attr(t.value, base, t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            self.store_item(t.value, base, i, v, fr)
        else:
            raise Opaque("assignment target")

    def set_by_class(self, base, name, v):
        """o.name = v where the class of o has a say: frozen dataclasses, __setattr__"""
        o = self.deref(base)
        c = self.prog.classes.get(o.args[0]) if o.op == "obj" else None
        if c is None:
            return False
        for k in self.prog.mro(c):
            if not isinstance(k, Class):
                continue
            if "__setattr__" in k.methods:
                self.call_func(k.methods["__setattr__"], [base, string(name), v], {})
                return True
            if name in k.methods and self.isprop(k.methods[name]):
                if not any((dotted(d) or "").endswith(".setter") for d in k.methods[name].decorators):
                    self.raise_(TRUE, "AttributeError")
                    return True
                return False
            if k.dataclass and k.dataclass.get("frozen"):
                if k is c or name in self.dataclass_fields(k):
                    self.raise_(TRUE, "FrozenInstanceError")
                    return True
        return False

    def copied(self, x, hook):
        """what copy and pickle make of x: the hook the class defines (__copy__, __deepcopy__), __reduce__, or __new__ with
        __getnewargs__ followed by the attributes"""
        o = self.deref(x)
        if o.op == "ite":
            return ite(o.args[0], self.copied(o.args[1], hook), self.copied(o.args[2], hook))
        if o.op == "seq":
            return mk("seq", *[self.copied(a, hook) for a in o.args])
        c = self.prog.classes.get(o.args[0]) if o.op == "obj" else None
        if c is None:
            return o
        meth = lambda n: self.prog.method(c, n)
        if hook and meth(hook):
            return self.call_func(meth(hook), [x] + ([opaque("memo")] if hook == "__deepcopy__" else []), {})
        red = meth("__reduce_ex__") or meth("__reduce__")
        state = None
        if red:
            t = self.deref(self.call_func(red, [x] + ([num(2)] if red.node.name == "__reduce_ex__" else []), {}))
            if t.op != "seq" or len(t.args) < 2:
                raise Opaque("__reduce__")
            args = self.deref(t.args[1])
            if args.op != "seq":
                raise Opaque("__reduce__")
            r = self.call(self.deref(t.args[0]), list(args.args), {})
            if len(t.args) < 3 or self.deref(t.args[2]) is NONE:
                return r
            state = self.deref(t.args[2])
        else:
            args, kw = [], {}
            if meth("__getnewargs_ex__"):
                raise Opaque("__getnewargs_ex__")
            if meth("__getnewargs__"):
                t = self.deref(self.call_func(meth("__getnewargs__"), [x], {}))
                if t.op != "seq":
                    raise Opaque("__getnewargs__")
                args = list(t.args)
            new = meth("__new__")
            r = self.call_func(new, [mk("cls", c.qual)] + args, {}) if new else self.newref(mk("obj", c.qual))
            if meth("__getstate__"):
                state = self.deref(self.call_func(meth("__getstate__"), [x], {}))
        c2 = self.deref(r)
        if c2.op == "undef":                                  # __new__ failed
            return r
        if c2.op == "opaque" and str(c2.args[0]).startswith("missing argument"):
            self.raise_(TRUE, "TypeError")
            return undef("copy")
        if c2.op == "ite" and all(x.op == "obj" for x in (self.deref(c2.args[1]), self.deref(c2.args[2]))):
            c2 = ite(c2.args[0], self.deref(c2.args[1]), self.deref(c2.args[2]))
            r = self.newref(c2)
            if state is None:
                for n, v in zip(o.args[1::2], o.args[2::2]):
                    self.store_attr(None, r, n, self.copied(v, hook) if hook != "__copy__" else v, None)
                return r
        if r.op != "ref" and c2.op == "obj":
            r = self.newref(c2)
        if r.op != "ref" or c2.op != "obj":
            raise Opaque(f"copy of an object not known: {c2.op} {c2.args[:2]}")
        k2 = self.prog.classes.get(c2.args[0])
        if k2 is not None and self.prog.method(k2, "__setstate__"):
            self.call_func(self.prog.method(k2, "__setstate__"), [r, state if state is not None else mk("objdict", o)], {})
            return r
        if state is not None and state.op != "objdict":
            raise Opaque("__getstate__")
        deep = hook != "__copy__"
        for n, v in zip(o.args[1::2], o.args[2::2]):
            self.store_attr(None, r, n, self.copied(v, hook) if deep else v, None)
        return r

    def store_attr(self, node, base, name, v, fr):
        if base.op == "ref":
            o = self.st.heap[base.args[0]]
            if o.op == "obj":
                self.st.heap[base.args[0]] = setattr_(o, name, v)
                return
            if o.op == "ite":
                self.st.heap[base.args[0]] = setattr_(o, name, v)
                return
        raise Opaque("attribute store on non-object")

    def store_item(self, node, base, i, v, fr, skip=None):
        b = self.deref(base)
        new = self.updated(b, i, self.deref(v) if v.op == "ref" and b.op not in ("seq", "dict") else v)
        if base.op == "ref":
            self.st.heap[base.args[0]] = new
            if isinstance(node, ast.Name) and fr.views:
                self.refresh_views(node.id, fr, skip)
            return
        # functional update of a (sub)expression: rebind the name, or store into the container
        if isinstance(node, ast.Name):
            self.setname_any(fr, node.id, new)
            if fr.views:
                if node.id in fr.views:
                    self.update_views(node.id, new, fr)
                self.refresh_views(node.id, fr, skip)
        elif isinstance(node, ast.Subscript):
            b2 = self.ev(node.value, fr)
            i2 = self.ev_index(node.slice, fr)
            self.store_item(node.value, b2, i2, new, fr)
        elif isinstance(node, ast.Attribute):
            b2 = self.ev(node.value, fr)
            self.store_attr(node.value, b2, node.attr, new, fr)
        else:
            raise Opaque("store into expression")

    def setname_any(self, fr, name, v):
        f = fr
        while f is not None:
            if name in self.st.frames.get(f.fid, {}):
                self.st.frames[f.fid][name] = v
                return
            f = f.parent
        self.setname(fr, name, v)

    def lit_shape(self, b):
        """shape of an array of scalars written out in full, else None"""
        if b.op == "alloc":
            sh = b.args[0]
            if sh.op == "seq" and all(x.op == "num" for x in sh.args):
                return tuple(int(x.args[0]) for x in sh.args)
            return None
        s = unarr(b)
        if s.op != "seq":
            return () if (self.is_scalar(s) or s.op in ("opaque", "uninit")) and not isarr(b) else None
        if not s.args:
            return (0,)
        ds = [self.lit_shape(x) for x in s.args]
        if ds[0] is None or any(d != ds[0] for d in ds):
            return None
        return (len(s.args),) + ds[0]

    def lit_leaves(self, b):
        s = unarr(b)
        if s.op == "alloc":
            n = 1
            for d in self.lit_shape(b):
                n *= d
            return [s.args[1]] * n
        if s.op != "seq":
            return [s]
        return [l for x in s.args for l in self.lit_leaves(x)]

    def lit_array(self, shape, leaves):
        if 0 in shape and len(shape) > 1:
            return mk("alloc", seq(*[num(d) for d in shape]), leaves[0] if leaves else ZERO)
        it = iter(leaves)

        def build(ds):
            if not ds:
                return next(it)
            return seq(*[build(ds[1:]) for _ in range(ds[0])])
        r = build(list(shape))
        return arr(r) if shape else r

    def lit_reduce(self, f, b, axis, start):
        """reduce a literal array along an axis"""
        s = self.lit_shape(b)
        if s is None or not s or not -len(s) <= axis < len(s):
            return None
        axis %= len(s)
        ls = self.lit_leaves(b)
        rest = s[:axis] + s[axis + 1:]
        out = {ix: start for ix in __import__("itertools").product(*[range(d) for d in rest])}
        for l, ix in zip(ls, __import__("itertools").product(*[range(d) for d in s])):
            k = ix[:axis] + ix[axis + 1:]
            out[k] = f(out[k], l)
        return self.lit_array(rest, list(out.values()))

    def lit_broadcast(self, b, shape):
        """literal array b broadcast to shape, or None"""
        s = self.lit_shape(b)
        if s is None:
            return None
        if len(s) > len(shape):
            if any(d != 1 for d in s[:len(s) - len(shape)]):
                return None
            s2 = s[len(s) - len(shape):]
        else:
            s2 = (1,) * (len(shape) - len(s)) + s
        if any(d not in (1, e) for d, e in zip(s2, shape)):
            return None
        ls = self.lit_leaves(b)
        st, k = [], 1
        for d in reversed(s2):
            st.insert(0, 0 if d == 1 else k)
            k *= d
        out = []
        for ix in __import__("itertools").product(*[range(d) for d in shape]):
            out.append(ls[sum(i * q for i, q in zip(ix, st))])
        return self.lit_array(shape, out)

    def updated(self, b, i, v):
        """value of container b after b[i] = v"""
        if isarr(b) or b.op == "alloc":
            try:
                r = lit.store(self, b, i, v)
            except lit.Bad as e:
                self.raise_(TRUE, e.args[0])
                return opaque("store does not fit")
            if r is not None:
                return r
        if b.op == "ite":
            return ite(b.args[0], self.updated(b.args[1], i, v), self.updated(b.args[2], i, v))
        if b.op == "dict" or b.op in ("dictmap", "dset"):
            return self.dset(b, i, v)
        w = isarr(b)
        s = unarr(b)
        if s.op == "seq":
            if i.op == "num":
                k = int(i.args[0])
                n = len(s.args)
                if -n <= k < n:
                    items = list(s.args)
                    items[k] = v
                    r = seq(*items)
                    return arr(r) if w else r
                self.raise_(TRUE, "IndexError")
                return b
            if i.op == "seq" and len(i.args) >= 2 and i.args[0].op == "num":
                k = int(i.args[0].args[0])
                n = len(s.args)
                if -n <= k < n:
                    items = list(s.args)
                    rest = i.args[1] if len(i.args) == 2 else seq(*i.args[1:])
                    if rest.op == "slice" and rest.args == (NONE, NONE, NONE):
                        items[k] = v
                    else:
                        items[k] = self.updated(items[k], rest, v)
                    return arr(seq(*items))
            if i.op == "slice":
                items = list(s.args)
                vals = [None if a is NONE else (int(a.args[0]) if a.op == "num" else False) for a in i.args]
                if False not in vals:
                    rng = range(len(items))[slice(*vals)]
                    vv = unarr(v)
                    if vv.op == "seq" and len(vv.args) == len(rng):
                        for j, x in zip(rng, vv.args):
                            items[j] = x
                        return arr(seq(*items)) if w else seq(*items)
                    if self.is_scalar(v):
                        for j in rng:
                            items[j] = v
                        return arr(seq(*items))
                    for jj, j in enumerate(rng):
                        items[j] = self.index(v, num(jj))
                    return arr(seq(*items))
        r = self.update_term(b, i, v)
        return self.covered(r) or r

    def update_term(self, b, i, v):
        """stores at different literal positions commute; a store hides an earlier one at the same position"""
        def lit(x):
            return x.op == "num" and x.args[0] >= 0 and x.args[0].denominator == 1
        if b.op == "update" and lit(i) and lit(b.args[1]):
            b0, j, u = b.args
            if j is i:
                return self.update_term(b0, i, v)
            if j.args[0] > i.args[0]:
                return mk("update", self.update_term(b0, i, v), j, u)
        return mk("update", b, i, v)

    def covered(self, t):
        """an array all of whose slices along one axis have been stored is the stack of the stored values"""
        i = t.args[1]
        comps = list(i.args) if i.op == "seq" else [i]
        pos = [p for p, c in enumerate(comps) if c.op == "num"]
        full = mk("slice", NONE, NONE, NONE)
        if len(pos) != 1 or any(c is not full and c.op != "ellipsis" for q, c in enumerate(comps) if q != pos[0]):
            return None
        p = pos[0]
        if any(c.op == "ellipsis" for c in comps[:p]):
            return None
        got = {}
        b = t
        while b.op == "update":
            bi = b.args[1]
            bc = list(bi.args) if bi.op == "seq" else [bi]
            if len(bc) <= p or bc[p].op != "num" or any(
                    c is not full and c.op != "ellipsis" for q, c in enumerate(bc) if q != p):
                return None
            got.setdefault(bc[p].args[0], b.args[2])
            b = b.args[0]
        if b.op != "alloc" or b.args[0].op != "seq" or len(b.args[0].args) <= p:
            return None
        shape = b.args[0]
        n = shape.args[p]
        if n.op != "num" or set(got) != set(range(int(n.args[0]))):
            return None
        return self.stack_of(p, seq(*[got[q] for q in range(int(n.args[0]))]), shape)

    def stack_of(self, p, m, shape=None):
        """stack along axis p of the elements of m; shape, if known, is that of the result"""
        if shape is not None:
            rest = [x for q, x in enumerate(shape.args) if q != p]
            if rest and m.op == "seq":
                m = seq(*[mk("alloc", seq(*rest), x) if self.is_scalar(x) and x.op != "idx" else x for x in m.args])
        if p == 0:
            r = arr(m)
        elif p == 1 and (shape is not None and len(shape.args) == 2 or shape is None):
            r = self.transpose(arr(m))
        else:
            r = T.stack(num(p), arr(m))
        if shape is not None and r.op in ("T", "stack", "arr"):
            self.symshape.setdefault(r, shape)
        return r

    def dset(self, d, k, v):
        if d.op == "dict" and all(x.op in ("str", "num", "seq") for x in d.args[::2]) and k.op in ("str", "num", "seq"):
            items = list(zip(d.args[::2], d.args[1::2]))
            items = [(a, b) for a, b in items if a is not k] + [(k, v)]
            return mk("dict", *[x for p in items for x in p])
        return mk("dset", d, k, v)

    def unpack(self, elts, v, fr):
        d = self.deref(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n = len(elts)
            for j in range(i):
                self.assign(elts[j], self.index(d, num(j)), fr)
            after = n - i - 1
            hi = NONE if after == 0 else num(-after)
            self.assign(elts[i].value, self.index(d, mk("slice", num(i) if i else NONE, hi, NONE)), fr)
            for j in range(after):
                self.assign(elts[i + 1 + j], self.index(d, num(j - after)), fr)
            return
        if d.op == "set":
            items = self.literal_items(d)
            if items is None:
                raise Opaque("set unpacking")
            d = seq(*items)
        for j, e in enumerate(elts):
            self.assign(e, self.index(d, num(j)), fr)

    # }}}

    # {{{ expressions

    def ev(self, n, fr) -> Term:
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Opaque(f"expression {type(n).__name__}")
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if v is None:
            return NONE
        if v is True or v is False:
            return boolc(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            return mul(num(v.imag), mk("imagunit"))
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return mk("ext", "numpy.inf")
            return num(v)
        if isinstance(v, str):
            return string(v)
        return opaque("constant")

    def e_JoinedStr(self, n, fr):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev_msg(v.value, fr)
        return mk("fstr")

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def name(self, name, fr):
        f = fr
        while f is not None:
            d = self.st.frames.get(f.fid)
            if d is not None and name in d:
                return d[name]
            f = f.parent
        if fr.module is not None:
            return self.modname(fr.module, name)
        return mk("ext", "builtins." + name)

    def modname(self, module, name):
        r = self.prog.lookup(module.name, name)
        if r is None:
            if hasattr(builtins, name):
                return mk("ext", "builtins." + name)
            if name == "__debug__":
                return TRUE
            if name == "__name__":
                return string(module.name)
            return undef(name)
        return self.entity(r, module.name + "." + name)

    def entity(self, r, where):
        if r is None:
            return mk("ext", where)
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            self.prog.classes.setdefault(r[1].qual, r[1])
            return mk("cls", r[1].qual)
        if r[0] == "module":
            return mk("module", r[1])
        if r[0] == "ext":
            d = EXTALIAS.get(r[1], r[1])
            return EXTCONST[d] if d in EXTCONST else mk("ext", d)
        if r[0] == "const":
            return self.module_const(r[1], r[3], r[2])
        raise Opaque("entity")

    def module_const(self, module, name, node):
        q = module.name + "." + name
        if q in self.keep:
            return mk("global", q)
        v = self.modconst.get(q)
        if v is None:
            if name.startswith("_") and name.endswith("__"):
                return mk("global", q)
            self.modconst[q] = mk("global", q)          # recursion guard
            big = not DATAMOD.search(module.name) and sum(1 for _ in ast.walk(node)) > 4000
            if big or isinstance(node, ast.Call) and (dotted(node.func) or "") in ("TypeVar",):
                v = mk("global", q)
            else:
                g, self.guard = self.guard, []
                p, self.pend = self.pend, []
                fr = self.newframe(module)
                try:
                    v = self.deep(self.ev(node, fr))
                except Opaque:
                    v = mk("global", q)
                self.guard, self.pend = g, p
            self.modconst[q] = v
        return v

    def newframe(self, module, func=None, cls=None, parent=None):
        self.nfid += 1
        f = Frame(self.nfid, module, func, cls, parent)
        self.st.frames[self.nfid] = {}
        return f

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Tuple(self, n, fr):
        return self.display(n.elts, fr)

    expand_order = None             # the entries of the tables under this key are expanded

    def expanded(self, module):
        """the nodes of a data module that belong to entries under the key expand_order"""
        k = (module.name, self.expand_order)
        if k not in self.__dict__.setdefault("expandmemo", {}):
            out = set()
            for d in ast.walk(module.tree):
                if isinstance(d, ast.Dict):
                    for key, v in zip(d.keys, d.values):
                        if isinstance(key, ast.Constant) and key.value == self.expand_order and type(key.value) is int:
                            out |= {id(x) for x in ast.walk(v)}
            self.expandmemo[k] = out
        return self.expandmemo[k]

    def table(self, n, fr):
        """a list of numbers in a data module, as a leaf of known shape"""
        if fr.module is None or not DATAMOD.search(fr.module.name):
            return None
        if self.expand_order is not None and id(n) in self.expanded(fr.module):
            return None

        def shape(x):
            if isinstance(x, ast.List):
                ss = {shape(e) for e in x.elts}
                if len(ss) != 1 or None in ss:
                    return None
                return (len(x.elts), *ss.pop())
            if isinstance(x, ast.UnaryOp):
                x = x.operand
            return () if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) else None

        sh = shape(n)
        if sh is None or len(sh) > 2:
            return None
        t = mk("table", f"{fr.module.name}:{n.lineno}:{n.col_offset}", *sh)
        self.symshape[t] = seq(*[num(d) for d in sh])
        return t

    def e_List(self, n, fr):
        t = self.table(n, fr)
        if t is not None:
            return t
        return self.newref(self.display(n.elts, fr))

    def e_Set(self, n, fr):
        return mk("set", *sorted({self.deref(self.ev(e, fr)) for e in n.elts}, key=lambda t: t.id))

    def display(self, elts, fr):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(self.as_seq(self.deref(self.ev(e.value, fr))))
            else:
                parts.append(seq(self.ev(e, fr)))
        if all(p.op == "seq" for p in parts):
            return seq(*[x for p in parts for x in p.args])
        return concat(*parts)

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Opaque("dict unpacking")
            items += [self.deep(self.ev(k, fr)), self.ev(v, fr)]
        return self.newref(mk("dict", *items))

    def e_Lambda(self, n, fr):
        return self.closure(n, fr)

    def closure(self, node, fr):
        cid = len(self.closures)
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else None for d in a.kw_defaults]
        self.closures[cid] = (node, fr, defaults, kwd)
        f = fr
        while f is not None:
            self.captured.add(f.fid)
            f = f.parent
        return mk("closure", cid)

    def e_IfExp(self, n, fr):
        c = self.simp(truthy(self.deref(self.ev(n.test, fr))))
        if c is TRUE:
            return self.ev(n.body, fr)
        if c is FALSE:
            return self.ev(n.orelse, fr)
        base = self.st
        self.st = base.copy()
        self.guard.append(c)
        a = self.ev(n.body, fr)
        sa = self.st
        self.guard[-1] = not_(c)
        self.st = base.copy()
        b = self.ev(n.orelse, fr)
        sb = self.st
        self.guard.pop()
        self.st = self.merge(c, sa, sb)
        if a is b:
            return a
        if a.op == "ref" or b.op == "ref":
            self.st, s = sa, self.st
            a = self.deref(a)
            self.st = sb
            b = self.deref(b)
            self.st = s
        return ite(c, a, b)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        vals = []
        pushed = 0
        for i, e in enumerate(n.values):
            v = self.deref(self.ev(e, fr))
            vals.append(v)
            if i < len(n.values) - 1:
                t = self.simp(truthy(v))
                if isand and t is FALSE or not isand and t is TRUE:
                    break
                self.guard.append(t if isand else not_(t))
                pushed += 1
        for _ in range(pushed):
            self.guard.pop()
        ts = [self.simp(truthy(v)) for v in vals]
        if all(is_bool(v) for v in vals):
            return and_(*ts) if isand else or_(*ts)
        r = vals[-1]
        for v, t in zip(reversed(vals[:-1]), reversed(ts[:-1])):
            r = ite(t, r, v) if isand else ite(t, v, r)
        return r

    def e_UnaryOp(self, n, fr):
        v = self.deref(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            return not_(truthy(v))
        if isinstance(n.op, ast.USub):
            return self.lift1(neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if v.op == "mv":
                from . import models
                return models.mv_rev(v)
            return self.lift1(lambda x: not_(x) if is_bool(x) else mk("invert", x), v)
        raise Opaque("unary")

    def e_BinOp(self, n, fr):
        a = self.deref(self.ev(n.left, fr))
        b = self.deref(self.ev(n.right, fr))
        return self.binop(n.op, a, b)

    def is_scalar(self, t):
        if t.op in ("num", "true", "false", "pi", "size", "gamma", "entry", "uninit", "imagunit"):
            return True
        if t.op == "sym":
            return t.args[1] in SCALARK
        if t.op == "bv":
            return True
        if t.op in ("add", "mul", "pow", "floordiv", "mod", "abs", "max", "min"):
            return all(self.is_scalar(a) for a in t.args)
        if t.op == "ite":
            return self.is_scalar(t.args[1]) and self.is_scalar(t.args[2])
        if t.op in ("sum", "prod"):
            m = t.args[0]
            return m.op == "map" and self.is_scalar(m.args[2])
        if t.op == "idx":
            b = unarr(t.args[0])
            if b.op == "sym" and b.args[1] in ("vec", "ntuple") and t.args[1].op not in ("slice", "seq"):
                return True
        if t.op == "fn":
            return all(self.is_scalar(a) for a in t.args[1:])
        if t.op == "call" and t.args[0].op in ("func", "ext"):
            return self.kind(t) in ("real", "nat", "int")
        return is_int(t) or is_bool(t)

    def lift1(self, f, a):
        if a.op == "ite":
            return ite(a.args[0], self.lift1(f, a.args[1]), self.lift1(f, a.args[2]))
        if isarr(a):
            s = a.args[0]
            if s.op == "seq":
                return arr(seq(*[self.lift1(f, self.mkarr(x)) for x in s.args]))
            if s.op == "map":
                return arr(map_(s.args[0], s.args[1], self.lift1(f, self.mkarr(s.args[2]))))
            if s.op == "concat":
                return arr(concat(*[unarr(self.lift1(f, arr(p))) for p in s.args]))
        if a.op == "alloc" and a.args[1].op == "num":
            return mk("alloc", a.args[0], f(a.args[1]))
        return f(a)

    def mkarr(self, x):
        """elements of an array that are lists are arrays too"""
        return arr(x) if x.op in ("seq", "map", "concat") else x

    def lift2(self, f, a, b):
        """elementwise application with broadcasting against scalars"""
        if (isarr(a) or isarr(b)) and T.height(a) < 400 and T.height(b) < 400:
            la, lb = lit.get(self, a), lit.get(self, b)
            if la is not None and lb is not None:
                try:
                    return lit.put(self, lit.zip2(f, la, lb))
                except lit.Bad as e:
                    self.raise_(TRUE, e.args[0])
                    return opaque("shapes do not broadcast")
        if a.op == "alloc" and a.args[1].op == "num" and not b.op == "alloc":
            if not self.is_scalar(b):
                a = a.args[1]
            else:
                return mk("alloc", a.args[0], f(a.args[1], b))
        if b.op == "alloc" and b.args[1].op == "num" and a.op != "alloc":
            if not self.is_scalar(a):
                b = b.args[1]
            else:
                return mk("alloc", b.args[0], f(a, b.args[1]))
        if isarr(a) or isarr(b):
            x, y = a, b
            if isarr(a) and isarr(b):
                s, t = a.args[0], b.args[0]
                ra, rb = self.rank(s), self.rank(t)
                if ra is not None and rb is not None and ra > rb:
                    return self.lift_first(lambda e: self.lift2(f, e, b), s)
                if ra is not None and rb is not None and rb > ra:
                    return self.lift_first(lambda e: self.lift2(f, a, e), t)
                if size(s) is size(t) or s.op == "map" and t.op == "map":
                    if s.op == "seq" or t.op == "seq":
                        n = len(s.args) if s.op == "seq" else len(t.args)
                        return arr(seq(*[self.lift2(f, self.mkarr(idx(s, num(i))), self.mkarr(idx(t, num(i))))
                                         for i in range(n)]))
                    k = fresh("e", "nat")
                    return arr(map_(size(s), k, self.lift2(f, self.mkarr(idx(s, k)), self.mkarr(idx(t, k)))))
                return f(a, b)
            if isarr(a) and self.is_scalar(b):
                return self.lift_first(lambda e: self.lift2(f, e, b), a.args[0])
            if isarr(b) and self.is_scalar(a):
                return self.lift_first(lambda e: self.lift2(f, a, e), b.args[0])
            # rows against a vector
            if isarr(a) and not isarr(b) and self.kind(b) == "vec" and (self.rank(a) or 0) >= 2:
                return self.lift_first(lambda e: self.lift2(f, e, b), a.args[0])
            if isarr(b) and not isarr(a) and self.kind(a) == "vec" and (self.rank(b) or 0) >= 2:
                return self.lift_first(lambda e: self.lift2(f, a, e), b.args[0])
        return f(a, b)

    def lift_first(self, g, s):
        if s.op == "seq":
            return arr(seq(*[g(self.mkarr(x)) for x in s.args]))
        if s.op == "map":
            return arr(map_(s.args[0], s.args[1], g(self.mkarr(s.args[2]))))
        if s.op == "concat":
            return arr(concat(*[unarr(self.lift_first(g, p)) for p in s.args]))
        return g(arr(s))

    def rank(self, s):
        s = unarr(s)
        if s.op == "seq":
            if not s.args:
                return 1
            r = self.rank(s.args[0])
            return None if r is None else r + 1
        if s.op == "map":
            r = self.rank(s.args[2])
            return None if r is None else r + 1
        if s.op == "concat":
            return self.rank(s.args[0])
        if self.is_scalar(s):
            return 0
        k = self.kind(s)
        return {"vec": 1, "mat": 2, "real": 0}.get(k)

    def binop(self, op, a, b):
        st = T._strict((a, b))
        if st is not None:
            return st
        if a.op == "mv" or b.op == "mv":
            from . import models
            r = models.mv_binop(self, op, a, b)
            return r if r is not None else mk("mvop", string(type(op).__name__), a, b)
        if a.op == "obj" or b.op == "obj":
            m = OPERATORS.get(type(op))
            r = m and self.dunder(a, b, f"__{m}__", f"__r{m}__")
            if r:
                return r
        if isinstance(op, ast.Add):
            if self.is_list(a) or self.is_list(b):
                return concat(self.as_seq(a), self.as_seq(b))
            if a.op in ("str", "fstr") or b.op in ("str", "fstr"):
                return mk("fstr")
            return self.lift2(add, a, b)
        if isinstance(op, ast.Sub):
            if a.op == "set" and b.op == "set" and all(x.op in ("num", "str") for x in a.args + b.args):
                return mk("set", *[x for x in a.args if x not in b.args])
            return self.lift2(sub, a, b)
        if isinstance(op, ast.Mult):
            if a.op in SEQLIKE and (b.op in SEQLIKE or b.op in ("none", "str", "obj", "dict")):
                self.raise_(TRUE, "TypeError")
                return opaque("repetition by something that is not a number")
            if a.op in SEQLIKE:
                return rep(a, b)
            if b.op in SEQLIKE:
                return rep(b, a)
            return self.lift2(mul, a, b)
        if isinstance(op, ast.Div):
            if is_num(b, 0) and isarr(a) and lit.get(self, a) is not None:
                # numpy warns and goes on
                return self.lift2(lambda x, y: mk("nan"), a, b)
            return self.lift2(div, a, b)
        if isinstance(op, ast.FloorDiv):
            return self.lift2(floordiv, a, b)
        if isinstance(op, ast.Mod):
            if a.op == "str":
                return mk("fstr")
            return self.lift2(mod, a, b)
        if isinstance(op, ast.Pow):
            return self.lift2(power, a, b)
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and (isarr(a) or isarr(b)):
            return self.lift2(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(op, ast.BitAnd):
            if is_bool(a) and is_bool(b):
                return and_(a, b)
            if is_int(a) and is_num(b, 1):
                return mod(a, TWO)
            return mk("bitand", *sorted((a, b), key=lambda t: t.id))
        if isinstance(op, ast.BitOr):
            if is_bool(a) and is_bool(b):
                return or_(a, b)
            return mk("bitor", *sorted((a, b), key=lambda t: t.id))
        return mk("binop" + type(op).__name__, a, b)

    def dunder(self, a, b, m, rm):
        """value of the operator method of *a*, or of the reflected one of *b*; None if neither class has one"""
        found = False
        for x, y, n in ((a, b, m), (b, a, rm)):
            c = self.prog.classes.get(x.args[0]) if x.op == "obj" else None
            f = c and self.prog.method(c, n)
            if not f:
                continue
            r = self.deref(self.call_func(f, [x, y], {}))
            found = True
            k = _declined(r)
            if k is TRUE:
                continue
            if k is FALSE:
                return r
            self.raise_(k, "TypeError")
            return _accepted(r)
        if found:
            self.raise_(TRUE, "TypeError")
            return opaque("operator not defined for these operands")
        return None

    def matmul(self, a, b):
        sa, sb = unarr(a), unarr(b)
        # small literal matrices times literal vectors
        if sa.op == "seq" and sb.op == "seq" and all(self.is_scalar(x) for x in sa.args) and all(
                self.is_scalar(x) for x in sb.args) and len(sa.args) == len(sb.args):
            return add(*[mul(x, y) for x, y in zip(sa.args, sb.args)])
        try:
            r = lit.matmul_(self, a, b)
        except lit.Bad as e:
            self.raise_(TRUE, e.args[0])
            return opaque("shapes do not match")
        return r if r is not None else matmul(a, b)

    def is_list(self, t):
        if t.op in SEQLIKE:
            return True
        if t.op == "ite":
            return self.is_list(t.args[1]) and self.is_list(t.args[2])
        if t.op == "attr" and t.args[1] == "shape":
            return True
        if t.op == "idx" and t.args[1].op == "slice":
            return self.is_list(t.args[0])
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.tuple", "builtins.list", "builtins.sorted"):
            return True
        return self.kind(t) in ("seq", "ntuple")

    def as_seq(self, t):
        return unarr(t)

    def e_Compare(self, n, fr):
        left = self.deref(self.ev(n.left, fr))
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.deref(self.ev(r, fr))
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*[truthy(o) for o in out])

    def compare(self, op, a, b):
        name = type(op).__name__
        if name in ("Eq", "NotEq") and (a.op == "obj" or b.op == "obj"):
            if a.op == "obj" and b.op == "obj":
                c = self.same_objects(self.deep(a), self.deep(b))
            else:
                o, x = (a, b) if a.op == "obj" else (b, a)
                ks = o.args[0] in self.prog.classes and self.prog.mro(self.prog.classes[o.args[0]])
                if ks and not all(isinstance(k, Class) or getattr(k, "args", [None])[0] == "builtins.object" for k in ks):
                    ks = None
                r = self.rich(o, x, "__eq__") if ks else None
                if r is not None:
                    c = truthy(r)
                elif ks and (is_int(x) or x.op in ("num", "str", "none", "pi") or x.op == "sym" and x.args[1] in SCALARK or self.is_scalar(x) and x.op in ("add", "mul", "abs")):
                    c = FALSE           # identity of an object and a number
                else:
                    c = mk("same", *sorted((a, b), key=lambda t: t.id))
            return c if name == "Eq" else not_(c)
        if name in ("Is", "IsNot"):
            c = self.is_(a, b)
            return c if name == "Is" else not_(c)
        if name in ("In", "NotIn"):
            c = self.in_(a, b)
            return c if name == "In" else not_(c)
        a, b = self.deep(a), self.deep(b)
        if name in ("Eq", "NotEq") and a.op == "seq" and b.op == "seq" and any(x.op == "obj" for x in a.args + b.args):
            c = FALSE if len(a.args) != len(b.args) else and_(*[self.same_items(x, y) for x, y in zip(a.args, b.args)])
            return c if name == "Eq" else not_(c)
        if name in ("Lt", "LtE", "Gt", "GtE") and (symbolic(a) or symbolic(b)):
            self.raise_(TRUE, "TypeError")
            return opaque("symbolic expressions have no order")
        f = {"Eq": eq, "NotEq": lambda x, y: not_(eq(x, y)), "Lt": lt, "LtE": le,
             "Gt": lambda x, y: lt(y, x), "GtE": lambda x, y: le(y, x)}[name]
        if name in ("Lt", "LtE", "Gt", "GtE") and (a.op == "obj" or b.op == "obj"):
            m = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
            r = self.rich(a, b, m[name])
            if r is None:
                r = self.rich(b, a, m[{"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}[name]])
            if r is not None:
                return r
            if all(x.op in ("obj", "num", "str", "sym") for x in (a, b)):
                self.raise_(TRUE, "TypeError")
                return opaque("values that have no order")
            return mk("cmp" + name, a, b)
        if isarr(a) or isarr(b):
            return self.lift2(f, a, b)
        return f(a, b)

    def same_items(self, a, b):
        return TRUE if a is b else truthy(self.compare(ast.Eq(), a, b))

    def same_objects(self, a, b):
        if a is b:
            return TRUE
        r = self.rich(a, b, "__eq__")
        if r is None:
            r = self.rich(b, a, "__eq__")
        if r is not None:
            return truthy(r)
        ca, cb = self.prog.classes.get(a.args[0]), self.prog.classes.get(b.args[0])
        if ca is None or cb is None:
            return mk("same", *sorted((a, b), key=lambda t: t.id))
        d = next((k.dataclass for k in self.prog.mro(ca) if isinstance(k, Class) and k.dataclass is not None and k.dataclass.get("eq", True)), None)
        if d is None or ca is not cb:
            # identity: two objects of different contents are different objects
            if d is None and not any(isinstance(k, Class) and "__eq__" in k.methods for c in (ca, cb) for k in self.prog.mro(c)):
                return FALSE
            return FALSE if ca is not cb and self.plain_eq(ca) and self.plain_eq(cb) else mk("same", *sorted((a, b), key=lambda t: t.id))
        fa, fb = (dict(zip(x.args[1::2], x.args[2::2])) for x in (a, b))
        fs = list(self.dataclass_fields(ca))
        if any(f not in fa or f not in fb for f in fs):
            return mk("same", *sorted((a, b), key=lambda t: t.id))
        return and_(*[self.same_items(fa[f], fb[f]) for f in fs])

    def plain_eq(self, c):
        return not any(isinstance(k, Class) and "__eq__" in k.methods for k in self.prog.mro(c))

    def rich(self, a, b, m):
        """result of the comparison method *m* of *a*; None if it has none or it returns NotImplemented"""
        c = self.prog.classes.get(a.args[0]) if a.op == "obj" else None
        fn = c and self.prog.method(c, m)
        if not fn:
            return None
        r = self.deep(self.call_func(fn, [a, b], {}))
        return None if r.op == "ext" and r.args[0] == "builtins.NotImplemented" else r

    def is_(self, a, b):
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x.op == "ite":
                return ite(x.args[0], self.is_(x.args[1], NONE), self.is_(x.args[2], NONE))
            if x.op == "sym" and x.args[1] in ("any", "opt") or x.op in ("idx", "attr", "call", "opaque"):
                k = self.kind(x)
                if k in ("any", "opt", None):
                    if x.op == "call" and k is None:
                        return FALSE
                    return mk("same", *sorted((x, NONE), key=lambda t: t.id))
            return FALSE
        F = ("func", "closure", "lam", "ext", "cls")
        for x, y in ((a, b), (b, a)):
            if x.op in F and (y.op in ("obj", "num", "seq", "str", "set", "dict") or y.op in F and x.op != y.op):
                return FALSE
        return eq(a, b)

    def in_(self, a, b):
        b2 = unarr(b)
        if b2.op in ("seq", "set"):
            return or_(*[eq(a, x) for x in b2.args])
        if b2.op == "dict":
            return or_(*[eq(a, x) for x in b2.args[::2]])
        if b2.op == "str" and a.op == "str":
            return boolc(a.args[0] in b2.args[0])
        if b2.op in ("dictmap", "dset", "global") or self.kind(b2) == "dict":
            return mk("haskey", b, a)
        return mk("in", a, b)

    def e_Subscript(self, n, fr):
        b = self.deref(self.ev(n.value, fr))
        i = self.ev_index(n.slice, fr)
        return self.index(b, i)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.deref(self.ev(x, fr))
            lo, hi, st = f(n.lower), f(n.upper), f(n.step)
            if lo is not NONE and is_num(lo, 0) and (st is NONE or st.op == "num" and st.args[0] > 0):
                lo = NONE
            if is_num(st, 1):
                st = NONE
            return mk("slice", lo, hi, st)
        if isinstance(n, ast.Tuple):
            items = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    s = self.as_seq(self.deref(self.ev(e.value, fr)))
                    if s.op != "seq":
                        raise Opaque("starred index")
                    items += s.args
                else:
                    items.append(self.ev_index(e, fr))
            return mk("seq", *items)
        v = self.ev(n, fr)
        d = self.deep(v)
        if v.op == "ref" and d.op in ("seq", "map"):
            return arr(d)                               # a list of positions
        return d

    def index(self, b, i):
        b = self.deref(b)
        if i.op == "obj" and b.op in ("seq", "arr"):
            c = self.prog.classes.get(i.args[0])
            m = c and self.prog.method(c, "__index__")
            if m:
                i = self.deep(self.call_func(m, [i], {}))
                if isbot(i):
                    return i
        if b.op == "ite":
            c = b.args[0]
            self.guard.append(c)
            x = self.index(b.args[1], i)
            self.guard[-1] = not_(c)
            y = self.index(b.args[2], i)
            self.guard.pop()
            return ite(c, x, y)
        if b.op == "cls" or b.op == "ext" and not b.args[0].startswith("modepy"):
            return b                                    # generic aliases: list[int]
        if b.op == "seq" and i.op == "ite":
            return ite(i.args[0], self.index(b, i.args[1]), self.index(b, i.args[2]))
        if b.op == "dict":
            return self.dict_get(b, i)
        if b.op in ("dictmap", "dset") or self.kind(b) == "dict":
            if self.catches("KeyError"):
                self.raise_(not_(mk("haskey", b, i)), "KeyError")
            return mk("dget", b, i)
        if b.op == "global":
            if self.catches("KeyError"):
                self.raise_(not_(mk("haskey", b, i)), "KeyError")
            return mk("idx", b, i)
        if isarr(i) and i.args[0].op == "seq" and i.args[0].args and all(x in (TRUE, FALSE) for x in i.args[0].args) and not isarr(b):
            # a mask along the first axis selects rows; its length has to be that of the axis
            n = self.shape_of(b)
            if n is not None and n.op == "seq" and n.args:
                bad = not_(eq(n.args[0], num(len(i.args[0].args))))
                if bad != FALSE:
                    self.raise_(bad, "IndexError")
                i = arr(seq(*[num(k) for k, x in enumerate(i.args[0].args) if x == TRUE]))
        w = isarr(b)
        if (w or b.op == "alloc") and i.op != "num":
            try:
                r = lit.index(self, b, i)
            except lit.Bad as e:
                self.raise_(TRUE, e.args[0])
                return opaque("index error")
            if r is not None:
                return r
        s = unarr(b)
        if s.op == "seq" and i.op not in ("num", "slice", "seq", "none", "ellipsis") and not is_bool(i) and not isarr(i):
            n = len(s.args)
            if self.catches("IndexError"):
                self.raise_(or_(lt(i, num(-n)), le(num(n), i)), "IndexError")
            if is_int(i) and n <= 24:
                i2 = i
                r = None
                for k in reversed(range(n)):
                    r = s.args[k] if r is None else ite(eq(i2, num(k)), s.args[k], r)
                if any(True for _ in [0]) and self.maybe_neg(i):
                    for k in range(1, n + 1):
                        r = ite(eq(i2, num(-k)), s.args[-k], r)
                if r is not None:
                    return self.mkarr(r) if w else r
        if self.catches("IndexError") and s.op in ("map", "concat", "sym", "attr") and is_int(i):
            self.raise_(or_(le(size(s), i), lt(i, neg(size(s)))), "IndexError")
        if s.op in ("update", "alloc"):
            return self.index_store(s, i)
        if s.op == "arrsum":
            pass
        if isarr(i):
            ii = i.args[0]
            if ii.op == "seq" and w:
                return arr(seq(*[idx(s, x) for x in ii.args]))
        if w and i.op == "seq" and len(i.args) > 1:
            r = self.multi_index(s, list(i.args))
            if r is not None:
                return r
        r = idx(s if w else b, i)
        if isbot(r):
            self.raise_(TRUE, r.args[0])
            return opaque("index error")
        if w:
            return self.mkarr(r)
        return r

    def maybe_neg(self, i):
        return not is_nonneg(i)

    def multi_index(self, s, items):
        """literal-size array indexing x[i, j] with integers and full slices"""
        if any(x.op in ("none", "ellipsis") or is_bool(x) for x in items):
            return None
        if items[0].op == "slice":
            if items[0].args != (NONE, NONE, NONE) and s.op != "seq":
                return None
            t = idx(s, items[0])
            if len(items) == 1:
                return arr(t)
            if t.op == "seq":
                sub_ = [self.multi_index(unarr(x), items[1:]) if x.op in ("seq", "map", "arr") else None for x in t.args]
                if any(x is None for x in sub_):
                    return None
                return arr(seq(*[unarr(x) for x in sub_]))
            if t.op == "map" and t.args[2].op in ("seq", "map", "arr"):
                r = self.multi_index(unarr(t.args[2]), items[1:])
                if r is None:
                    return None
                return arr(map_(t.args[0], t.args[1], unarr(r)))
            return None
        if items[0].op in ("seq", "arr"):
            return None
        t = idx(s, items[0])
        if isbot(t):
            return None
        if len(items) == 1:
            return self.mkarr(t)
        if t.op in ("seq", "map", "concat", "arr"):
            return self.multi_index(unarr(t), items[1:])
        return None

    def index_store(self, s, i):
        """read from an array built by stores"""
        if s.op == "update":
            b, j, v = s.args
            if j is i:
                return v
            d = self.disjoint(i, j)
            if d:
                return self.index(b, i)
        if s.op == "alloc":
            shp_, fill = s.args
            if fill.op == "num" and i.op not in ("slice", "seq", "none") and shp_.op == "seq":
                if len(shp_.args) == 1:
                    return fill
                return mk("alloc", seq(*shp_.args[1:]), fill)
            if fill.op == "num" and i.op == "seq" and shp_.op == "seq" and len(i.args) == len(shp_.args) and all(
                    is_int(x) for x in i.args):
                return fill
        return idx(s, i)

    def disjoint(self, i, j):
        if i.op == "num" and j.op == "num":
            return i is not j
        if i.op == "seq" and j.op == "seq" and len(i.args) == len(j.args):
            return any(self.disjoint(x, y) for x, y in zip(i.args, j.args))
        if is_int(i) and is_int(j):
            return eq(i, j) is FALSE
        return False

    def dict_get(self, d, k, default=None):
        ks, vs = d.args[::2], d.args[1::2]
        for a, v in zip(ks, vs):
            if a is k:
                return v
        lit = all(a.op in ("num", "str", "seq") for a in ks)
        if k.op in ("num", "str", "seq") and lit:
            if default is not None:
                return default
            self.raise_(TRUE, "KeyError")
            return opaque("KeyError")
        cond = or_(*[eq(k, a) for a in ks])
        r = default
        if r is None:
            self.raise_(not_(cond), "KeyError")
        for a, v in zip(reversed(ks), reversed(vs)):
            r = v if r is None else ite(eq(k, a), v, r)
        return r if r is not None else opaque("empty dict")

    # }}}

    # {{{ attributes

    def kind(self, t):
        """static kind of a term: sym kinds, 'obj:Q', 'seq', ..."""
        if t.op == "sym":
            return t.args[1]
        if t.op == "table":
            return "vec" if len(t.args) == 2 else "mat"
        if t.op == "attr":
            k = self.kind(t.args[0])
            if k and k.startswith("obj:"):
                q = k[4:]
                c = self.prog.classes.get(q)
                while True:
                    r = ATTRKIND.get((q, t.args[1])) or self.kinds.get((q, t.args[1]))
                    if r:
                        return r
                    if c is None:
                        break
                    bs = [b for b in self.prog.mro(c) if isinstance(b, Class)]
                    for b in bs:
                        r = ATTRKIND.get((b.qual, t.args[1])) or self.kinds.get((b.qual, t.args[1]))
                        if r:
                            return r
                    break
            return None
        if t.op == "idx":
            k = self.kind(t.args[0])
            if k and k.startswith("seq:"):
                if t.args[1].op == "slice":
                    return k
                return k[4:]
            return None
        if t.op == "call":
            f = t.args[0]
            if f.op in ("func", "cls"):
                q = f.args[0]
                if f.op == "cls":
                    return "obj:" + q
                if q in POINTWISE and len(t.args[1].args) > POINTWISE[q][0]:
                    x = t.args[1].args[POINTWISE[q][0]]
                    return "real" if self.is_scalar(x) else self.kind(x)
                return RETKIND.get(q) or self.kinds.get(q)
            if f.op == "ext":
                return RETKIND.get(f.args[0])
            return None
        if t.op == "obj":
            return "obj:" + t.args[0]
        if t.op == "ite":
            a, b = self.kind(t.args[1]), self.kind(t.args[2])
            return a if a == b else None
        if t.op in SEQLIKE:
            return "seq"
        if t.op in ("dict", "dictmap", "dset"):
            return "dict"
        return None

    def e_Attribute(self, n, fr):
        b = self.ev(n.value, fr)
        return self.getattr_(b, n.attr, n, fr)

    def getattr_(self, b, name, node=None, fr=None):
        if b.op == "ref":
            o = self.st.heap.get(b.args[0])
            if o is not None and o.op == "obj":
                return self.obj_attr(b, o, name)
            b0, b = b, self.deref(b)
        if b.op == "ite":
            c = b.args[0]
            self.guard.append(c)
            x = self.getattr_(b.args[1], name, node, fr)
            self.guard[-1] = not_(c)
            y = self.getattr_(b.args[2], name, node, fr)
            self.guard.pop()
            if x.op == "ref" or y.op == "ref":
                x, y = self.deref(x), self.deref(y)
            return ite(c, x, y)
        if b.op == "obj":
            return self.obj_attr(b, b, name)
        if b.op == "module":
            r = self.prog.resolve_import(b.args[0], name)
            if r is None:
                return undef(f"{b.args[0]}.{name}")
            return self.entity(r, f"{b.args[0]}.{name}")
        if b.op == "ext":
            d = b.args[0] + "." + name
            d = EXTALIAS.get(d, d)
            if d in EXTCONST:
                return EXTCONST[d]
            return mk("ext", d)
        if b.op == "cls":
            c = self.prog.classes.get(b.args[0])
            if c is not None:
                if name == "__name__" or name == "__qualname__":
                    return string(c.qual.split(".")[-1])
                if name == "__init__":
                    for k in self.prog.mro(c):
                        if isinstance(k, Class) and "__init__" in k.methods:
                            break
                        if isinstance(k, Class) and k.dataclass and k.dataclass.get("init", True):
                            return mk("dcinit", k.qual)
                f = self.prog.method(c, name)
                if f is not None:
                    if self.isstatic(f):
                        return mk("func", f.qual)
                    if self.isclassmethod(f):
                        return mk("bound", mk("func", f.qual), b)
                    return mk("func", f.qual)
                k = self.prog.class_const(c, name)
                if k:
                    fr2 = self.newframe(k[0].module)
                    return self.ev(k[1], fr2)
                if any(isinstance(x, str) for x in self.prog.mro(c)) and name in ("__new__", "__init__"):
                    return mk("ext", f"builtins.object.{name}")
            self.raise_(TRUE, "AttributeError")
            return undef(f"{b.args[0]}.{name}")
        if b.op == "typeof":
            if name in ("__name__", "__qualname__", "__module__", "__mro__", "__doc__", "__new__", "__init__"):
                return mk("fstr")
            self.raise_(TRUE, "AttributeError")
            return undef(name)
        if b.op == "undef":
            return b
        return self.value_attr(b, name)

    def isstatic(self, f):
        return any((dotted(d) or "").split(".")[-1] == "staticmethod" for d in f.decorators)

    def isclassmethod(self, f):
        return any((dotted(d) or "").split(".")[-1] == "classmethod" for d in f.decorators)

    def isprop(self, f):
        return any((dotted(d) or "").split(".")[-1] in ("property", "cached_property", "memoize_in") or
                   (dotted(d) or "").split(".")[-1] == "keyed_memoize" for d in f.decorators)

    def obj_attr(self, ref, o, name):
        for k, v in zip(o.args[1::2], o.args[2::2]):
            if k == name:
                return v
        if name == "__class__":
            return mk("cls", o.args[0])
        c = self.prog.classes.get(o.args[0])
        if c is None:
            return attr(o, name)
        f = self.prog.method(c, name)
        if f is not None:
            if self.isprop(f):
                return self.call_func(f, [ref], {})
            if self.isstatic(f):
                return mk("func", f.qual)
            return mk("bound", mk("func", f.qual), ref)
        k = self.prog.class_const(c, name)
        if k:
            return self.ev(k[1], self.newframe(k[0].module))
        if name == "__dict__":
            return mk("objdict", o)
        if self.prog.class_const(c, "STAND_IN"):
            raise Opaque(f"the stand-in has no {name}")
        self.raise_(TRUE, "AttributeError")
        return undef(f"{o.args[0]}.{name}")

    def value_attr(self, b, name):
        k = self.kind(b)
        if k and k.startswith("obj:"):
            q = k[4:]
            c = self.prog.classes.get(q)
            if c is not None:
                f = self.prog.method(c, name)
                if f is not None and self.isprop(f) and f.qual in self.expand:
                    return self.call_func(f, [b], {})
                if f is not None and not self.isprop(f):
                    return mk("bound", mk("attr", b, name), b) if False else mk("attr", b, name)
            if self.catches("AttributeError"):
                self.raise_(not_(mk("hasattr", b, string(name))), "AttributeError")
            return mk("attr", b, name)
        if b is NONE and not name.startswith("__"):
            self.raise_(TRUE, "AttributeError")
            return undef(f"None.{name}")
        if name == "T":
            return self.transpose(b)
        if name == "shape":
            return self.shape_of(b)
        if name == "ndim":
            r = self.rank(b)
            if r is not None:
                return num(r)
            s = self.shape_of(b)
            if s.op == "seq":
                return num(len(s.args))
            return mk("attr", b, "ndim")
        if name == "size":
            s = self.shape_of(b)
            if s.op == "seq" and len(s.args) == 1:
                return s.args[0]
            return mk("attr", b, "size")
        if b.op == "finfo":
            if name in ("eps", "resolution", "tiny", "smallest_normal"):
                return num(Fraction(1, 2**52))
            return mk("attr", b, name)
        if name in ("real", "imag"):
            f1 = lambda x: T._REBUILD["fn"](name, x)
            return self.lift1(f1, b) if isarr(b) and lit.get(self, b) is not None else f1(b)
        if self.catches("AttributeError") and k in (None, "any"):
            self.raise_(not_(mk("hasattr", b, string(name))), "AttributeError")
        return attr(b, name) if not isarr(b) else mk("attr", b, name)

    def transpose(self, b):
        if b.op == "ite":
            return ite(b.args[0], self.transpose(b.args[1]), self.transpose(b.args[2]))
        s = unarr(b)
        sh = self.lit_shape(b) if isarr(b) or b.op == "alloc" else None
        if sh is not None and 0 in sh and len(sh) > 1:
            return mk("alloc", seq(*[num(d) for d in reversed(sh)]), ZERO)
        if s.op == "seq" and s.args and isarr(b):
            rows = [unarr(r) for r in s.args]
            r = lit.transpose_(self, b)
            if r is not None:
                return r
            if all(r.op == "seq" for r in rows) and len({len(r.args) for r in rows}) == 1:
                return arr(seq(*[seq(*c) for c in zip(*[r.args for r in rows])]))
            if self.rank(s) == 1:
                return b
        if isarr(b):
            r = self.rank(b)
            if r == 1:
                return b
            if s.op == "map" and s.args[2].op == "seq" and self.rank(s.args[2]) == 1:
                n, v, body = s.args
                return arr(seq(*[map_(n, v, x) for x in body.args]))
            if s.op == "seq" and s.args and all(x.op == "map" for x in map(unarr, s.args)):
                ms = [unarr(x) for x in s.args]
                if len({m.args[0] for m in ms}) == 1:
                    kk = fresh("t", "nat")
                    return arr(map_(ms[0].args[0], kk, seq(*[idx(m, kk) for m in ms])))
            return mk("T", b) if b.op != "T" else b.args[0]
        if b.op in ("alloc",):
            return mk("alloc", seq(*reversed(b.args[0].args)), b.args[1])
        if self.rank(b) == 1 or self.is_scalar(b):
            return b
        if b.op == "mul" or b.op == "add":
            # elementwise arithmetic: transposing commutes with scalar factors; 1D operands broadcast differently
            if all(self.is_scalar(a) or self.kind(a) == "mat" or a.op in ("T", "matmul", "inv") for a in b.args):
                f = mul if b.op == "mul" else add
                return f(*[a if self.is_scalar(a) else self.transpose(a) for a in b.args])
        return transpose(b)

    def shape_of(self, b):
        if b.op == "ite":
            return ite(b.args[0], self.shape_of(b.args[1]), self.shape_of(b.args[2]))
        s = unarr(b)
        if s.op == "alloc":
            return s.args[0]
        if s.op == "update":
            return self.shape_of(s.args[0])
        if isarr(b) and s.op == "seq":
            sh = self.lit_shape(b)
            if sh is not None:
                return seq(*[num(d) for d in sh])
        if b in self.symshape:
            return self.symshape[b]
        if s in self.symshape:
            return self.symshape[s]
        if s.op in ("seq", "map", "concat") and self.rank(s) == 1:
            return seq(size(s))
        if s.op in ("seq", "map") and self.rank(s) == 2:
            e = s.args[0] if s.op == "seq" else s.args[2]
            if e.op in ("seq", "map", "concat", "arr"):
                es = size(unarr(e))
                if s.op == "seq" or s.args[1] not in free(es):
                    return seq(size(s), es)
        if s.op == "T":
            t = self.shape_of(s.args[0])
            if t.op == "seq":
                return seq(*reversed(t.args))
            return seq(idx(t, ONE), idx(t, ZERO)) if self.kind(s.args[0]) in ("mat",) else mk("attr", b, "shape")
        if s.op == "call" and s.args[0].op == "ext" and s.args[0].args[0] in ("speclib.VEC", "speclib.MAT"):
            x = self.shape_of(s.args[1].args[-1])
            n = x.args[-1] if x.op == "seq" else idx(x, NEG1)
            return seq(n) if s.args[0].args[0] == "speclib.VEC" else seq(s.args[1].args[0], n)
        if s.op == "call" and s.args[0].op == "func":
            f = SHAPES.get(s.args[0].args[0])
            if f:
                return f(self, s)
            pw = POINTWISE.get(s.args[0].args[0])
            if pw and len(s.args[1].args) > pw[0]:
                x = s.args[1].args[pw[0]]
                return seq() if self.is_scalar(x) else self.shape_of(x)
        if s.op == "inv":
            x = self.shape_of(s.args[0])
            if x.op == "seq" and len(x.args) == 2:       # square, or rejected
                k = x.args[1] if x.args[1].op == "num" else x.args[0]
                return seq(k, k)
        if isarr(b) and s.op == "seq" and s.args and all(self.kind(e) == "vec" for e in s.args):
            x = self.shape_of(s.args[0])
            if x.op == "seq" and len(x.args) == 1:
                return seq(num(len(s.args)), x.args[0])
        if s.op == "matmul":
            x, y = self.shape_of(s.args[0]), self.shape_of(s.args[-1])
            if x.op == "seq" and y.op == "seq" and len(x.args) == len(y.args) == 2:
                return seq(x.args[0], y.args[1])
        if s.op == "stack":
            ax, m = s.args
            if ax.op == "num" and m.op == "map":
                pass
        if self.kind(b) == "vec":
            return seq(size(b))
        return mk("attr", b, "shape")

    # }}}

    # {{{ comprehensions and iteration

    def e_ListComp(self, n, fr):
        return self.newref(self.comp(n, fr))

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr)

    def e_SetComp(self, n, fr):
        t = self.comp(n, fr)
        if t.op == "seq":
            return mk("set", *sorted(set(t.args), key=lambda x: x.id))
        return mk("setof", t)

    def e_DictComp(self, n, fr):
        n2 = ast.ListComp(elt=ast.Tuple([n.key, n.value], ast.Load()), generators=n.generators)
        ast.copy_location(n2, n)
        ast.fix_missing_locations(n2)
        return self.newref(self.mkdict(self.comp(n2, fr)))

    def mkdict(self, t):
        if t.op == "seq" and all(x.op == "seq" and len(x.args) == 2 for x in t.args):
            d = {}
            for x in t.args:
                d[x.args[0]] = x.args[1]
            return mk("dict", *[y for k, v in d.items() for y in (self.deep(k), v)])
        return mk("dictmap", t)

    def comp(self, n, fr, gi=0, inner=None):
        f2 = self.newframe(fr.module, fr.func, fr.cls, fr)
        f2.selfname = fr.selfname
        return self.comp_(n, f2, 0)

    def comp_(self, n, fr, gi):
        if gi == len(n.generators):
            v = self.ev(n.elt, fr)
            return v
        g = n.generators[gi]
        it = self.deref(self.consume(self.ev(g.iter, fr)))
        last = gi == len(n.generators) - 1
        lit = self.literal_items(it)
        if lit is not None:
            parts = []
            for x in lit:
                self.assign(g.target, x, fr)
                c = TRUE
                for e in g.ifs:
                    c = and_(c, self.simp(truthy(self.deref(self.ev(e, fr)))))
                if c is FALSE:
                    continue
                if c is not TRUE:
                    self.guard.append(c)
                v = self.comp_(n, fr, gi + 1)
                if c is not TRUE:
                    self.guard.pop()
                p = seq(v) if last else self.as_seq(self.deref(v))
                parts.append(p if c is TRUE else ite(c, p, seq()))
            if all(p.op == "seq" for p in parts):
                return seq(*[x for p in parts for x in p.args])
            return concat(*parts)
        if it.op == "ite":
            c = it.args[0]
            base = self.st
            self.st = base.copy()
            self.guard.append(c)
            a = self.comp_over(n, fr, gi, it.args[1])
            self.guard[-1] = not_(c)
            b = self.comp_over(n, fr, gi, it.args[2])
            self.guard.pop()
            return ite(c, a, b)
        if it.op == "concat":
            return concat(*[self.comp_over(n, fr, gi, p) for p in it.args])
        return self.comp_over(n, fr, gi, it)

    def comp_over(self, n, fr, gi, it):
        g = n.generators[gi]
        last = gi == len(n.generators) - 1
        lit = self.literal_items(it)
        if lit is not None or it.op in ("ite", "concat"):
            m = ast.ListComp(elt=n.elt, generators=list(n.generators))
            nm = f"__it{gi}"
            gg = ast.comprehension(target=g.target, iter=ast.Name(nm, ast.Load()), ifs=g.ifs, is_async=0)
            m.generators[gi] = gg
            ast.copy_location(m, n)
            ast.fix_missing_locations(m)
            self.st.frames[fr.fid][nm] = it
            return self.comp_(m, fr, gi)
        cnt, elem = self.iter_info(it)
        k = fresh("k", "nat")
        self.assign(g.target, elem(k), fr)
        mark = len(self.pend)
        gl = len(self.guard)
        kfact = lt(k, cnt)
        c = TRUE
        for e in g.ifs:
            c = and_(c, truthy(self.deref(self.ev(e, fr))))
        if c is not TRUE and c is not FALSE:
            self.guard.append(c)
        v = self.comp_(n, fr, gi + 1)
        del self.guard[gl:]
        ps = self.take(mark)
        for pc, pe in ps:
            self.pend.append((exists(cnt, k, pc) if k in free(pc) else pc, pe))
        v = self.close(self.deep(v), {k})
        if last:
            return map_(cnt, k, v) if c is TRUE else filter_(cnt, k, v, c)
        body = self.as_seq(v)
        if c is not TRUE:
            body = ite(c, body, seq())
        return flat(map_(cnt, k, body))

    def close(self, t, vars_):
        """turn closures inside a comprehension body into lambda terms, so that they depend on its variable"""
        if not contains(t, lambda x: x.op == "closure"):
            return t
        m = {}
        for x in subterms(t):
            if x.op == "closure":
                l = self.to_lam(x)
                if l is not None:
                    m[x] = l
        return replace(t, m)

    def to_lam(self, t):
        if t.op == "closure":
            node, fr, defaults, kwd = self.closures[t.args[0]]
            a = node.args
            np_ = len(a.posonlyargs + a.args) - len(defaults)
            if a.vararg or a.kwarg:
                return None
            ps = [fresh("p") for _ in range(np_)]
            v = self.pure_call(t, ps)
            return None if v is None else mk("lam", mk("args", *ps), v)
        if t.op == "func":
            f = self.func(t.args[0])
            if f is None:
                return None
            n = len(f.params) - len(f.node.args.defaults)
            if f.node.args.vararg:
                return None
            ps = [fresh("p") for _ in range(n)]
            if f.qual in self.keep:
                return None
            v = self.pure_call(t, ps)
            return None if v is None else mk("lam", mk("args", *ps), v)
        return None

    def pure_call(self, f, args):
        st, pend, guard = self.st, self.pend, self.guard
        self.st = st.copy()
        self.pend, self.guard = [], []
        try:
            v = self.deep(self.call(f, list(args), {}))
            for c, e in reversed(self.pend):
                v = ite(c, mk("raise", e), v)
            return v
        except Opaque:
            return None
        finally:
            self.st, self.pend, self.guard = st, pend, guard

    def literal_items(self, it):
        w, it = isarr(it), unarr(it)
        if it.op == "seq" and len(it.args) <= 20*MAXUNROLL:
            return [self.mkarr(x) for x in it.args] if w else list(it.args)
        if it.op == "set" and len(it.args) <= 4 and all(is_num(x) and x.args[0] in range(8) for x in it.args):
            # CPython keeps small integers in ascending order in a table of eight
            return sorted(it.args, key=lambda x: x.args[0])
        if it.op == "str":
            return [string(c) for c in it.args[0]]
        if it.op == "dict":
            return list(it.args[::2])
        if it.op == "map" and it.args[0].op == "num" and it.args[0].args[0] <= MAXUNROLL:
            return [idx(it, num(i)) for i in range(max(0, int(it.args[0].args[0])))]
        if it.op == "concat":
            out = []
            for p in it.args:
                l = self.literal_items(p)
                if l is None:
                    return None
                out += l
            return out
        return None

    def iter_info(self, it):
        it = self.deref(it)
        w = isarr(it)
        s = unarr(it)
        if s.op == "map":
            return s.args[0], (lambda k: self.mkarr(idx(s, k)) if w else idx(s, k))
        if s.op in ("dictmap",):
            m = s.args[0]
            n, e = self.iter_info(m)
            return n, lambda k: idx(e(k), ZERO)
        return size(s), (lambda k: self.index(it, k))

    # }}}

    # {{{ loops

    def x_For(self, s, fr):
        it = self.deref(self.consume(self.ev(s.iter, fr)))
        if self.lacks(it, "__iter__", "__getitem__") or it is NONE:
            self.raise_(TRUE, "TypeError")
        it = self.simp_seq(it)
        pre = self.take_local()
        lit = self.literal_items(it)
        if lit is not None:
            o = self.unrolled(s, lit, fr)
        elif it.op == "ite":
            c = it.args[0]
            base = self.st
            self.st = base.copy()
            self.guard.append(c)
            a = self.for_over(s, it.args[1], fr)
            self.guard[-1] = not_(c)
            self.st = base.copy()
            b = self.for_over(s, it.args[2], fr)
            self.guard.pop()
            o = ("if", c, a, b)
        elif it.op == "concat":
            o = ("fall", self.st)
            for p in it.args:
                o2 = self.for_over(s, p, fr)
                if o2[0] != "fall":
                    raise Opaque("loop over concatenation with early exit")
                self.st = o2[1]
                o = o2
        else:
            o = self.symbolic_loop(s, it, fr)
        if s.orelse:
            m = self.falls(o)
            if m is not None:
                self.st = m
                o = self.graft(o, self.exec_block(s.orelse, fr))
        return self.with_pend(pre, o)

    def simp_seq(self, it):
        if it.op == "ite":
            c = self.simp(it.args[0])
            return ite(c, it.args[1], it.args[2])
        return it

    def for_over(self, s, it, fr):
        lit = self.literal_items(it)
        if lit is not None:
            return self.unrolled(s, lit, fr)
        if it.op in ("ite", "concat"):
            nm = "__it"
            self.setname(fr, nm, it)
            s2 = ast.copy_location(ast.For(target=s.target, iter=ast.Name(nm, ast.Load()), body=s.body, orelse=[]), s)
            ast.fix_missing_locations(s2)
            return self.x_For(s2, fr)
        return self.symbolic_loop(s, it, fr)

    def unrolled(self, s, items, fr):
        o = ("fall", self.st)
        if not items:
            return o
        self.bind_item(s, 0, items[0], fr)
        body = self.exec_block(s.body, fr)
        return self.unroll_rest(s, items[1:], fr, body)

    def bind_item(self, s, k, item, fr):
        """loop target; a row of an array that the body updates in place is a view of that array"""
        self.assign(s.target, item, fr)
        if fr.func is None:
            return
        store, aug, _ = inplace_info(fr.func.node)
        t, it = s.target, s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 \
                and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            t, it = t.elts[1], it.args[0]
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                fr.views.pop(x.id, None)
                v = self.name(x.id, fr)
                if v.op not in ("ref", "mv") and not self.is_scalar(v) and (x.id in store or x.id in aug) and self.arrayish(v):
                    if x is not t or not isinstance(it, ast.Name) or k is None:
                        raise Opaque("loop variable updated in place")
                    fr.views[x.id] = (it.id, num(k))

    def unroll_rest(self, s, rest, fr, o, k=1):
        """o: outcome of one iteration; continue on fall/cont leaves"""
        o = self.cont_to_fall(o)
        if not rest:
            return self.brk_to_fall(o)
        m = self.falls(o)
        if k > 64 and m is not None and self.has_early(o):
            raise Opaque("iteration whose end depends on values")
        if m is None:
            return self.brk_to_fall(o)
        self.st = m if m is not o[1] else m
        self.bind_item(s, k, rest[0], fr)
        body = self.exec_block(s.body, fr)
        nxt = self.unroll_rest(s, rest[1:], fr, body, k + 1)
        o = self.brk_mark(o)
        return self.unmark(self.graft(o, nxt))

    def cont_to_fall(self, o):
        if o[0] == "cont":
            return ("fall", o[1])
        if o[0] == "if":
            return ("if", o[1], self.cont_to_fall(o[2]), self.cont_to_fall(o[3]))
        return o

    def brk_to_fall(self, o):
        if o[0] == "brk":
            return ("fall", o[1])
        if o[0] == "if":
            return ("if", o[1], self.brk_to_fall(o[2]), self.brk_to_fall(o[3]))
        return o

    def brk_mark(self, o):
        if o[0] == "brk":
            return ("brkd", o[1])
        if o[0] == "if":
            return ("if", o[1], self.brk_mark(o[2]), self.brk_mark(o[3]))
        return o

    def unmark(self, o):
        if o[0] == "brkd":
            return ("fall", o[1])
        if o[0] == "if":
            return ("if", o[1], self.unmark(o[2]), self.unmark(o[3]))
        return o

    def has_early(self, o):
        if o[0] in ("brk", "ret"):
            return True
        return o[0] == "if" and (self.has_early(o[2]) or self.has_early(o[3]))

    def raises_in(self, o, path=()):
        if o[0] == "raise":
            return [(and_(*path), o[1])]
        if o[0] == "if":
            return self.raises_in(o[2], path + (o[1],)) + self.raises_in(o[3], path + (not_(o[1]),))
        return []

    def snapshot(self, st, fids, rids):
        d = {}
        for fid in fids:
            for n, v in st.frames.get(fid, {}).items():
                d[("n", fid, n)] = v
        for rid in rids:
            if rid in st.heap:
                d[("h", rid)] = st.heap[rid]
        return d

    def put(self, st, slot, v):
        if slot[0] == "n":
            st.frames.setdefault(slot[1], {})[slot[2]] = v
        else:
            st.heap[slot[1]] = v

    def symbolic_loop(self, s, it, fr):
        cnt, elem = self.iter_info(it)
        k = fresh("i", "nat")
        bind = lambda x: self.bind_item(s, None, x, fr)
        return self.run_loop(cnt, k, lambda: bind(elem(k)), s.body, fr, None,
                             peeled=lambda: bind(elem(ZERO)),
                             shifted=(sub(cnt, ONE), lambda: bind(elem(add(k, ONE)))),
                             final=(s.target, elem))

    def while_literal(self, s, fr):
        for _ in range(256):
            c = self.simp(truthy(self.deref(self.ev(s.test, fr))))
            if c is FALSE:
                return ("fall", self.st)
            if c is not TRUE:
                return None
            o = self.cont_to_fall(self.exec_block(s.body, fr))
            if o[0] == "if":
                return None
            if o[0] == "brk":
                return ("fall", o[1])
            if o[0] != "fall":
                return o
            self.st = o[1]
        return None

    def while_bounded(self, s, fr, n):
        """iterations until part of the condition is known to fail, if that happens soon"""
        if n == 0 and not (isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And)):
            return None
        c = truthy(self.deref(self.ev(s.test, fr)))
        pre = self.take_local()
        c = self.simp(c)
        if c is FALSE:
            return self.with_pend(pre, ("fall", self.st))
        if n == 0 and not any(self.decided(v, fr) for v in s.test.values) or n > 4:
            return None
        base = self.st
        self.st = base.copy()
        self.guard.append(c)
        o = self.cont_to_fall(self.exec_block(s.body, fr))
        m = self.falls(o)
        if m is not None:
            self.st = m
            nxt = self.while_bounded(s, fr, n + 1)
            if nxt is None:
                return None
            o = self.unmark(self.graft(self.brk_mark(o), nxt))
        else:
            o = self.brk_to_fall(o)
        self.guard.pop()
        return self.with_pend(pre, o if c is TRUE else ("if", c, o, ("fall", base)))

    def decided(self, e, fr):
        st, mark = self.st, len(self.pend)
        self.st = st.copy()
        try:
            return truthy(self.deref(self.ev(e, fr))) is TRUE
        finally:
            self.st = st
            del self.pend[mark:]

    def x_While(self, s, fr):
        st, mark = self.st, len(self.pend)
        self.st = st.copy()
        try:
            o = self.while_literal(s, fr)
        except Opaque:
            o = None
        if o is not None:
            return o
        self.st = st.copy()
        del self.pend[mark:]
        guard = list(self.guard)
        try:
            o = self.while_bounded(s, fr, 0)
        except Opaque:
            o = None
        self.guard = guard
        if o is not None:
            return o
        self.st = st
        del self.pend[mark:]
        # literal conditions: unroll
        n = 0
        outs = []
        while n <= MAXUNROLL:
            mark = len(self.pend)
            save = self.st.copy()
            c = self.simp(truthy(self.deref(self.ev(s.test, fr))))
            if c is FALSE:
                return ("fall", self.st) if not outs else self.join_outs(outs, ("fall", self.st))
            if c is not TRUE or isinstance(s.test, ast.Constant):
                del self.pend[mark:]
                if n and not outs:
                    self.st = save
                break
            o = self.exec_block(s.body, fr)
            o = self.cont_to_fall(o)
            if o[0] != "fall":
                raise Opaque("while with exits")
            self.st = o[1]
            n += 1
        else:
            raise Opaque("while: too many iterations")
        k = fresh("w", "nat")
        return self.run_loop(None, k, lambda: None, s.body, fr, s.test)

    def join_outs(self, outs, o):
        return o

    def run_loop(self, cnt, k, bind, body, fr, test, peeled=None, shifted=None, final=None):
        base = self.st
        fids = []
        f = fr
        while f is not None:
            fids.append(f.fid)
            f = f.parent
        fids += [x for x in base.frames if x not in fids]
        rids = list(base.heap)
        before = self.snapshot(base, fids, rids)
        carried: dict = {}
        prev_n = -1
        for _round in range(12):
            self.st = base.copy()
            syms = {}
            for slot, sm in carried.items():
                self.put(self.st, slot, sm)
            start = self.snapshot(self.st, fids, rids)
            mark = len(self.pend)
            gl = len(self.guard)
            if test is not None:
                cond = truthy(self.deref(self.ev(test, fr)))
            bind()
            bound = self.snapshot(self.st, fids, rids)
            self.loopdepth = getattr(self, "loopdepth", 0) + 1
            o = self.cont_to_fall(self.exec_block(body, fr))
            self.loopdepth -= 1
            ps = self.take(mark)
            if self.has_early(o):
                raise Opaque("loop with early exit")
            end_st = self.falls(o)
            if end_st is None:
                raise Opaque("loop without continuation")
            end = self.snapshot(end_st, fids, rids)
            new = {}
            for slot, v in end.items():
                b0 = start.get(slot)
                if slot in carried:
                    continue
                if b0 is None and slot not in before:
                    # a name first bound in the loop: carried only if read before written; treat as last value
                    if slot[0] == "n" and slot[1] in [x for x in fids]:
                        new[slot] = fresh("u", self.state_kind(v))
                    continue
                if v is not b0:
                    new[slot] = fresh("s", self.state_kind(before.get(slot), v))
            if not new:
                break
            for slot, sm in new.items():
                carried[slot] = sm
                b = before.get(slot)
                if b is not None and b.op in ("alloc", "update"):
                    self.symshape[sm] = self.shape_of(b)
        else:
            raise Opaque("loop analysis does not settle")
        # peel the first iteration when the body distinguishes it by a None state
        slots = list(carried)
        states = [carried[x] for x in slots]
        nones = {carried[x] for x in slots if before.get(x) is NONE}
        if nones and peeled is not None and any(
                contains(end[x], lambda t: t.op == "same" and NONE in t.args and any(a in nones for a in t.args)) for x in slots):
            self.st = base.copy()
            peeled()
            o1 = self.cont_to_fall(self.exec_block(body, fr))
            if o1[0] == "fall":
                self.st = o1[1]
                return self.run_loop(shifted[0], k, shifted[1], body, fr, test, None, None, final)
        inits = [before.get(x, undef(str(x[-1]))) for x in slots]
        steps = [end[x] for x in slots]
        # dereference containers: refs created inside the body become plain values
        self.st = end_st
        steps = [self.close(self.deep_new(st_, rids), {k}) for st_ in steps]
        if test is not None:
            closed = {}
            inits = [self.deep(i) if i.op != "ref" else i for i in inits]
            st_seq, in_seq, sp_seq = mk("args", *states), mk("args", *inits), mk("args", *steps)
            fin = {slots[j]: mk("while", cond, k, st_seq, in_seq, sp_seq, j) for j in range(len(slots))}
            self.st = base.copy()
            for slot, v in fin.items():
                self.put(self.st, slot, v)
            return ("fall", self.st)
        sol = Recurrence(self, k, cnt, states, inits, steps).solve()
        # raises inside the body
        rs = [(and_(*[]), None)][:0]
        for c, e in ps + self.raises_in(o):
            c2 = subst(c, sol)
            rs.append((exists(cnt, k, c2) if k in free(c2) else and_(c2, not_(le(cnt, ZERO))), e))
        self.st = base.copy()
        for slot, sm in zip(slots, states):
            v = sol.get(sm)
            v = subst(v, {k: cnt})
            if v.op == "stackp" and v.args[2].op == "seq" and int(v.args[0].args[0]) < len(v.args[2].args) and \
                    eq(size(v.args[1]), v.args[2].args[int(v.args[0].args[0])]) is TRUE:
                v = self.stack_of(int(v.args[0].args[0]), v.args[1], v.args[2])
            b = before.get(slot)
            if slot[0] == "h" and slot[1] not in base.heap:
                continue
            self.put(self.st, slot, v)
        if final is not None and isinstance(final[0], ast.Name):
            pass
        o = ("fall", self.st)
        return self.with_pend(rs, o)

    def deep_new(self, t, rids):
        """dereference refs that were created inside the loop body"""
        if not hasref(t):
            return t
        old = set(rids)

        def go(x):
            if not hasref(x):
                return x
            if x.op == "ref":
                if x.args[0] in old:
                    return x
                return go(self.deref(x))
            if x.op == "map":
                return map_(go(x.args[0]), x.args[1], go(x.args[2]))
            return rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
        return go(t)

    def state_kind(self, *vs):
        v = vs[0] if vs[0] is not None else vs[-1]
        if all(x is not None and is_int(x) for x in vs):
            return "nat" if all(is_nonneg(x) for x in vs) else "int"
        v = self.deref(v) if v is not None and v.op == "ref" else v
        if v is None:
            return "any"
        if v.op in SEQLIKE:
            return "seq"
        if v.op == "obj":
            return "obj:" + v.args[0]
        if v.op in ("dict", "dictmap", "dset"):
            return "dict"
        if all(x is not None and self.is_scalar(x) for x in vs):
            return "real"
        return "any"

    # }}}

    # {{{ calls

    def func(self, qual) -> Func | None:
        try:
            f = self.prog.find(qual.split("#")[0])
        except AnalysisError:
            return None
        if isinstance(f, Func):
            if "#" in qual or f.qual != qual:
                m = f.module
                for kind, x in m.order:
                    if kind == "func" and x.qual == qual:
                        return x
            return f
        return None

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.super_call(n, fr)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "exec", "eval"):
            raise Opaque(n.func.id)
        # method calls on values: need the reference
        if isinstance(n.func, ast.Attribute):
            base = self.ev(n.func.value, fr)
            r = self.method_call(n, base, n.func.attr, fr)
            if r is not None:
                return r
            f = self.getattr_(base, n.func.attr, n.func, fr)
        else:
            f = self.ev(n.func, fr)
        self.lend(f, n, fr)
        args, kw = self.args(n, fr)
        return self.call(f, args, kw, node=n, fr=fr)

    def lend(self, f, n, fr):
        """arrays passed to a function that updates its parameters in place live on the heap"""
        if f.op != "func" or fr.func is None:
            return
        fn = self.func(f.args[0])
        if fn is None:
            return
        node = fn.node
        store, aug, _ = inplace_info(node)
        if not store and not aug:
            return
        ps = [a.arg for a in [*node.args.posonlyargs, *node.args.args]]
        pairs = list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]
        for p, e in pairs:
            if isinstance(e, ast.Name) and (p in store or p in aug):
                v = self.name(e.id, fr)
                if v.op not in ("ref", "mv") and not self.is_scalar(v) and self.arrayish(v):
                    self.setname_any(fr, e.id, self.newref(v))

    def args(self, n, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.ev(a.value, fr))
                s = unarr(v)
                if s.op == "seq":
                    args += [self.mkarr(x) for x in s.args] if isarr(v) else s.args
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.deref(self.ev(k.value, fr))
                if v.op == "dict" and all(x.op == "str" for x in v.args[::2]):
                    for a, b in zip(v.args[::2], v.args[1::2]):
                        kw[a.args[0]] = b
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return args, kw

    def super_call(self, n, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            raise Opaque("super outside class")
        selft = self.st.frames[f.fid].get(f.selfname)
        name = n.func.attr
        args, kw = self.args(n, fr)
        cq = None
        d = self.deref(selft)
        if d.op == "obj":
            cq = self.prog.classes.get(d.args[0])
        elif selft.op == "cls":
            cq = self.prog.classes.get(selft.args[0])
        mro = self.prog.mro(cq) if cq is not None else self.prog.mro(f.cls)
        try:
            i = [x for x in mro].index(f.cls)
        except ValueError:
            mro = self.prog.mro(f.cls)
            i = 0
        for k in mro[i + 1:]:
            if isinstance(k, Class):
                if name in k.methods:
                    m = k.methods[name]
                    if self.isstatic(m) and name != "__new__":
                        return self.call_func(m, args, kw)
                    if name == "__new__":
                        return self.call_func(m, args, kw)
                    if self.isprop(m):
                        return self.call_func(m, [selft], {})
                    return self.call_func(m, [selft] + args, kw)
                if name == "__init__" and k.dataclass and k.dataclass.get("init", True):
                    self.dataclass_init(k, selft, args, kw)
                    return NONE
        if name == "__init__":
            return NONE
        if name == "__new__":
            return self.newref(mk("obj", args[0].args[0])) if args and args[0].op == "cls" else opaque("new")
        if name == "__setattr__":
            self.store_attr(None, selft, args[0].args[0], args[1], fr)
            return NONE
        return mk("call", mk("ext", f"super.{name}"), mk("args", *[self.deep(a) for a in args]))

    def bind_args(self, f: Func, args, kw, selfname=None):
        """positional/keyword arguments -> ordered dict of parameter values (None when unspecified), or None"""
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        rest = []
        if any(x.op == "star" for x in args):
            return None
        for i, v in enumerate(args):
            if i < len(params):
                out[params[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return None
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        return out, rest, extra

    def is_kept(self, f: Func):
        q = f.qual
        if q in self.keep:
            return True
        return False

    def generic_of(self, f: Func):
        return any((dotted(d) or "").split(".")[-1] == "singledispatch" for d in f.decorators)

    def canon_call(self, head, f: Func, args, kw, skip=0):
        """uninterpreted call with arguments in parameter order and defaults filled in"""
        args = [self.deep(x) for x in args]
        kw = {k: self.deep(v) for k, v in kw.items()}
        b = self.bind_args(f, ([NONE] * skip) + args, kw)
        if b is None:
            return call(head, args, list(kw.items()))
        out, rest, extra = b
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        kwd = {p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.newframe(f.module)
        pos = []
        for p in params[skip:]:
            if p in out:
                pos.append(out[p])
            elif p in defaults:
                pos.append(self.deep(self.ev(defaults[p], fr)))
            else:
                return call(head, args, list(kw.items()))
        kws = []
        for p in a.kwonlyargs:
            if p.arg in out:
                kws.append((p.arg, out[p.arg]))
            elif p.arg in kwd:
                kws.append((p.arg, self.deep(self.ev(kwd[p.arg], fr))))
        self.st.frames.pop(fr.fid, None)
        if f.qual in POINTWISE:
            i, odd = POINTWISE[f.qual]

            def point(x):
                if odd and x.op == "num" and x.args[0] <= 0:
                    return ZERO if x.args[0] == 0 else neg(call(head, pos[:i] + [neg(x)] + pos[i + 1:], kws))
                return call(head, pos[:i] + [x] + pos[i + 1:], kws)
            return self.lift1(point, pos[i])
        c = call(head, pos + rest, kws + sorted(extra.items()))
        if f.qual in EXPLODE:
            sh = EXPLODE[f.qual](dict(zip(params[skip:], pos), **dict(kws)))
            if isinstance(sh, list):
                return self.entries(c, sh)
            if sh is not None:
                return self.lit_array(sh, [mk("entry", c, *[num(i) for i in ix]) for ix in lit.indices(sh)])
        return c

    def entries(self, c, shapes):
        """the arrays a call returns, of known shapes and with unknown entries"""
        out = []
        for j, h in enumerate(shapes):
            p = mk("proj", c, num(j))
            if len(h) == 1 and isinstance(h[0], Term):
                k = fresh("e", "nat")
                out.append(arr(map_(h[0], k, mk("entry", p, k))))
            else:
                out.append(self.lit_array(h, [mk("entry", p, *[num(i) for i in ix]) for ix in lit.indices(h)]))
        return seq(*out)

    def note_may_raise(self, t):
        for hs in self.handlers:
            for h in hs:
                if h in ("KeyError", "IndexError", "AttributeError", "ImportError", "Exception", "BaseException",
                         "ModuleNotFoundError", "TypeError"):
                    continue
                self.raise_(mk("cond", t, string("raises"), string(h)), h)

    def call(self, f, args, kw, node=None, fr=None):
        f = self.deref(f)
        if f.op == "ite":
            c = f.args[0]
            base = self.st
            self.st = base.copy()
            self.guard.append(c)
            x = self.deref(self.call(f.args[1], args, kw, node, fr))
            sa = self.st
            self.guard[-1] = not_(c)
            self.st = base.copy()
            y = self.deref(self.call(f.args[2], args, kw, node, fr))
            sb = self.st
            self.guard.pop()
            self.st = self.merge(c, sa, sb)
            return ite(c, x, y)
        if f.op == "func":
            fn = self.func(f.args[0])
            if fn is None:
                return call(f, [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
            return self.call_func(fn, args, kw)
        if f.op == "closure":
            return self.call_closure(f, args, kw)
        if f.op == "lam":
            ps = f.args[0].args
            if len(ps) == len(args) and not kw:
                return subst(f.args[1], dict(zip(ps, [self.deep(a) for a in args])))
        if f.op == "partial":
            k2 = dict(zip(f.args[2::2], f.args[3::2]))
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1].args) + list(args), k2)
        if f.op == "bound":
            return self.call(f.args[0], [f.args[1]] + list(args), kw)
        if f.op == "cls":
            return self.construct(f.args[0], args, kw)
        if f.op == "funcwrap":
            return self.call(f.args[0], args, kw)
        if f.op == "dcinit" and args and args[0].op == "ref":
            self.dataclass_init(self.prog.classes[f.args[0]], args[0], args[1:], kw)
            o = self.deref(args[0])
            pi = self.prog.method(self.prog.classes[o.args[0]], "__post_init__") if o.op == "obj" and o.args[0] in self.prog.classes else None
            if pi:
                self.call_func(pi, [args[0]], {})
            return NONE
        if f.op == "obj":
            c = self.prog.classes.get(f.args[0])
            m = c and self.prog.method(c, "__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if f.op == "ext":
            from . import models
            return models.call_ext(self, f.args[0], args, kw, node, fr)
        if f.op == "attr":
            return self.call_attr(f, args, kw)
        if f.op == "typeof" and len(args) == 1 and not kw and self.is_scalar(f.args[0]):
            v = self.deref(args[0])
            if v.op == "num" and v.args[0].denominator == 1:
                return v                     # an integer in the type of a number
        t = call(f, [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
        if f.op == "sym" or f.op == "idx":
            k = self.kind(f)
            if k and k.startswith("obj:"):
                c = self.prog.classes.get(k[4:])
                m = c and self.prog.method(c, "__call__")
                if m:
                    t = self.canon_call(f, m, args, kw, skip=1)
        self.note_may_raise(t)
        return t

    def call_attr(self, f, args, kw):
        b, name = f.args
        k = self.kind(b)
        if k and k.startswith("obj:"):
            c = self.prog.classes.get(k[4:])
            m = c and self.prog.method(c, name)
            if m:
                if m.qual in self.expand:
                    return self.call_func(m, [b] + list(args), kw)
                t = self.canon_call(f, m, args, kw, skip=1)
                self.note_may_raise(t)
                return t
        t = call(f, [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
        self.note_may_raise(t)
        return t

    def call_closure(self, f, args, kw):
        node, fr, defaults, kwd = self.closures[f.args[0]]
        if self.stack.count(f) > 3:
            return call(f, [self.deep(a) for a in args])
        fn = Func(fr.module, node if isinstance(node, ast.FunctionDef) else _lam_as_def(node), "<local>")
        self.stack.append(f)
        try:
            return self.run_func(fn, args, kw, parent=fr, defaults=(defaults, kwd))
        finally:
            self.stack.pop()

    def call_func(self, f: Func, args, kw):
        if self.generic_of(f):
            r = self.dispatch_call(f, args, kw)
            if r is not None:
                return r
        if self.is_kept(f) or len(self.stack) > 90 or self.too_deep(f.qual, args):
            t = self.canon_call(mk("func", f.qual), f, args, kw)
            self.calls.add(f.qual)
            self.note_may_raise(t)
            return t
        self.stack.append(f.qual)
        self.inlined.add(f.qual)
        try:
            return self.run_func(f, args, kw)
        finally:
            self.stack.pop()

    def too_deep(self, q, args):
        """bound on recursion: deep for constant arguments, shallow for objects (nested structures), none otherwise"""
        n = self.stack.count(q)
        if n == 0:
            return False
        if self.all_literal(args):
            return n > 25
        if q in self.expand:
            return n > 3
        return n > 3 or not (args and self.deref(args[0]).op == "obj")

    def all_literal(self, args):
        def lit(t):
            t = self.deref(t)
            return t.op in ("num", "str", "none", "true", "false") or t.op in ("seq", "arr", "dict") and all(
                lit(a) for a in t.args)
        return all(lit(a) or self.deref(a).op == "obj" for a in args)

    def class_of(self, t):
        t = self.deref(t)
        if t.op == "obj":
            return self.prog.classes.get(t.args[0]), True
        k = self.kind(t)
        if k and k.startswith("obj:"):
            return self.prog.classes.get(k[4:]), False
        return None, False

    def dispatch_call(self, f: Func, args, kw):
        """resolve singledispatch when the class of the first argument is known"""
        if f.qual in self.keep:
            return None
        if not args:
            return None
        a = self.deref(args[0])
        if a.op == "ite":
            c = a.args[0]
            base = self.st
            self.st = base.copy()
            self.guard.append(c)
            x = self.call_func(f, [a.args[1]] + list(args[1:]), kw)
            x = self.deref(x)
            sa = self.st
            self.guard[-1] = not_(c)
            self.st = base.copy()
            y = self.call_func(f, [a.args[2]] + list(args[1:]), kw)
            y = self.deref(y)
            sb = self.st
            self.guard.pop()
            self.st = self.merge(c, sa, sb)
            return ite(c, x, y)
        c, exact = self.class_of(args[0])
        if c is None:
            t = self.canon_call(mk("func", f.qual), f, args, kw)
            self.calls.add(f.qual)
            self.note_may_raise(t)
            return t
        impl = self.prog.dispatch(f.qual, c)
        if not exact:
            # registered subclasses could take over
            tbl = self.prog.dispatch_table()[f.qual]
            if any(self.prog.issub(q, c) and q != c.qual for q in tbl):
                sub_ = [q for q in tbl if self.prog.issub(q, c) and q != c.qual]
                if any(tbl[q] is not impl for q in sub_):
                    t = self.canon_call(mk("func", f.qual), f, args, kw)
                    self.note_may_raise(t)
                    return t
        if impl is None:
            impl = f
        if self.too_deep(impl.qual, args) or impl.qual in self.keep:
            t = self.canon_call(mk("func", f.qual), f, args, kw)
            self.calls.add(f.qual)
            self.note_may_raise(t)
            return t
        self.stack.append(impl.qual)
        self.inlined.add(impl.qual)
        try:
            return self.run_func(impl, args, kw)
        finally:
            self.stack.pop()

    def run_func(self, f: Func, args, kw, parent=None, defaults=None):
        if f.qual in self.stand_ins and parent is None:
            g = self.stand_ins[f.qual]
            if ast.unparse(g.node.args) != ast.unparse(strip_annotations(f.node.args)):
                raise Opaque(f"signature of {f.qual} differs from its stand-in's")
            f = g
        b = self.bind_args(f, args, kw)
        if b is None:
            if any(x.op == "star" for x in args):
                return self.call_star(f, args, kw)
            if f.node.name.startswith("_") and len(self.stack) > 1 and not str(self.stack[-2]).startswith("modepy."):
                raise Opaque(f"signature of {f.qual} has changed")
            self.raise_(TRUE, "TypeError")
            return opaque(f"bad call of {f.qual}")
        out, rest, extra = b
        a = f.node.args
        fr = self.newframe(f.module, f, f.cls, parent)
        if f.cls is None and parent is not None:
            pass
        params = [p.arg for p in a.posonlyargs + a.args]
        if f.cls is not None and params:
            fr.selfname = params[0]
        if defaults is None:
            dfr = self.newframe(f.module)
            ds = [self.ev(d, dfr) for d in a.defaults]
            kds = [self.ev(d, dfr) if d is not None else None for d in a.kw_defaults]
            self.st.frames.pop(dfr.fid, None)
        else:
            ds, kds = defaults
        env = self.st.frames[fr.fid]
        dd = dict(zip(params[len(params) - len(ds):], ds))
        for p in params:
            if p in out:
                env[p] = out[p]
            elif p in dd:
                env[p] = dd[p]
            else:
                self.raise_(TRUE, "TypeError")
                return opaque(f"missing argument {p}")
        for p, d in zip(a.kwonlyargs, kds):
            if p.arg in out:
                env[p.arg] = out[p.arg]
            elif d is not None:
                env[p.arg] = d
            else:
                self.raise_(TRUE, "TypeError")
                return opaque(f"missing argument {p.arg}")
        if a.vararg:
            env[a.vararg.arg] = seq(*rest)
        if a.kwarg:
            env[a.kwarg.arg] = mk("dict", *[x for k, v in extra.items() for x in (string(k), v)])
        body = f.node.body
        if is_generator(f.node):
            return self.run_generator(f, fr)
        loc = assigned_names(body)
        for st in ast.walk(f.node):
            if isinstance(st, (ast.Nonlocal, ast.Global)) :
                fr.outer.update(st.names)
        hs = self.handlers
        mark = len(self.pend)
        marks = self.marks = getattr(self, "marks", [])
        marks.append(mark)
        try:
            o = self.exec_block(body, fr)
        finally:
            marks.pop()
        extra_p = self.take(mark)
        v, st = self.value_of(o)
        self.pend[mark:mark] = extra_p
        if st is None:
            # every path raises
            self.st = self.any_state(o) or self.st
            v = opaque("unreachable")
        else:
            self.st = st
        if fr.fid not in self.captured:
            self.st.frames.pop(fr.fid, None)
        return v

    def any_state(self, o):
        if o[0] == "if":
            return self.any_state(o[2]) or self.any_state(o[3])
        return o[-1]

    def run_generator(self, f, fr):
        """generator functions: the sequence of yielded values"""
        self.st.frames[fr.fid]["__yield"] = self.newref(seq())
        body = [_YieldRewriter().visit(ast.parse(ast.unparse(s)).body[0]) for s in f.node.body]
        for b in body:
            ast.fix_missing_locations(b)
        mark = len(self.pend)
        marks = self.marks = getattr(self, "marks", [])
        marks.append(mark)
        try:
            o = self.exec_block(body, fr)
        finally:
            marks.pop()
        v, st = self.value_of(o)
        self.st = st or self.any_state(o)
        return self.deref(self.st.frames[fr.fid]["__yield"])

    def call_star(self, f, args, kw):
        # f(*symbolic): expand to the number of missing positional parameters
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = []
        for i, x in enumerate(args):
            if x.op == "star":
                need = len(params) - len(a.defaults) - len(out) - (len(args) - i - 1)
                need = max(need, 0)
                if a.vararg and need == 0:
                    return call(mk("func", f.qual), [self.deep(y) for y in args])
                out += [self.index(x.args[0], num(j)) for j in range(need)]
            else:
                out.append(x)
        return self.run_func(f, out, kw)

    # }}}

    # {{{ construction

    def construct(self, q, args, kw):
        c = self.prog.classes.get(q)
        if c is None:
            c = self.prog.cls(q)
        if q in EXC_PARENT or any(isinstance(k, str) and k.split(".")[-1] in EXC_PARENT for k in self.prog.mro(c)):
            return mk("obj", q)
        if q in self.keep:
            init = self.prog.method(c, "__init__")
            fields = None
            if init is not None:
                t = self.canon_call(mk("cls", q), init, args, kw, skip=1)
            elif c.dataclass:
                t = call(mk("cls", q), [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
            else:
                t = call(mk("cls", q), [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
            self.note_may_raise(t)
            return t
        if self.stack.count("new " + q) > 3:
            return call(mk("cls", q), [self.deep(a) for a in args], [(k, self.deep(v)) for k, v in kw.items()])
        self.stack.append("new " + q)
        self.inlined.add(q)
        try:
            new = self.prog.method(c, "__new__")
            if new is not None and not any((dotted(d) or "").endswith("overload") for d in new.decorators):
                o = self.call_func(new, [mk("cls", q)] + list(args), kw)
            else:
                o = self.newref(mk("obj", q))
            return self.init_branches(o, c, args, kw)
        finally:
            self.stack.pop()

    def init_branches(self, o, c, args, kw):
        """run __init__ on those alternatives that are instances of the class"""
        if o.op == "ite":
            cnd = o.args[0]
            base = self.st
            self.st = base.copy()
            self.guard.append(cnd)
            x = self.init_branches(o.args[1], c, args, kw)
            sa = self.st
            self.guard[-1] = not_(cnd)
            self.st = base.copy()
            y = self.init_branches(o.args[2], c, args, kw)
            sb = self.st
            self.guard.pop()
            self.st = self.merge(cnd, sa, sb)
            if x is y:
                return x
            return ite(cnd, x, y)
        d = self.deref(o)
        if d.op == "obj" and o.op == "ref":
            k = self.prog.classes.get(d.args[0])
            if k is not None and self.prog.issub(k, c):
                # type(obj).__init__
                self.run_init(k, o, args, kw)
        return o

    def run_init(self, c, o, args, kw):
        for k in self.prog.mro(c):
            if not isinstance(k, Class):
                continue
            if "__init__" in k.methods:
                self.call_func(k.methods["__init__"], [o] + list(args), kw)
                return
            if k.dataclass and k.dataclass.get("init", True):
                self.dataclass_init(k, o, args, kw)
                pi = self.prog.method(c, "__post_init__")
                if pi:
                    self.call_func(pi, [o], {})
                return

    def dataclass_fields(self, c):
        out = {}
        for k in reversed(self.prog.mro(c)):
            if isinstance(k, Class) and k.dataclass is not None:
                for n, d, kwonly in k.fields:
                    out[n] = (d, kwonly, k)
        return out

    def dataclass_init(self, c, o, args, kw):
        fs = self.dataclass_fields(c)
        pos = [n for n, (d, ko, k) in fs.items() if not ko]
        vals = {}
        if len(args) > len(pos) or any(k not in fs for k in kw):
            self.raise_(TRUE, "TypeError")
            return
        for n, v in zip(pos, args):
            vals[n] = v
        vals.update(kw)
        for n, (d, ko, k) in fs.items():
            if n not in vals:
                if d is None:
                    self.raise_(TRUE, "TypeError")
                    return
                vals[n] = self.ev(d, self.newframe(k.module))
        content = self.deref(o)
        for n, v in vals.items():
            content = setattr_(content, n, v)
        self.st.heap[o.args[0]] = content

    # }}}

    # {{{ methods of plain values

    def method_call(self, n, base, name, fr):
        """methods of lists, arrays, dicts, strings; None if not one of them"""
        b = self.deref(base)
        if b.op in ("module", "ext", "cls", "func", "closure", "obj", "typeof", "bound", "partial"):
            if b.op == "obj" or b.op != "func":
                return None
            if b.op == "func" and name == "register":
                return None
            return None
        if b.op == "ite" and (b.args[1].op == "obj" or b.args[2].op == "obj"):
            return None
        k = self.kind(b)
        if k and k.startswith("obj:") or k == "obj":
            return None
        from . import models
        m = models.METHODS.get(name)
        if m is None:
            return None
        args, kw = self.args(n, fr)
        args = [self.deref(a) if name not in ("append", "extend", "insert", "get", "setdefault", "push") else a for a in args]
        kw = {k2: self.deref(v) for k2, v in kw.items()}
        r = m(self, base, b, args, kw, n.func.value, fr)
        return r

    def setvalue(self, base, node, v, fr):
        """give the container denoted by base a new value"""
        if base.op == "ref":
            self.st.heap[base.args[0]] = v
        elif isinstance(node, ast.Name):
            self.setname_any(fr, node.id, v)
        elif isinstance(node, ast.Attribute):
            self.store_attr(node.value, self.ev(node.value, fr), node.attr, v, fr)
        elif isinstance(node, ast.Subscript):
            self.store_item(node.value, self.ev(node.value, fr), self.ev_index(node.slice, fr), v, fr)
        else:
            raise Opaque("mutation of expression")

    # }}}

    def e_Starred(self, n, fr):
        return mk("star", self.deref(self.ev(n.value, fr)))

    def e_Await(self, n, fr):
        raise Opaque("await")

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    # {{{ entry points

    def isinstance_(self, x, c):
        x = self.deref(x)
        if c.op == "seq":
            return or_(*[self.isinstance_(x, d) for d in c.args])
        if c.op == "bitor":
            return or_(*[self.isinstance_(x, d) for d in c.args])
        if x.op == "ite":
            return ite(x.args[0], self.isinstance_(x.args[1], c), self.isinstance_(x.args[2], c))
        cq = c.args[0] if c.op in ("cls", "ext") else None
        if cq is None:
            return mk("isinst", x, c)
        if x.op == "obj":
            return boolc(self.prog.issub(x.args[0], cq))
        k = self.kind(x)
        short = cq.split(".")[-1]
        if short in ("ExpressionNode", "Expression") and symbolic(x):
            return boolc(not isarr(x))
        if short in ("ExpressionNode", "Expression", "ndarray", "tuple", "list") and x.op not in ("seq", "str", "none", "func", "closure", "lam", "partial", "bound", "cls", "ext"):
            ks = {t.args[1] for t in subterms(x) if t.op == "sym"}
            if ks and ks <= NUMK and short == "tuple" and not isarr(x) and x.op in ("idx", "add", "mul", "pow"):
                return FALSE
            if short in ("tuple", "list"):
                pass
            elif short != "ndarray":
                if ks <= NUMK or isarr(x):
                    return FALSE
            elif ks and ks <= NUMK and not isarr(x) and x.op not in ("sym", "idx", "attr", "call", "alloc", "update", "stackp", "T"):
                return boolc("vec" in ks)
        if k and k.startswith("obj:"):
            if self.prog.issub(k[4:], cq):
                return TRUE
            if cq in self.prog.classes and self.prog.issub(cq, k[4:]):
                return self.isinst_term(x, c)
            if cq in self.prog.classes:
                subs = [s for s in self.prog.subclasses(self.prog.classes[cq]) if k[4:] in self.prog.classes and
                        self.prog.issub(s, k[4:])]
                return self.isinst_term(x, c) if subs else FALSE
            return FALSE
        if is_int(x) or k in INTK:
            return boolc(short in ("int", "Number", "Integral", "Real", "Rational", "Complex", "integer", "object", "Hashable"))
        if x.op == "num" or T._infinite(x) is not None or self.is_scalar(x) and x.op != "idx":
            return boolc(short in ("float", "Number", "Real", "Complex", "floating", "object"))
        if x.op in ("seq",) or k in ("seq", "ntuple") or x.op in SEQLIKE:
            return boolc(short in ("tuple", "list", "Sequence", "Iterable"))
        if isarr(x) or k in ("vec", "mat", "ary"):
            return boolc(short == "ndarray")
        if x is NONE or x.op in ("str",):
            return boolc(short == {"none": "NoneType", "str": "str"}[x.op])
        if x.op in ("func", "closure", "lam", "partial", "bound"):
            return FALSE
        return self.isinst_term(x, c)

    def isinst_term(self, x, c):
        return mk("isinst", x, c)

    def finish(self, v, mark=0):
        """value with its exceptions folded in"""
        v = self.deep(v)
        for c, e in reversed(self.take(mark)):
            v = ite(c, mk("raise", e), v)
        return v

    # }}}


class _YieldRewriter(ast.NodeTransformer):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            c = ast.Expr(ast.Call(ast.Attribute(ast.Name("__yield", ast.Load()), "append", ast.Load()),
                                  [n.value.value or ast.Constant(None)], []))
            return ast.copy_location(c, n)
        if isinstance(n.value, ast.YieldFrom):
            c = ast.Expr(ast.Call(ast.Attribute(ast.Name("__yield", ast.Load()), "extend", ast.Load()),
                                  [n.value.value], []))
            return ast.copy_location(c, n)
        return n

    def visit_FunctionDef(self, n):
        return n


def is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


def _lam_as_def(node):
    d = ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.copy_location(ast.Return(node.body), node)],
                        decorator_list=[], returns=None, type_comment=None)
    ast.copy_location(d, node)
    ast.fix_missing_locations(d)
    return d


def replace(t, m, memo=None):
    """replace subterms, also below binders (the replaced terms are closed)"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        if t in m:
            r = m[t]
        elif not any(True for _ in kids(t)):
            r = t
        else:
            a = [replace(x, m, memo) if isinstance(x, Term) else x for x in t.args]
            if t.op == "map":
                r = map_(*a)
            elif t.op in T.BINDERS:
                r = mk(t.op, *a)
            else:
                r = rebuild(t, a)
        memo[t.id] = r
    return r


# {{{ recurrences

class Recurrence:
    def __init__(self, I, k, n, states, inits, steps):
        self.I, self.k, self.n = I, k, n
        self.states, self.inits, self.steps = list(states), [I.deref(i) if i.op == "ref" and False else i for i in inits], list(steps)
        self.sol: dict = {}

    def unsolved(self, t):
        f = free(t)
        return [s for s in self.states if s in f and s not in self.sol]

    def solve(self):
        changed = True
        while changed:
            changed = False
            for j, s in enumerate(self.states):
                if s in self.sol:
                    continue
                e = subst(self.steps[j], self.sol)
                self.steps[j] = e
                r = self.one(s, self.inits[j], e)
                if r is not None:
                    self.sol[s] = r
                    changed = True
        rest = [s for s in self.states if s not in self.sol]
        if rest:
            self.lists(rest)
            rest = [s for s in self.states if s not in self.sol]
        if rest:
            js = [self.states.index(s) for s in rest]
            st = mk("args", *rest)
            ini = mk("args", *[self.I.deep(self.inits[j]) if self.inits[j].op != "ref" else self.inits[j] for j in js])
            sp = mk("args", *[subst(self.steps[j], self.sol) for j in js])
            kk = fresh("L", "nat")
            sp = subst_args(sp, {self.k: kk})
            for i, s in enumerate(rest):
                self.sol[s] = mk("loop", self.k, kk, st, ini, sp, i)
        # close solutions over each other
        for _ in range(len(self.states)):
            for s in self.states:
                self.sol[s] = subst(self.sol[s], {x: v for x, v in self.sol.items() if x in free(self.sol[s])})
        return self.sol

    def eqv(self, a, b):
        if a is b:
            return True
        if a.op == "undef" or b.op == "undef":
            return True
        try:
            good = 0
            for seed in range(1, 60):
                c = vn.Ctx(seed)
                x, y = c.top(a), c.top(b)
                if c.bad:
                    continue
                if x != y:
                    return False
                good += 1
                if good >= 2:
                    return True
        except (vn.TooComplex, RecursionError):
            pass
        return False

    def one(self, s, init, e):
        k = self.k
        un = self.unsolved(e)
        if e is s:
            return init
        if not un:
            prev = subst(e, {k: sub(k, ONE)})
            at0 = subst(e, {k: NEG1})
            if init.op == "undef" or self.eqv(init, at0):
                return prev
            return ite(eq0(k), init, prev)
        if un != [s]:
            return None
        g = additive(e, s)
        if g is not None and s not in free(g) and not self.unsolved(g):
            j = fresh("j", "nat")
            gg = subst(g, {k: j})
            if self.has_arr(gg) or init.op in ("ref",):
                return None
            return add(init if init.op != "alloc" else init.args[1], sum_(map_(k, j, gg)))
        g = multiplicative(e, s)
        if g is not None and not self.unsolved(g):
            j = fresh("j", "nat")
            return mul(init if init.op != "alloc" else init.args[1], prod_(map_(k, j, subst(g, {k: j}))))
        g = appended(e, s)
        if g is not None and not self.unsolved(g):
            j = fresh("j", "nat")
            return concat(self.I.as_seq(init), flat(map_(k, j, subst(g, {k: j}))))
        r = self.stores(s, init, e)
        if r is not None:
            return r
        r = self.elementwise(s, init, e)
        if r is not None:
            return r
        return None

    def has_arr(self, t):
        return t.op in ("seq", "map", "concat")

    def stores(self, s, init, e):
        """s' = s[index(k)] := value(k)"""
        k = self.k
        if e.op == "dset" and e.args[0] is s and not self.unsolved(mk("args", e.args[1], e.args[2])):
            j = fresh("j", "nat")
            m = map_(k, j, subst(seq(e.args[1], e.args[2]), {k: j}))
            if init.op == "dict" and not init.args:
                return mk("dictmap", m)
            return None
        if e.op != "update" or e.args[0] is not s:
            # several stores in one iteration on the same axis position
            return None
        _, i, v = e.args
        if self.unsolved(i):
            return None
        if self.unsolved(v):
            return None
        return self.store_stack(init, i, v)

    def store_stack(self, init, i, v):
        r = self.store_stack_(init, i, v)
        if r is not None and r.op == "stackp":
            ax, m, shape = r.args
            if shape.op == "seq" and ax.op == "num" and int(ax.args[0]) < len(shape.args) and \
                    eq(size(m), shape.args[int(ax.args[0])]) is TRUE:
                return self.I.stack_of(int(ax.args[0]), m, shape)
        return r

    def store_stack_(self, init, i, v):
        k = self.k
        comps = list(i.args) if i.op == "seq" else [i]
        ax = [p for p, c in enumerate(comps) if k in free(c)]
        if len(ax) != 1:
            return None
        p = ax[0]
        full = mk("slice", NONE, NONE, NONE)
        others = [c for q, c in enumerate(comps) if q != p]
        if any(c is not full for c in others):
            return None
        c = comps[p]
        off = sub(c, k)
        j = fresh("j", "nat")
        if k in free(off):
            # reversed or strided stores
            return None
        m = map_(k, j, subst(v, {k: j}))
        # previously stored prefix on the same axis
        prefix = seq()
        base = init
        if base.op == "stackp":
            if base.args[0] is num(p) and eq(off, size(base.args[1])) is TRUE:
                return mkstack(base.args[2], num(p), concat(base.args[1], m))
            return None
        pre = []
        while base.op == "update":
            bi = base.args[1]
            bc = list(bi.args) if bi.op == "seq" else [bi]
            if len(bc) <= p and p != 0:
                return None
            if len(bc) != len(comps) and not (p == 0 and len(bc) == 1):
                return None
            if any(x is not full for q, x in enumerate(bc) if q != p):
                return None
            pre.append((bc[p], base.args[2]))
            base = base.args[0]
        if base.op != "alloc":
            return None
        pre.sort(key=lambda x: x[0].args[0] if x[0].op == "num" else 10**9)
        if off.op != "num":
            return None
        o = int(off.args[0])
        if [x[0] for x in pre] != [num(q) for q in range(o)]:
            if not pre and o > 0 and base.args[1].op == "num":
                prefix = seq(*[base.args[1]] * o)
            else:
                return None
        else:
            prefix = seq(*[x[1] for x in pre])
        return mkstack(base.args[0], num(p), concat(prefix, m))

    def elementwise(self, s, init, e):
        """s' = map(n, i, E(s[i], i, k)): solve per element"""
        if e.op != "map" or init.op not in ("map", "seq", "sym"):
            return None
        n, v, body = e.args
        if self.unsolved(n):
            # size(s) is invariant
            n2 = subst(n, {size(s): size(init)})
            if self.unsolved(n2):
                return None
            n = n2
        i = fresh("i", "nat")
        b = subst(body, {v: i})
        es = fresh("es")
        sh = None
        b2 = replace(b, {mk("idx", s, i): es})
        if s in free(b2):
            return None
        el0 = idx(init, i)
        if el0.op in ("alloc", "update"):
            self.I.symshape[es] = self.I.shape_of(el0)
        r = Recurrence(self.I, self.k, self.n, [es], [el0], [b2]).solve()[es]
        return map_(n, i, r)

    def lists(self, rest):
        """lists appended to from their own last entries"""
        for s in rest:
            j = self.states.index(s)
            e = subst(self.steps[j], self.sol)
            g = appended(e, s)
            if g is None or g.op != "seq" or len(g.args) != 1:
                continue
            init = self.inits[j]
            n0 = size(self.I.as_seq(init))
            k = self.k
            g = g.args[0]
            ln = add(n0, k)
            g = subst(g, {size(s): ln})
            lags = {}
            ok = True
            for t in list(subterms(g)):
                if t.op == "idx" and t.args[0] is s:
                    d = sub(ln, t.args[1])
                    if d.op == "num" and d.args[0] >= 1:
                        lags[t] = int(d.args[0])
                    else:
                        ok = False
            if not ok or not lags:
                continue
            m = max(lags.values())
            ps = [fresh(f"lag{i + 1}") for i in range(m)]
            g2 = replace(g, {t: ps[l - 1] for t, l in lags.items()})
            if s in free(g2) or any(x in free(g2) for x in rest if x is not s):
                continue
            ini = [idx(self.I.as_seq(init), sub(n0, num(i + 1))) for i in range(m)]
            if any(isbot(x) for x in ini):
                continue
            kk = fresh("L", "nat")
            st = mk("args", *ps)
            sp = mk("args", subst(g2, {k: kk}), *ps[:-1])
            jj = fresh("j", "nat")
            elem = mk("loop", add(jj, ONE), kk, st, mk("args", *ini), sp, 0)
            self.sol[s] = concat(self.I.as_seq(init), map_(k, jj, elem))


def mkstack(shape, ax, m):
    """array of the given shape whose slices along ax are the elements of m"""
    return T.stack(ax, arr(m) if ax is ZERO else m) if False else mk("stackp", ax, m, shape)


def subst_args(t, m):
    return mk(t.op, *[subst(a, m) for a in t.args])


def additive(e, s):
    """g with e = s + g"""
    if e.op == "ite" and s not in free(e.args[0]):
        a, b = additive(e.args[1], s), additive(e.args[2], s)
        return None if a is None or b is None else ite(e.args[0], a, b)
    g = sub(e, s)
    return None if s in free(g) else g


def multiplicative(e, s):
    if e is s:
        return ONE
    if e.op == "ite" and s not in free(e.args[0]):
        a, b = multiplicative(e.args[1], s), multiplicative(e.args[2], s)
        return None if a is None or b is None else ite(e.args[0], a, b)
    if e.op == "mul" and s in e.args:
        l = list(e.args)
        l.remove(s)
        g = mul(*l)
        return None if s in free(g) else g
    return None


def appended(e, s):
    if e is s:
        return seq()
    if e.op == "ite" and s not in free(e.args[0]):
        a, b = appended(e.args[1], s), appended(e.args[2], s)
        return None if a is None or b is None else ite(e.args[0], a, b)
    if e.op == "concat":
        g = appended(e.args[0], s)
        return None if g is None else concat(g, *e.args[1:])
    return None

# }}}


EXTALIAS = {
    "numpy.linalg": "numpy.linalg", "math.gamma": "math.gamma", "scipy.special.gamma": "math.gamma",
    "collections.abc.Sequence": "builtins.tuple",
}
def symbolic(t):
    """contains a variable of a symbolic (pymbolic) expression"""
    return any(x.op == "sym" and x.args[1] == "expr" for x in subterms(t))


_CMPS = [("eq", "=="), ("ne", "!="), ("ge", ">="), ("gt", ">"), ("le", "<="), ("lt", "<")]
EXTCONST = {"pymbolic.primitives.Comparison.name_to_operator": mk("dict", *[string(x) for p in _CMPS for x in p]),
            "pymbolic.primitives.Comparison.operator_to_name": mk("dict", *[string(x) for p in _CMPS for x in p[::-1]]),
            "numpy.pi": mk("pi"), "math.pi": mk("pi"), "numpy.newaxis": NONE, "math.inf": mk("ext", "numpy.inf"),
            "numpy.e": mk("ext", "math.e")}

ATTRKIND = {
    ("modepy.spaces.TensorProductSpace", "bases"): "seq:obj:modepy.spaces.FunctionSpace",
    ("modepy.shapes.TensorProductShape", "bases"): "seq:obj:modepy.shapes.Shape",
    ("modepy.spaces.FunctionSpace", "spatial_dim"): "nat",
    ("modepy.spaces.FunctionSpace", "space_dim"): "nat",
    ("modepy.spaces.FunctionSpace", "order"): "nat",
    ("modepy.shapes.Shape", "dim"): "nat",
    ("modepy.shapes.Shape", "nvertices"): "nat",
    ("modepy.shapes.Shape", "nfaces"): "nat",
    ("modepy.quadrature.Quadrature", "nodes"): "ary",
    ("modepy.quadrature.Quadrature", "weights"): "vec",
    ("modepy.quadrature.Quadrature", "dim"): "nat",
    ("modepy.quadrature.TensorProductQuadrature", "quadratures"): "seq:obj:modepy.quadrature.Quadrature",
    ("modepy.modes.Basis", "functions"): "seq",
    ("modepy.modes.Basis", "gradients"): "seq",
    ("modepy.modes.Basis", "mode_ids"): "seq",
    ("modepy.modes.TensorProductBasis", "bases"): "seq:obj:modepy.modes.Basis",
    ("modepy.modes.TensorProductBasis", "_bases"): "seq:obj:modepy.modes.Basis",
    ("modepy.modes.TensorProductBasis", "_dims_per_basis"): "ntuple",
    ("modepy.shapes.Face", "volume_shape"): "obj:modepy.shapes.Shape",
    ("modepy.quadrature.construction.LinearCombinationIntegrand", "functions"): "seq",
    ("modepy.quadrature.construction.LinearCombinationIntegrand", "coefficients"): "vec",
}
# functions that act on each entry of one argument, and whether they are odd in it (only where a specification keeps them
# uninterpreted; that warp_factor is pointwise is an obligation of C16, oddness follows from symmetric nodes)
def _lgl_shape(p):
    n, f = p.get("N"), p.get("force_dim_axis")
    if n is not None and n.op == "num" and 1 <= n.args[0] <= 24 and f in (TRUE, FALSE):
        k = int(n.args[0]) + 1
        return (1, k) if f is TRUE else (k,)


def _kronrod_shapes(p):
    n = p.get("n")
    if n is not None and n.op == "num" and 1 <= n.args[0] <= 24:
        k = int(n.args[0])
        return [(k + 1,), (k + 1,), ((k + 1) // 2,)]
    return None


def sized(n, d=0):
    n = add(n, num(d))
    return (int(n.args[0]),) if n.op == "num" and 0 < n.args[0] <= 64 else (n,)


def _gauss_shapes(p):
    n = p.get("N")
    return None if n is None else [sized(n, 1), sized(n, 1)]


# kept calls whose result is an array of known shape with unknown entries
EXPLODE = {"modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes": _lgl_shape,
           "modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes": _gauss_shapes,
           "modepy.quadrature.kronrod.kronrod": _kronrod_shapes}

POINTWISE = {"modepy.nodes.warp_factor": (1, True), "modepy.modes.jacobi": (3, False)}

RETKIND = {
    "modepy.nodes.warp_factor": "real",
    "modepy.matrices.vandermonde": "mat",
    "modepy.shapes.unit_vertices_for_shape": "mat",
    "modepy.modes.orthonormal_basis_for_space": "obj:modepy.modes.Basis",
    "modepy.modes.basis_for_space": "obj:modepy.modes.Basis",
    "modepy.modes.monomial_basis_for_space": "obj:modepy.modes.Basis",
    "modepy.quadrature.quadrature_for_space": "obj:modepy.quadrature.Quadrature",
    "modepy.spaces.space_for_shape": "obj:modepy.spaces.FunctionSpace",
    "modepy.nodes.node_tuples_for_space": "seq:ntuple",
    "modepy.quadrature.jacobi_gauss.jacobi_gauss_lobatto_nodes": "ary",
    "pytools.generate_nonnegative_integer_tuples_summing_to_at_most": "seq:ntuple",
    "pytools.generate_nonnegative_integer_tuples_below": "seq:ntuple",
    "pytools.generate_decreasing_nonnegative_tuples_summing_to": "seq:ntuple",
    "pytools.generate_unique_permutations": "seq:ntuple",
    "builtins.dict": "dict",
    "numpy.linalg.inv": "mat", "numpy.linalg.pinv": "mat",
}


def _shape_vdm(I, t):
    fs, nodes = t.args[1].args[:2]
    sh = I.shape_of(nodes)
    nn = idx(sh, NEG1) if sh.op == "seq" else (idx(sh, ONE) if I.kind(nodes) == "mat" else mk("idx", sh, NEG1))
    return seq(nn, size(fs))


SHAPES = {"modepy.matrices.vandermonde": _shape_vdm}
