"""Small helpers for rules over the syntax tree: scopes, resolution of names, calls with the conditions they are under."""
from __future__ import annotations
import ast
from .loader import Func, Class, dotted


class Fn:
    """a function of the program (also nested ones and lambdas) with what is needed to resolve names in it"""

    def __init__(self, module, node, qual, parent=None, cls=None):
        self.module, self.node, self.qual, self.parent, self.cls = module, node, qual, parent, cls
        self.imports = {}
        self.nested = {}
        for st in own_nodes(node):
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                m = module.resolve_from(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = (m, a.name)

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    @property
    def allparams(self):
        a = self.node.args
        return self.params + [p.arg for p in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    @property
    def lineno(self):
        return self.node.lineno

    def where(self, n):
        return f"{self.module.path.split('/modepy/', 1)[-1]}:{getattr(n, 'lineno', self.lineno)} ({self.qual})"


def own_nodes(fn):
    """nodes of a function body that are not in a nested function"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def all_functions(prog, modules=None):
    """every function in the code modules -> {qual: Fn}, in source order"""
    out = {}

    def visit(body, m, prefix, parent, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any((dotted(d) or "").split(".")[-1] == "overload" for d in n.decorator_list):
                    continue
                q = f"{prefix}.{n.name}"
                if q in out:
                    q += f"#{n.lineno}"
                f = out[q] = Fn(m, n, q, parent, cls)
                if parent is not None:
                    parent.nested[n.name] = f
                inner(n, m, q, f)
            elif isinstance(n, ast.ClassDef):
                c = prog.classes.get(f"{prefix}.{n.name}")
                visit(n.body, m, f"{prefix}.{n.name}", parent, c)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for k in ("body", "orelse", "finalbody"):
                    visit(getattr(n, k, []), m, prefix, parent, cls)

    def inner(node, m, q, f):
        for n in own_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit([n], m, q, f, None)
            elif isinstance(n, ast.Lambda):
                lq = f"{q}.<lambda:{n.lineno}:{n.col_offset}>"
                g = out[lq] = Fn(m, n, lq, f)
                inner(n, m, lq, g)
            elif isinstance(n, ast.ClassDef):
                visit([n], m, q, f, None)

    for name in modules or prog.code_modules():
        m = prog.mod(name)
        visit(m.tree.body, m, name, None, None)
    return out


def locals_of(f):
    r = set(f.allparams)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
    return r


def resolve(prog, f, expr):
    """what an expression names: ("func", Func) ("class", Class) ("ext", dotted) ("module", name) ("local", name)
    ("nested", Fn) ("const", ...) or None"""
    d = expr if isinstance(expr, str) else dotted(expr) if not isinstance(expr, ast.Call) else None
    if d is None:
        return None
    parts = d.split(".")
    g = f
    while g is not None:
        if parts[0] in g.imports:
            r = prog.resolve_import(*g.imports[parts[0]])
            break
        if parts[0] in g.nested:
            return ("nested", g.nested[parts[0]]) if len(parts) == 1 else None
        if parts[0] in locals_of(g):
            return ("local", parts[0])
        g = g.parent
    else:
        return prog.resolve_dotted(f.module, d)
    for p in parts[1:]:
        if r is None:
            return None
        r = prog.resolve_import(r[1], p) if r[0] == "module" else ("ext", r[1] + "." + p) if r[0] == "ext" else None
    return r


def calls(f):
    return [n for n in own_nodes(f.node) if isinstance(n, ast.Call)]


def exits(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def guarded(f):
    """[(node, [(condition, polarity)...])] for every expression node of the function"""
    out = []

    def expr(n, g):
        if n is None or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        out.append((n, g))
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.IfExp):
            expr(n.test, g)
            expr(n.body, g + [(n.test, True)])
            expr(n.orelse, g + [(n.test, False)])
            return
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                expr(v, g + [(u, isinstance(n.op, ast.And)) for u in n.values[:i]])
            return
        for c in ast.iter_child_nodes(n):
            expr(c, g)

    def block(body, g):
        g = list(g)
        for s in body:
            if isinstance(s, ast.If):
                expr(s.test, g)
                block(s.body, g + [(s.test, True)])
                block(s.orelse, g + [(s.test, False)])
                if exits(s.body):
                    g.append((s.test, False))
                elif s.orelse and exits(s.orelse):
                    g.append((s.test, True))
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                expr(s.iter, g)
                expr(s.target, g)
                block(s.body, g)
                block(s.orelse, g)
            elif isinstance(s, ast.While):
                expr(s.test, g)
                block(s.body, g + [(s.test, True)])
                block(s.orelse, g)
            elif isinstance(s, ast.Try):
                block(s.body, g)
                for h in s.handlers:
                    block(h.body, g)
                block(s.orelse, g)
                block(s.finalbody, g)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    expr(i.context_expr, g)
                block(s.body, g)
            elif isinstance(s, ast.Match):
                expr(s.subject, g)
                for c in s.cases:
                    block(c.body, g + [(s.subject, None)])
            else:
                expr(s, g)

    body = f.node.body
    if isinstance(body, list):
        block(body, [])
    else:
        expr(body, [])
    return out


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def when_not_none(cond, names):
    """value of a condition when all *names* are not None: True, False, "any" (depends on other things) or
    None (depends on the names in a way that is not understood)"""
    if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
        r = when_not_none(cond.operand, names)
        return (not r) if isinstance(r, bool) else r
    if isinstance(cond, ast.BoolOp):
        rs = [when_not_none(v, names) for v in cond.values]
        stop = isinstance(cond.op, ast.Or)
        if any(r is stop for r in rs):
            return stop
        if None in rs:
            return None
        return "any" if "any" in rs else not stop
    if isinstance(cond, ast.Name) and cond.id in names:
        return True
    if isinstance(cond, ast.Constant):
        return bool(cond.value)
    if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
        a, b = cond.left, cond.comparators[0]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ast.Name) and x.id in names and isinstance(y, ast.Constant) and y.value is None:
                if isinstance(cond.ops[0], (ast.Is, ast.Eq)):
                    return False
                if isinstance(cond.ops[0], (ast.IsNot, ast.NotEq)):
                    return True
    if names_in(cond) & set(names):
        return None
    return "any"
