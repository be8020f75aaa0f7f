"""Random numbers flow from the generator parameter only.

Over every function reachable from random_nodes_for_shape: a source of randomness other than the parameter may only be
evaluated where the parameter is None; a call to a function that takes a generator hands on one's own; none is cached."""
from __future__ import annotations
import ast
from .loader import AnalysisError, dotted
from .ob import Ob
from . import flow

SOURCES = ("numpy.random.", "random.", "secrets.", "os.urandom", "uuid.", "time.")
FRESH = ("numpy.random.default_rng", "numpy.random.Generator")


def reachable(prog, fns, roots):
    seen, todo = {}, list(roots)
    disp = prog.dispatch_table()
    byfunc = {id(f.node): f for f in fns.values()}
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen[f.qual] = f
        for c in flow.own_nodes(f.node):
            if not isinstance(c, (ast.Name, ast.Attribute)):
                continue
            r = flow.resolve(prog, f, c)
            if r is None:
                continue
            if r[0] == "func":
                g = byfunc.get(id(r[1].node))
                if g is not None:
                    todo.append(g)
                for h in disp.get(r[1].qual, {}).values():
                    g = byfunc.get(id(h.node))
                    if g is not None:
                        todo.append(g)
            elif r[0] == "nested":
                todo.append(r[1])
        for g in fns.values():
            if g.parent is f:
                todo.append(g)
    return seen


def bound_arg(call, fn, param):
    """the argument a call binds to a parameter; None if nothing; "?" if not known"""
    for k in call.keywords:
        if k.arg == param:
            return k.value
    if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
        return "?"
    ps = fn.params
    if param in ps:
        i = ps.index(param)
        if fn.cls is not None and ps and ps[0] in ("self", "cls"):
            i -= 1
        if i < len(call.args):
            return call.args[i]
    return None


def run(prog, thorough):
    prog.load_all()
    fns = flow.all_functions(prog)
    root = prog.find("modepy.nodes.random_nodes_for_shape")
    byfunc = {id(f.node): f for f in fns.values()}
    roots = [byfunc[id(root.node)]]
    for h in prog.dispatch_table().get(root.qual, {}).values():
        if id(h.node) in byfunc:
            roots.append(byfunc[id(h.node)])
    reach = reachable(prog, fns, roots)
    takes = {}
    for f in reach.values():
        for p in f.allparams:
            if p == "rng" or p.endswith("_rng") or p == "generator":
                takes[f.qual] = p
    if not takes:
        raise AnalysisError("no function takes a generator")
    obs = []
    for f in reach.values():
        bad, n = [], 0
        params = set(f.allparams)
        mine = takes.get(f.qual)
        if mine:
            for d in getattr(f.node, "decorator_list", []):
                if "cache" in (dotted(d) or "") or "memoize" in (dotted(d) or ""):
                    bad.append((d, "the result is cached although it depends on the state of the generator"))
        for c, g in flow.guarded(f):
            if isinstance(c, (ast.Name, ast.Attribute)) and not isinstance(getattr(c, "ctx", None), ast.Store):
                r = flow.resolve(prog, f, c)
                if r and r[0] == "const":
                    for x in ast.walk(r[2]):
                        if isinstance(x, ast.Call):
                            q = flow_ext(prog, r[1], x.func)
                            if q and q.startswith(SOURCES[:3]):
                                bad.append((c, f"uses the shared generator {dotted(c)}"))
            if not isinstance(c, ast.Call):
                continue
            r = flow.resolve(prog, f, c.func)
            if r is None:
                continue
            if r[0] == "ext" and r[1].startswith(SOURCES):
                n += 1
                if r[1] in FRESH and any(flow.names_in(a) & params for a in c.args):
                    continue
                if r[1].startswith("time.") or not params:
                    continue
                v = [(when, pol) for when, pol in ((flow.when_not_none(t, {mine} if mine else params), p) for t, p in g)]
                if any(pol is None or when is None or when is not pol and when != "any" for when, pol in v):
                    continue
                bad.append((c, f"{r[1]} is evaluated although a generator was given"))
            elif r[0] in ("func", "nested"):
                quals = [r[1].qual]
                if r[0] == "func":
                    quals += [h.qual for h in prog.dispatch_table().get(r[1].qual, {}).values()]
                for q in quals:
                    h = reach.get(q)
                    if h is None or q not in takes:
                        continue
                    n += 1
                    a = bound_arg(c, h, takes[q])
                    if a == "?":
                        continue
                    if a is None or isinstance(a, ast.Constant):
                        v = [(flow.when_not_none(t, {mine} if mine else params), p) for t, p in g]
                        if any(pol is None or when is None or when is not pol and when != "any" for when, pol in v):
                            continue
                        bad.append((c, f"{r[1].qual.split('.')[-1]} is called without the generator"))
                        break
        obs.append(Ob("flow:" + f.qual, "violation" if bad else "ok", f.where(bad[0][0]) if bad else f.where(f.node),
                      "; ".join(sorted({f'{b[1]} (line {b[0].lineno})' for b in bad})), rule="random numbers flow from the generator parameter only",
                      funcs=[f.qual], size=n))
    return obs


def flow_ext(prog, module, e):
    d = dotted(e)
    if d is None:
        return None
    r = prog.resolve_dotted(module, d)
    return r[1] if r and r[0] == "ext" else None
