"""No public function, method or function it returns writes to what it was given.

May-alias and effect analysis over all of the package: a write (item or slice assignment, augmented assignment of something
mutable, out=, a mutating method or numpy routine, also through calls) whose target may be an argument, a view of one, or
something an argument holds."""
from __future__ import annotations
from . import alias
from .ob import Ob

EXEMPT = ("__init__", "__post_init__", "__new__", "__setstate__", "__setattr__", "__delattr__", "__setitem__", "__iadd__",
          "__imul__", "__isub__", "__itruediv__")


def implementations(an):
    """the implementations of functions dispatched on the type of the argument"""
    return {id(h.node) for t in an.disp.values() for h in t.values()}


def public(f, an):
    g = f
    while g.parent is not None:
        g = g.parent
    n = g.node.name
    if id(g.node) in implementations(an):
        return True
    return (not n.startswith("_") or n.startswith("__") and n.endswith("__")) and \
        (g.cls is None or not g.cls.qual.split(".")[-1].startswith("_"))


def findings(an):
    out = []
    for q, s in an.sums.items():
        f = an.fns[q]
        for o, (where, what) in s.writes.items():
            if o[0] != "param":
                continue
            g = an.fns[o[1]]
            if not public(g, an) or o[1] != q and not _inside(f, g):
                continue
            if g.node.__class__.__name__ == "Lambda":
                continue
            if o[2] in ("self", "cls") and g.node.name in EXEMPT:
                continue
            out.append((f, o, where, what))
    return out


def _inside(f, g):
    while f is not None:
        if f is g:
            return True
        f = f.parent
    return False


def run(prog, thorough):
    an = alias.Analysis(prog)
    by = {}
    for f, o, where, what in findings(an):
        by.setdefault(f.module.name, []).append((f, o, where, what))
    obs = []
    for m in sorted({f.module.name for f in an.fns.values()}):
        fs = [f for f in an.fns.values() if f.module.name == m]
        bad = by.get(m, [])
        rule = "no write reaches an argument, a view of one, or what one holds"
        for f, o, where, what in bad[:5]:
            obs.append(Ob(f"{f.qual}:{o[2]}", "violation", where,
                          f"writes to {'what ' if o[3] else ''}argument {o[2]!r} of {o[1]}{' holds' if o[3] else ''}: {what}", rule, 1, [f.qual]))
        if not bad:
            obs.append(Ob(m, "ok", f"{m}", f"{len(fs)} functions", rule, len(fs), [f.qual for f in fs]))
    obs.append(Ob("sites", "ok", "modepy", f"{an.sites} writes to something looked at", "effect analysis", an.sites, []))
    return obs
