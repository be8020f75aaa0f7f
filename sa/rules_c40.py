"""The tables at module level and what caches keep stay as they are: nothing writes to them, and no function or constructor
hands out an array, list or dictionary of theirs that can be written to (an array made read-only can be handed out)."""
from __future__ import annotations
from . import alias
from .ob import Ob
from .rules_c39 import public


def run(prog, thorough):
    an = alias.Analysis(prog)
    obs = []
    seen = set()
    for q, s in an.sums.items():
        f = an.fns[q]
        for o, (where, what) in s.writes.items():
            if o[0] in ("global", "cache"):
                obs.append(Ob(f"{q}:{o[1]}", "violation", where, f"writes to {'the table' if o[0] == 'global' else 'what is cached for'} {o[1]}: {what}",
                              "module-level tables and cached results are not written to", 1, [q]))
        pub = public(f, an)
        for v, how in ((s.ret if pub else None, "returns"), (s.stores, "stores in the new object")):
            for o in sorted(v.all() if v is not None else ()):
                if o[0] in ("global", "cache") and (how, o) not in seen and not s.writes.get(o):
                    if how == "returns" and ("stores in the new object", o) in seen:
                        continue
                    seen.add((how, o))
                    obs.append(Ob(f"{q}:{o[1]}", "violation", f.where(f.node), f"{how} something of "
                                  f"{'the table' if o[0] == 'global' else 'what is cached for'} {o[1]} that can be written to",
                                  "module-level tables and cached results are not handed out writable", 1, [q]))
    bad = {x.name.split(":")[0] for x in obs}
    for m in sorted({f.module.name for f in an.fns.values()}):
        fs = [f for f in an.fns.values() if f.module.name == m]
        if not any(f.qual in bad for f in fs):
            obs.append(Ob(m, "ok", m, f"{len(fs)} functions", "tables and cached results neither written to nor handed out writable", len(fs),
                          [f.qual for f in fs]))
    obs.append(Ob("tables", "ok", "modepy", ", ".join(sorted(an.globals)), "module-level objects followed", len(an.globals), []))
    return obs
