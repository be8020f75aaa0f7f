"""Obligations written as pairs of small programs r_<name> / s_<name>: what the code base computes, and what it has to compute.

Both are analysed (never run) by the same value-graph construction and compared by value numbering.  Parameter
annotations give the kind of each symbolic parameter, e.g.  n: "nat"  n: "0..4" (specialised)  n: "nat|0..4"
(symbolic first; specialised when that does not decide).
"""
from __future__ import annotations
import ast, itertools, os, time
from .terms import *
from .loader import Program, AnalysisError, Func
from .interp import Interp, Opaque, arr
from . import models, vn
from . import terms as tm

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class Result:
    def __init__(self, name, verdict, why, where, cases, funcs, leaves, secs):
        self.name, self.verdict, self.why, self.where = name, verdict, why, where
        self.cases, self.funcs, self.leaves, self.secs = cases, funcs, leaves, secs


def parse_kind(s):
    """-> (symbolic kind or None, literal alternatives)"""
    s = s.strip()
    if "|" in s:
        a, b = s.split("|")
        return a.strip(), parse_lits(b)
    if s[0] in "0123456789-'\"" or s.startswith("None") or s.startswith("lit "):
        return None, parse_lits(s[4:] if s.startswith("lit ") else s)
    return s, []


def parse_lits(s):
    out = []
    for p in s.split(","):
        p = p.strip()
        if ".." in p:
            lo, hi = p.split("..")
            out += [num(i) for i in range(int(lo), int(hi) + 1)]
        elif p == "None":
            out.append(NONE)
        elif p in ("True", "False"):
            out.append(boolc(p == "True"))
        elif p[0] in "'\"":
            out.append(string(p[1:-1]))
        else:
            out.append(num(__import__("fractions").Fraction(p)))
    return out


def symbolic(I, name, kind):
    """value of a symbolic parameter; compound kinds build arrays and tuples"""
    if kind.startswith("tup:"):
        n, k = kind[4:].split(" ", 1)
        return seq(*[symbolic(I, f"{name}{i}", k) for i in range(int(n))])
    if kind.startswith("list:"):
        return I.newref(symbolic(I, name, "tup:" + kind[5:]))
    if kind.startswith("arr:"):
        return arr(symbolic(I, name, "tup:" + kind[4:]))
    if kind.startswith("mat "):                     # matrix with named sizes
        r = sym(name, "mat")
        a, b = kind[4:].split()
        I.symshape[r] = seq(*[num(int(x)) if x.isdigit() else sym(x, "nat") for x in (a, b)])
        return r
    if kind.startswith("nd "):                      # array of higher rank with named sizes
        r = sym(name, "nd")
        I.symshape[r] = seq(*[num(int(x)) if x.isdigit() else sym(x, "nat") for x in kind[3:].split()])
        return r
    if kind.startswith("vec "):
        r = sym(name, "vec")
        x = kind[4:].strip()
        n = num(int(x)) if x.isdigit() else sym(x, "nat")
        I.symshape[r] = seq(n)
        return r
    return sym(name, kind)


class Spec:
    def __init__(self, prog: Program, pid: str):
        self.prog, self.pid = prog, pid
        self.modname = f"spec_{pid.lower()}"
        path = os.path.join(SPECDIR, pid.lower() + ".py")
        prog.extra[self.modname] = path
        self.mod = prog.mod(self.modname)
        self.settings = {}
        for st in self.mod.tree.body:
            if isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        try:
                            self.settings[tg.id] = ast.literal_eval(st.value)
                        except ValueError:
                            pass

    def names(self):
        return [k[2:] for k, v in self.mod.names.items() if k.startswith("r_") and v[0] == "func"]

    def check_anchors(self):
        """every modepy name the reference programs use must still exist"""
        for n, e in list(self.mod.names.items()):
            if e[0] == "import" and e[1].startswith("modepy"):
                if e[2] is not None and self.prog.resolve_import(e[1], e[2]) is None:
                    if e[2].startswith("_"):
                        continue                 # private: obligations that need it become undecided
                    raise AnalysisError(f"{e[1]}.{e[2]} not found")
                if e[2] is None:
                    self.prog.mod(e[1])

    def opt(self, kind, name, default):
        r = list(self.settings.get(kind, default)) if isinstance(default, (list, tuple)) else self.settings.get(kind, default)
        x = self.settings.get(f"{kind}_{name}")
        if x is None:
            return r
        return r + list(x) if isinstance(default, (list, tuple)) else x

    def run(self, name, thorough=False) -> Result:
        t0 = time.time()
        fr = self.mod.names["r_" + name][1]
        fs = self.mod.names["s_" + name][1]
        args = fr.node.args.args
        kinds = []
        for a in args:
            if a.annotation is None:
                kinds.append(("any", []))
            else:
                kinds.append(parse_kind(ast.literal_eval(a.annotation)))
        keep = set(self.opt("KEEP", name, []))
        expand = set(self.opt("EXPAND", name, []))
        extra = set(self.opt("HEADS", name, []))
        self.missing = tuple(self.opt("MISSING", name, []))
        self.stand_ins = {}
        for q, g in (self.settings.get("REPLACE_" + name) or self.settings.get("REPLACE") or {}).items():
            self.stand_ins[q] = self.mod.names[g][1]
            m, _, n = q.rpartition(".")
            if self.prog.resolve_import(m, n) is None:
                return Result(name, "undecided", f"{q} not found", self.where(fr), [], set(), 0, 0)
        keep -= set(self.opt("NOKEEP", name, []))
        models.FINITE = tm.FINITE = bool(self.opt("FINITE", name, False))
        vn.GAUSS = bool(self.opt("GAUSS", name, False))
        cases = []
        funcs = set()
        leaves = 0
        worst = None
        # fully symbolic first
        order = []
        base = [[None] if k is not None else l for k, l in kinds]
        spec = [[None] if not l else l for k, l in kinds]
        if not thorough:
            cap = self.opt("QUICKMAX", name, None)
        for c in itertools.product(*base):
            order.append(c)
        v0 = []
        for c in order:
            v, fn = self.one(fr, fs, args, kinds, c, keep, expand, extra)
            funcs |= fn
            leaves += v.leaves
            cases.append((self.case(args, c), v))
            v0.append(v)
            if v.kind == "diff":
                break
        kind = "diff" if any(v.kind == "diff" for v in v0) else "undecided" if any(v.kind != "equal" for v in v0) else "equal"
        if any(k is not None and l for k, l in kinds) and kind == "undecided":
            # specialise
            v1 = []
            for c in itertools.product(*spec):
                v, fn = self.one(fr, fs, args, kinds, c, keep, expand, extra)
                funcs |= fn
                leaves += v.leaves
                cases.append((self.case(args, c), v))
                v1.append(v)
                if v.kind == "diff":
                    break
            kind = "diff" if any(v.kind == "diff" for v in v1) else "undecided" if any(
                v.kind != "equal" for v in v1) else "equal"
            if kind == "equal":
                kind = "specialised"
        whys = [f"{c}: {v.why}" if c else v.why for c, v in cases if v.kind == "diff"] or \
               [f"{c}: {v.why}" if c else v.why for c, v in cases if v.kind == "undecided"]
        return Result(name, kind, whys[0] if whys else "", self.where(fr), cases, funcs, leaves, time.time() - t0)

    def where(self, fr):
        return (ast.get_docstring(fr.node) or "").strip() or fr.qual

    def case(self, args, c):
        return ", ".join(f"{a.arg}={show(x)}" for a, x in zip(args, c) if x is not None)

    def one(self, fr, fs, args, kinds, lits, keep, expand, extra):
        def params(I):
            return [l if l is not None else symbolic(I, a.arg, k) for a, (k, _), l in zip(args, kinds, lits)]
        IS = Interp(self.prog, keep=keep, expand=expand)
        IS.stand_ins = self.stand_ins
        IS.missing = self.missing
        S = self.term(IS, fs, params(IS))
        IR = Interp(self.prog, keep=keep, expand=expand)
        IR.stand_ins = self.stand_ins
        IR.missing = self.missing
        R = self.term(IR, fr, params(IR))
        fn = IR.inlined | IR.calls
        if S is None or contains(S, lambda t: t.op in ("undef",)):
            return vn.Verdict("undecided", f"specification not analysable: {getattr(IS, 'why', '')} " + (
                show(S, 6)[:200] if S is not None else "")), fn
        if R is None:
            return vn.Verdict("undecided", "not analysable: " + getattr(IR, "why", "")), fn
        try:
            v = vn.compare(R, S, extra | {"raise"}, hook=hook_of(IR, IS))
        except (Exception, RecursionError) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            v = vn.Verdict("undecided", f"internal: {type(e).__name__}: {e}")
        return v, fn

    def term(self, I, f, args):
        try:
            v = I.call_func(f, args, {})
            return fix(I.finish(v))
        except Opaque as e:
            I.why = f"{e} (line {I.lineno})"
            return None
        except RecursionError:
            I.why = "recursion"
            return None
        except Exception as e:
            # a limit of the analysis, not of the code under analysis
            if os.environ.get("SA_DEBUG"):
                raise
            I.why = f"internal: {type(e).__name__}: {e}"
            return None


def fix(t):
    m = {}
    for x in subterms(t):
        if x.op == "ext" and x.args[0] == "speclib.ANY":
            m[x] = mk("any")
    if m:
        from .interp import replace
        t = replace(t, m)
    return t


def hook_of(IR, IS):
    def hook(t):
        for I in (IR, IS):
            if t.op == "closure" and t.args[0] not in I.closures:
                continue
            r = I.to_lam(t)
            if r is not None:
                return r
        return None
    hook.shapes = (IR.shape_of, IS.shape_of)
    return hook
