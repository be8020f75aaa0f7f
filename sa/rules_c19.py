"""Tabulated rules: the constructors are interpreted abstractly, the entries of the tables included, so that nodes and
weights become closed expressions in literals of the source; these are checked against the moments of the reference element.

Nothing of /repo runs: expressions are evaluated here, from the numbers that stand in the syntax tree."""
from __future__ import annotations
import itertools, math, os
from fractions import Fraction
from .interp import Interp, Opaque, unarr
from .loader import AnalysisError
from .terms import num, show
from .ob import Ob

AUX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "aux", "c19.py")

# (index in RULES of specs/aux/c19.py, name, dimension, simplex?)
FAMILIES = [(0, "JaskowiecSukumarQuadrature", 3, True), (1, "VioreanuRokhlinSimplexQuadrature", 2, True),
            (1, "VioreanuRokhlinSimplexQuadrature", 3, True), (2, "WitherdenVincentQuadrature", 2, False),
            (2, "WitherdenVincentQuadrature", 3, False), (3, "XiaoGimbutasSimplexQuadrature", 2, True),
            (3, "XiaoGimbutasSimplexQuadrature", 3, True)]
TOP = 60                      # orders -1..TOP are asked for
TOL_MOMENT = 2e-12            # relative to the volume
TOL_INSIDE = 1e-12


class Unknown(Exception):
    pass


def value(t, memo):
    r = memo.get(t.id)
    if r is None:
        a = t.args
        if t.op == "num":
            r = a[0].numerator / a[0].denominator
        elif t.op == "add":
            r = math.fsum(value(x, memo) for x in a)
        elif t.op == "mul":
            r = 1.0
            for x in a:
                r *= value(x, memo)
        elif t.op == "pow":
            b, e = value(a[0], memo), value(a[1], memo)
            if b < 0 and e != int(e) or b == 0 and e < 0:
                raise Unknown(show(t))
            r = b**e
        elif t.op == "pi":
            r = math.pi
        elif t.op == "abs":
            r = abs(value(a[0], memo))
        else:
            raise Unknown(show(t, 4))
        memo[t.id] = r
    return r


def rows(t, memo):
    t = unarr(t)
    if t.op != "seq":
        raise Unknown(show(t, 4))
    if t.args and unarr(t.args[0]).op == "seq":
        return [rows(x, memo) for x in t.args]
    return [value(x, memo) for x in t.args]


def moments(d, deg, simplex):
    """exponents and integrals of the monomials in ((1+x)/2, (1+y)/2, ...) over the reference element"""
    f = math.factorial
    for e in itertools.product(range(deg + 1), repeat=d):
        if sum(e) > deg:
            continue
        if simplex:
            q = Fraction(2**d)
            for i in e:
                q *= f(i)
            yield e, float(q / f(sum(e) + d))
        else:
            q = Fraction(2**d)
            for i in e:
                q /= i + 1
            yield e, float(q)


def problem(nodes, weights, deg, d, simplex):
    """what is wrong with a rule, or None"""
    n = len(weights)
    if len(nodes) != d or any(len(x) != n for x in nodes):
        return f"{n} weights for nodes of shape {len(nodes)} x {[len(x) for x in nodes]}"
    for j in range(n):
        x = [nodes[i][j] for i in range(d)]
        if any(c < -1 - TOL_INSIDE or c > 1 + TOL_INSIDE for c in x) or simplex and sum(x) > 2 - d + d * TOL_INSIDE:
            return f"node {j} = {x} lies outside the reference element"
    pw = []
    for i in range(d):
        u = [(1 + c) / 2 for c in nodes[i]]
        p = [[1.0] * n]
        for _ in range(deg):
            p.append([a * b for a, b in zip(p[-1], u)])
        pw.append(p)
    vol = 2.0**d / (math.factorial(d) if simplex else 1)
    part = {(): list(weights)}
    for k in range(d - 1):
        part = {e + (i,): [a * b for a, b in zip(v, pw[k][i])] for e, v in part.items() for i in range(deg + 1 - sum(e))}
    worst = (0.0, None)
    for e, q in moments(d, deg, simplex):
        s = math.fsum(a * b for a, b in zip(part[e[:-1]], pw[d - 1][e[-1]]))
        if not abs(s - q) <= worst[0]:
            worst = (abs(s - q), e, s, q)
    if not worst[0] <= TOL_MOMENT * vol:
        what = "the weights sum to" if not any(worst[1]) else f"the monomial ((1+x)/2)^{worst[1]} is integrated to"
        return f"{what} {worst[2]!r}, not {worst[3]!r}"
    return None


def tabulated(prog, i, order, d):
    m = prog.mod("spec_aux_c19")
    I = Interp(prog)
    I.expand_order = order
    try:
        v = I.finish(I.call_func(m.names["rule"][1], [num(i), num(order), num(d)], {}))
    except Opaque as e:
        raise Unknown(str(e))
    return v, I.inlined | I.calls


def family(prog, i, name, d, simplex):
    found, funcs, bad, missing = [], set(), [], []
    memo = {}
    for order in range(-1, TOP + 1):
        try:
            v, fs = tabulated(prog, i, order, d)
            funcs |= fs
            if v.op == "raise":
                if v.args[0] != "QuadratureRuleUnavailable" and "QuadratureRuleUnavailable" not in v.args[0].split("|"):
                    bad.append(f"{name}({order}, {d}) raises {v.args[0]}, not QuadratureRuleUnavailable")
                continue
            if v.op != "seq" or len(v.args) != 3 or v.args[2].op != "num" or v.args[2].args[0].denominator != 1:
                raise Unknown(show(v, 4))
            deg = int(v.args[2].args[0])
            p = problem(rows(v.args[0], memo), rows(v.args[1], memo), deg, d, simplex)
            found.append(order)
            if p:
                bad.append(f"{name}({order}, {d}), declared exact to degree {deg}: {p}")
        except Unknown as e:
            missing.append(f"{order}: {e}"[:80])
    rule = "tables interpreted as literals; moments of the reference element"
    what = f"{name}, dimension {d}: orders {found[0]}..{found[-1]}" if found else f"{name}, dimension {d}"
    if bad:
        return Ob(f"{name}_{d}d", "violation", what, "; ".join(bad[:3]), rule=rule, size=len(found), funcs=sorted(funcs), cases=len(found))
    if missing or not found:
        return Ob(f"{name}_{d}d", "undecided", what, "; ".join(missing[:3]), rule=rule, size=len(found), funcs=sorted(funcs))
    return Ob(f"{name}_{d}d", "ok", what, "", rule=rule, size=len(found), funcs=sorted(funcs), cases=len(found))


def dimensions(prog, i, name):
    """dimensions without table"""
    bad, funcs, missing = [], set(), []
    have = [d for k, _, d, _ in FAMILIES if k == i]
    for d in [x for x in range(-1, 6) if x not in have]:
        try:
            v, fs = tabulated(prog, i, 3, d)
        except Unknown as e:
            missing.append(str(e))
            continue
        funcs |= fs
        if v.op != "raise":
            bad.append(f"{name}(3, {d}) does not raise QuadratureRuleUnavailable")
        elif "QuadratureRuleUnavailable" not in v.args[0].split("|"):
            bad.append(f"{name}(3, {d}) raises {v.args[0]}, not QuadratureRuleUnavailable")
    verdict = "violation" if bad else "undecided" if missing else "ok"
    return Ob(f"{name}_dimensions", verdict, f"{name}: other dimensions", "; ".join(bad or missing),
              rule="abstract interpretation of the constructor", size=7 - len(have), funcs=sorted(funcs), cases=7 - len(have))


def jobs(prog, thorough):
    prog.extra["spec_aux_c19"] = AUX
    m = prog.mod("spec_aux_c19")
    for n, e in m.names.items():
        if e[0] == "import" and e[1].startswith("modepy") and e[2] and prog.resolve_import(e[1], e[2]) is None:
            raise AnalysisError(f"{e[1]}.{e[2]} not found")
    out = [(f"{n}_{d}d", lambda a=(i, n, d, s): family(prog, *a)) for i, n, d, s in FAMILIES]
    return out + [(f"{n}_dimensions", lambda a=(i, n): dimensions(prog, *a)) for i, n in sorted({(i, n) for i, n, _, _ in FAMILIES})]
