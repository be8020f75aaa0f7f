"""Symbolic derivative of a term with respect to a symbol (used by reference programs as speclib.D)."""
from __future__ import annotations
from fractions import Fraction
from .terms import *

HALF = num(Fraction(1, 2))


class NotDifferentiable(Exception):
    pass


def d(t: Term, x: Term) -> Term:
    if x not in free(t):
        if t.op in ("seq",):
            return seq(*[d(y, x) for y in t.args])
        if t.op == "arr":
            return mk("arr", d(t.args[0], x))
        return ZERO
    if t is x:
        return ONE
    op, a = t.op, t.args
    if op == "add":
        return add(*[d(y, x) for y in a])
    if op == "mul":
        return add(*[mul(d(y, x), *(a[:i] + a[i+1:])) for i, y in enumerate(a) if x in free(y)])
    if op == "pow":
        b, e = a
        if x in free(e):
            raise NotDifferentiable("exponent")
        return mul(e, power(b, sub(e, ONE)), d(b, x))
    if op == "ite":
        return ite(a[0], d(a[1], x), d(a[2], x))
    if op == "seq":
        return seq(*[d(y, x) for y in a])
    if op == "arr":
        return mk("arr", d(a[0], x))
    if op == "like":
        return d(a[1], x)
    if op == "map" and x not in free(a[0]):
        k = fresh("k", "nat")
        return map_(a[0], k, d(subst(a[2], {a[1]: k}), x))
    if op == "sum":
        return sum_(d(a[0], x))
    if op == "fn" and len(a) == 2:
        n, y = a
        dy = d(y, x)
        f = lambda nm: mk("fn", nm, y)
        r = {"sin": lambda: f("cos"), "cos": lambda: neg(f("sin")), "exp": lambda: t, "log": lambda: power(y, NEG1),
             "tan": lambda: add(ONE, power(f("tan"), TWO)), "tanh": lambda: sub(ONE, power(t, TWO)),
             "sinh": lambda: f("cosh"), "cosh": lambda: f("sinh"),
             "arcsin": lambda: power(sub(ONE, power(y, TWO)), neg(HALF)),
             "arccos": lambda: neg(power(sub(ONE, power(y, TWO)), neg(HALF))),
             "arctan": lambda: power(add(ONE, power(y, TWO)), NEG1),
             "arctanh": lambda: power(sub(ONE, power(y, TWO)), NEG1)}.get(n)
        if r is None:
            raise NotDifferentiable(n)
        return mul(r(), dy)
    if op == "ellip" and x not in free(a[2]):
        n, u, m = a
        sn, cn, dn = [mk("ellip", k, u, m) for k in ("sn", "cn", "dn")]
        return mul({"sn": mul(cn, dn), "cn": neg(mul(sn, dn)), "dn": neg(mul(m, sn, cn)), "am": dn}[n], d(u, x))
    if op == "call" and a[0].op == "func" and a[0].args[0] == "modepy.modes.jacobi" and len(a) == 2 and len(a[1].args) == 4:
        al, be, n, y = a[1].args
        if any(x in free(z) for z in (al, be, n)):
            raise NotDifferentiable("jacobi parameters")
        # the classical identity  d/dy P_n^(al,be) = sqrt(n (n+al+be+1)) P_(n-1)^(al+1,be+1)  for the orthonormal family
        g = mul(power(mul(n, add(n, al, be, ONE)), HALF),
                mk("call", a[0], mk("args", add(al, ONE), add(be, ONE), sub(n, ONE), y)))
        return mul(ite(eq0(n), ZERO, g), d(y, x))
    raise NotDifferentiable(op)
