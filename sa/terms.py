"""Hash-consed value-graph terms and smart constructors."""
from __future__ import annotations
from fractions import Fraction
import itertools

_TABLE: dict = {}
_ids = itertools.count()


class Term:
    __slots__ = ("op", "args", "id", "_free", "_h", "_flags")

    def __repr__(self):
        return show(self)

    # identity based equality/hash (terms are interned)


def mk(op, *args) -> Term:
    if op == "alloc" and args[1] is not ZERO and args[0].op == "seq" and ZERO in args[0].args:
        args = (args[0], ZERO)          # nothing in it
    key = (op,) + tuple((a.id if isinstance(a, Term) else ("#", type(a).__name__, a)) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        t.id = next(_ids)
        t._free = None
        t._h = None
        t._flags = None
        _TABLE[key] = t
    return t


def kids(t: Term):
    for a in t.args:
        if isinstance(a, Term):
            yield a


# {{{ leaves

def num(x) -> Term:
    if x in (float("inf"), float("-inf")):
        raise ValueError("inf")
    if isinstance(x, float):
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO, ONE, TWO = num(0), num(1), num(2)
NEG1 = num(-1)
TRUE, FALSE, NONE = mk("true"), mk("false"), mk("none")
NEWAXIS = NONE
ELLIPSIS = mk("ellipsis")


def boolc(b) -> Term:
    return TRUE if b else FALSE


def string(s) -> Term:
    return mk("str", s)


def sym(name, kind="any") -> Term:
    """kind: int, nat (>=0), pos (>=1), real, vec (1D array), mat (2D), fn, seq, str, 'obj:<qualified class>', any"""
    return mk("sym", name, kind)


_fresh = itertools.count()


def fresh(prefix, kind="any") -> Term:
    return sym(f"{prefix}%{next(_fresh)}", kind)


def opaque(why, *deps) -> Term:
    return mk("opaque", why, *deps)


def undef(name) -> Term:
    return mk("undef", name)

# }}}


def free(t: Term) -> frozenset:
    """free symbols (including binder variables) of a term"""
    if t._free is None:
        if t.op in ("sym", "bv"):
            f = frozenset((t,))
        else:
            f = frozenset()
            for k in kids(t):
                fk = free(k)
                if fk:
                    f = f | fk if f else fk
            if t.op in BINDERS:
                f = f - frozenset(bound_of(t))
            if t.op == "closure":
                f = frozenset()
        t._free = f
    return t._free


BINDERS = ("map", "loop", "while", "lam", "exists", "filter")


def bound_of(t: Term):
    if t.op in ("map", "exists", "filter"):
        return (t.args[1],)
    if t.op == "lam":
        return t.args[0].args
    if t.op in ("loop", "while"):
        return (t.args[1],) + t.args[2].args
    return ()


def height(t: Term) -> int:
    if t._h is None:
        h = 0
        for k in kids(t):
            h = max(h, height(k))
        if t.op in BINDERS:
            h += 1
        t._h = h
    return t._h


def contains(t: Term, pred, _seen=None) -> bool:
    if _seen is None:
        _seen = set()
    if t.id in _seen:
        return False
    _seen.add(t.id)
    if pred(t):
        return True
    return any(contains(k, pred, _seen) for k in kids(t))


def subterms(t: Term, _seen=None):
    if _seen is None:
        _seen = set()
    if t.id in _seen:
        return
    _seen.add(t.id)
    yield t
    for k in kids(t):
        yield from subterms(k, _seen)


# {{{ arithmetic

def is_num(t, v=None):
    return t.op == "num" and (v is None or t.args[0] == v)


def isbot(t):
    return t.op == "raise"


def _strict(ts):
    for t in ts:
        if t.op == "raise":
            return t
    return None


def add(*ts) -> Term:
    b = _strict(ts)
    if b is not None:
        return b
    c = Fraction(0)
    coefs: dict = {}
    order = []
    stack = list(ts)
    while stack:
        t = stack.pop(0)
        if t.op == "add":
            stack[:0] = list(t.args)
        elif t.op == "num":
            c += t.args[0]
        elif t in (TRUE, FALSE):
            c += 1 if t is TRUE else 0
        else:
            k, base = Fraction(1), t
            if t.op == "mul" and t.args[0].op == "num":
                k = t.args[0].args[0]
                base = mul(*t.args[1:]) if len(t.args) > 2 else t.args[1]
            if base not in coefs:
                coefs[base] = Fraction(0)
                order.append(base)
            coefs[base] += k
    out = []
    for base in order:
        k = coefs[base]
        if k == 0:
            continue
        out.append(base if k == 1 else mul(num(k), base))
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("add", *out)


def mul(*ts) -> Term:
    b = _strict(ts)
    if b is not None:
        return b
    c = Fraction(1)
    out = []
    stack = list(ts)
    while stack:
        t = stack.pop(0)
        if t.op == "mul":
            stack[:0] = list(t.args)
        elif t.op == "num":
            c *= t.args[0]
        elif t in (TRUE, FALSE):
            c *= 1 if t is TRUE else 0
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if not out:
        return num(c)
    out.sort(key=lambda t: t.id)
    if c != 1:
        if len(out) == 1 and out[0].op == "add":   # distribute constants over sums
            return add(*[mul(num(c), a) for a in out[0].args])
        out = [num(c)] + out
    if len(out) == 1:
        return out[0]
    return mk("mul", *out)


def neg(t):
    return mul(NEG1, t)


def sub(a, b):
    return add(a, neg(b))


def power(b: Term, e: Term) -> Term:
    s = _strict((b, e))
    if s is not None:
        return s
    if e.op == "num":
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if b.op == "num" and ev.denominator == 1 and (b.args[0] != 0 or ev > 0) and abs(ev) < 200:
            return num(b.args[0] ** int(ev))
        if b.op == "num" and ev.denominator == 2 and b.args[0] > 0:
            # exact square roots of rationals
            import math
            f = b.args[0]
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return power(num(Fraction(n, d)), num(ev * 2))
        if b.op == "pow" and b.args[1].op == "num" and ev.denominator == 1:
            return power(b.args[0], num(b.args[1].args[0] * ev))
    if b is ONE:
        return ONE
    return mk("pow", b, e)


def div(a, b):
    if b.op == "num" and b.args[0] == 0:
        return opaque("division by zero", a)
    return mul(a, power(b, NEG1))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def floordiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    return mk("floordiv", a, b)


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if a.op == "str":
        return opaque("string formatting")
    return mk("mod", a, b)


def linform(t: Term):
    """t as ({atom: coef}, const), sums only"""
    atoms: dict = {}
    const = Fraction(0)
    for s in (t.args if t.op == "add" else (t,)):
        if s.op == "num":
            const += s.args[0]
        elif s.op == "mul" and s.args[0].op == "num":
            base = mul(*s.args[1:])
            if base.op == "add":
                a2, c2 = linform(base)
                for k, v in a2.items():
                    atoms[k] = atoms.get(k, 0) + v * s.args[0].args[0]
                const += c2 * s.args[0].args[0]
            else:
                atoms[base] = atoms.get(base, 0) + s.args[0].args[0]
        else:
            atoms[s] = atoms.get(s, 0) + 1
    return {k: v for k, v in atoms.items() if v != 0}, const

# }}}


# {{{ kinds

INTK = ("int", "nat", "pos")
NUMK = {"real", "jac", "nat", "int", "pos", "vec", "mat", "ary"}


def is_int(t: Term) -> bool:
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return t.args[1] in INTK
    if t.op == "bv":
        return True
    if t.op in ("add", "mul"):
        return all(is_int(a) for a in t.args)
    if t.op == "pow":
        return is_int(t.args[0]) and is_nonneg(t.args[1]) and is_int(t.args[1])
    if t.op in ("size", "floordiv"):
        return t.op == "size" or all(is_int(a) for a in t.args)
    if t.op == "mod":
        return all(is_int(a) for a in t.args)
    if t.op == "attr":
        return t.args[1] in ("dim", "spatial_dim", "space_dim", "order", "ndim", "nvertices", "nfaces")
    if t.op == "idx":
        # components of an index tuple, or of a shape
        b = t.args[0]
        if b.op == "attr" and b.args[1] == "shape":
            return True
        return b.op == "sym" and b.args[1] in ("ntuple",)
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ("sum", "prod"):
        m = t.args[0]
        return m.op == "map" and is_int(m.args[2])
    return False


def is_nonneg(t: Term) -> bool:
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "sym":
        return t.args[1] in ("nat", "pos")
    if t.op == "bv":
        return True
    if t.op in ("add", "mul"):
        return all(is_nonneg(a) for a in t.args)
    if t.op == "pow":
        return is_nonneg(t.args[0]) and is_int(t.args[0])
    if t.op in ("size", "abs"):
        return True
    if t.op == "attr":
        return t.args[1] in ("dim", "spatial_dim", "space_dim", "order", "ndim", "nvertices", "nfaces")
    if t.op == "idx":
        b = t.args[0]
        return (b.op == "attr" and b.args[1] == "shape") or (b.op == "sym" and b.args[1] == "ntuple")
    return False

# }}}


# {{{ booleans and conditions
#
# atoms: eq0(e), le0(e) [integers], lt0(e) [reals], near0(e), truthy(x), isinst(x, c), haskey(d, k), ...

def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    if isbot(c):
        return c
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE if not out or not any(isbot(o) for o in out) else out[0]
        if c is TRUE or c in out:
            continue
        if isbot(c):
            if not out:
                return c
        if c.op == "and":
            out.extend(a for a in c.args if a not in out)
        else:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", *out)


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in out:
            continue
        if c.op == "or":
            out.extend(a for a in c.args if a not in out)
        else:
            out.append(c)
    for c in out:
        if c.op != "and" and c.op != "or" and (c.args[0] if c.op == "not" else mk("not", c)) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("or", *out)


def _lin_key(atoms):
    return sorted(atoms, key=lambda t: (t.op != "sym", t.id))


def _strip_content(e):
    """scale linear form so the leading coefficient has absolute value 1; returns (atoms, const, sign)"""
    atoms, const = linform(e)
    if not atoms:
        return None
    lead = _lin_key(atoms)[0]
    k = atoms[lead]
    ak = abs(k)
    atoms = {a: Fraction(v) / ak for a, v in atoms.items()}
    return atoms, Fraction(const) / ak, (1 if k > 0 else -1), ak


def lin_build(atoms, const):
    return add(*[mul(num(v), a) for a, v in atoms.items()], num(const))


def eq0(e):
    if isbot(e):
        return e
    if e.op == "num":
        return boolc(e.args[0] == 0)
    if e.op == "ite":
        return ite(e.args[0], eq0(e.args[1]), eq0(e.args[2]))
    r = _strip_content(e)
    if r:
        atoms, const, sgn, _ = r
        if all(is_int(a) for a in atoms) and all(is_nonneg(a) for a in atoms):
            if all(v > 0 for v in atoms.values()) and const > 0 or all(v < 0 for v in atoms.values()) and const < 0:
                return FALSE
            if const == 0 and len(atoms) > 1 and (all(v > 0 for v in atoms.values()) or all(v < 0 for v in atoms.values())):
                return and_(*[eq0(a) for a in atoms])
            if len(atoms) == 1 and const == 0:
                a, = atoms
                if a.op == "sym" and a.args[1] == "pos":
                    return FALSE
        e = lin_build({a: v * sgn for a, v in atoms.items()}, const * sgn)
    return mk("eq0", e)


def eq(a, b):
    if a is b:
        return TRUE
    s = _strict((a, b))
    if s is not None:
        return s
    consts = ("str", "none", "true", "false", "num", "seq", "cls", "func", "ext")
    if a.op in ("str", "none", "cls", "func", "ext") or b.op in ("str", "none", "cls", "func", "ext"):
        if a.op in consts and b.op in consts:
            if a.op == "seq" or b.op == "seq":
                return FALSE
            return boolc(a is b)
        if a.op == "ite":
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.id > b.id:
            a, b = b, a
        return mk("same", a, b)
    if a.op == "seq" and b.op == "seq":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in ("seq", "map", "concat", "str", "slice", "dict") or b.op in ("seq", "map", "concat", "dict"):
        if a.id > b.id:
            a, b = b, a
        return mk("same", a, b)
    return eq0(sub(a, b))


def le(a, b):
    return _cmp(sub(a, b), False)


def lt(a, b):
    return _cmp(sub(a, b), True)


FINITE = False


def _infinite(e):
    """sign of an expression that is an infinity plus finite values, or None"""
    inf = mk("ext", "numpy.inf")
    atoms, _ = linform(e)
    return (1 if atoms[inf] > 0 else -1) if inf in atoms and not any(inf in subterms(a) for a in atoms if a is not inf) else None


def _cmp(e, strict):
    """e <= 0 (or < 0)"""
    if FINITE and e.op in ("ext", "mul", "add"):
        i = _infinite(e)
        if i is not None:
            return boolc(i < 0)
    if isbot(e):
        return e
    if e.op == "num":
        return boolc(e.args[0] < 0 if strict else e.args[0] <= 0)
    if e.op == "ite":
        return ite(e.args[0], _cmp(e.args[1], strict), _cmp(e.args[2], strict))
    z = closed(e)
    if z is not None and abs(z[0]) > 1e-9 * z[1]:
        return boolc(z[0] < 0)
    r = _strip_content(e)
    if r is None:
        return mk("lt0" if strict else "le0r", e)
    atoms, const, sgn, _ = r
    # largest and smallest of a few numbers against a number
    for a in atoms:
        if a.op in ("max", "min") and 2 <= len(a.args) <= 6 and not any(x.op in ("seq", "map", "concat", "arr") for x in a.args) \
                and sum(b.op in ("max", "min") for b in atoms) == 1:
            parts = [_cmp(add(lin_build({b: v for b, v in atoms.items() if b is not a}, const), mul(num(atoms[a]), x)), strict) for x in a.args]
            return (and_ if (a.op == "max") == (atoms[a] > 0) else or_)(*parts)
    # tolerance tests |x| < eps
    if len(atoms) == 1:
        (a, v), = atoms.items()
        if a.op == "abs":
            c = -const / v     # |x| <= c (v=+1)   or |x| >= c (v=-1)
            if 0 < c <= Fraction(1, 10**7):
                near = near0(abs_arg(a))
                return near if v > 0 else not_(near)
    # squares against a square number
    if len(atoms) == 1:
        (a, v), = atoms.items()
        if (a.op == "pow" and is_num(a.args[1], 2) or a.op == "mul" and len(a.args) == 2 and a.args[0] is a.args[1]) and a.args[0].op == "sym" and a.args[0].args[1] in ("real", "int", "nat", "pos", "jac"):
            from math import isqrt
            c = -const / v
            if c > 0 and isqrt(c.numerator)**2 == c.numerator and isqrt(c.denominator)**2 == c.denominator:
                m = _REBUILD["abs"](a.args[0])
                return _cmp(mul(num(1 if v > 0 else -1), sub(m, num(Fraction(isqrt(c.numerator), isqrt(c.denominator))))), strict)
    # the absolute value of a real number is the larger of it and its opposite
    mags = [a for a in atoms if a.op == "abs"]
    if len(mags) == 1 and all(x.op in ("num", "add", "mul", "pow") or x.op == "sym" and x.args[1] in ("real", "int", "nat", "pos", "jac")
                              for x in subterms(mags[0].args[0])):
        (a,), v = mags, atoms[mags[0]]
        rest = lin_build({b: w for b, w in atoms.items() if b is not a}, const)
        x = mul(num(v if v > 0 else -v), a.args[0])
        if v > 0:
            return and_(_cmp(add(rest, x), strict), _cmp(sub(rest, x), strict))
        return or_(_cmp(add(rest, x), strict), _cmp(sub(rest, x), strict))
    ints = all(is_int(a) for a in atoms) and all(v.denominator == 1 for v in atoms.values())
    if ints:
        import math
        # sum + const <= 0
        c = const + (1 if strict and const.denominator == 1 else 0)
        if const.denominator != 1:
            c = Fraction(math.ceil(const))
        if sgn > 0:
            base = atoms
            return _le_int(base, -c)            # sum <= -c
        base = {a: -v for a, v in atoms.items()}
        # -base + c <= 0  <=>  base >= c  <=>  not (base <= c-1)
        return not_(_le_int(base, c - 1))
    # reals: canonical sign, strict / non-strict via negation
    e1 = lin_build({a: v * sgn for a, v in atoms.items()}, const * sgn)
    if sgn > 0:
        return mk("lt0", e1) if strict else mk("le0r", e1)
    return not_(mk("le0r", e1)) if strict else not_(mk("lt0", e1))


def closed(e, env={}):
    """(value, magnitude of what it was added up from) of an expression without unknowns other than those of *env*, or None"""
    import math
    try:
        if e.op == "num":
            return float(e.args[0]), abs(float(e.args[0]))
        if e in env:
            return env[e], abs(env[e])
        if e.op == "abs":
            z = closed(e.args[0], env)
            return z and (abs(z[0]), z[1])
        if e.op == "pi":
            return math.pi, math.pi
        if e.op in ("add", "mul"):
            v, m = (0.0, 0.0) if e.op == "add" else (1.0, 1.0)
            for a in e.args:
                z = closed(a, env)
                if z is None:
                    return None
                v, m = (v + z[0], m + z[1]) if e.op == "add" else (v * z[0], m * z[1])
            return v, m
        if e.op == "pow" and e.args[1].op == "num":
            z = closed(e.args[0], env)
            if z is None or abs(z[0]) <= 1e-9 * z[1]:
                return None
            k = e.args[1].args[0]
            if z[0] < 0 and k.denominator != 1:
                return None
            v = z[0] ** float(k)
            return v, abs(v) * (z[1] / abs(z[0])) * (1 + abs(float(k)))
        if e.op == "fn" and e.args[0] in ("log", "exp", "sin", "cos") and len(e.args) == 2:
            z = closed(e.args[1], env)
            if z is None or z[1] > 1e3 or e.args[0] == "log" and z[0] <= 1e-9 * z[1]:
                return None
            return getattr(math, e.args[0])(z[0]), (1 + z[1]) * math.exp(z[0] if e.args[0] == "exp" else 0)
    except (OverflowError, ValueError, ZeroDivisionError):
        pass
    return None


def near0(e):
    """e vanishes up to rounding"""
    if e.op == "num":
        return boolc(e.args[0] == 0)
    atoms, const = linform(e)
    for sg in (1, -1):
        # parameters of kind jac are > -1
        lo = sg * const
        for a, v in atoms.items():
            if a.op == "sym" and a.args[1] == "jac" and v * sg > 0:
                lo -= v * sg
            elif not (is_nonneg(a) and v * sg > 0):
                break
        else:
            if lo >= 0 and any(a.op == "sym" and a.args[1] == "jac" for a in atoms) or lo > 0:
                return FALSE
    x = eq0(e)
    return mk("near0", x.args[0]) if x.op == "eq0" else x


def abs_arg(a):
    """canonical argument of abs up to sign"""
    e = a.args[0]
    r = _strip_content(e)
    if r is None:
        return e
    atoms, const, sgn, _ = r
    return lin_build({k: v * sgn for k, v in atoms.items()}, const * sgn)


def _le_int(base, c):
    """sum(base) <= c, integer atoms, leading coefficient positive"""
    if all(is_nonneg(a) and v > 0 for a, v in base.items()):
        lo = sum(1 if (a.op == "sym" and a.args[1] == "pos") else 0 for a in base)
        if c < lo:
            return FALSE
        if c == 0:
            return and_(*[eq0(a) for a in base])
    return mk("le", lin_build(base, 0), num(c))


def abs_(x):
    if x.op == "num":
        return num(abs(x.args[0]))
    if x.op == "ite":
        return ite(x.args[0], abs_(x.args[1]), abs_(x.args[2]))
    if is_nonneg(x):
        return x
    r = _strip_content(x)
    return mul(num(r[3] if r else 1), mk("abs", abs_arg(mk("abs", x))))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isbot(c):
        return c
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", c, a, b)


BOOLOPS = ("true", "false", "not", "and", "or", "eq0", "le", "lt0", "le0r", "near0", "same", "isinst", "haskey",
           "hasattr", "in", "truthy", "exists", "cond")
ATOMS = ("eq0", "le", "lt0", "le0r", "near0", "same", "isinst", "haskey", "hasattr", "in", "truthy", "exists", "cond")


def is_bool(t):
    return t.op in BOOLOPS


def truthy(x):
    """boolean value of a term"""
    if is_bool(x):
        return x
    if isbot(x):
        return x
    if x.op == "num":
        return boolc(x.args[0] != 0)
    if x.op == "none":
        return FALSE
    if x.op == "str":
        return boolc(bool(x.args[0]))
    if x.op == "seq":
        return boolc(len(x.args) > 0)
    if x.op == "ite":
        return ite(x.args[0], truthy(x.args[1]), truthy(x.args[2]))
    if x.op in ("map", "concat") or (x.op == "sym" and x.args[1] in ("seq", "ntuple")):
        return not_(eq0(size(x)))
    if is_int(x):
        return not_(eq0(x))
    if x.op in ("obj", "func", "cls", "closure", "partial", "ext", "bound", "lam"):
        return TRUE
    return mk("truthy", x)

# }}}


# {{{ sequences

def seq(*items):
    b = _strict(items)
    if b is not None:
        return b
    return mk("seq", *items)


def ground(t: Term) -> bool:
    return t.op in ("num", "str") or t.op == "seq" and all(ground(a) for a in t.args)


def size(s: Term) -> Term:
    if isbot(s):
        return s
    if s.op == "seq":
        return num(len(s.args))
    if s.op == "map":
        return s.args[0]
    if s.op == "concat":
        return add(*[size(a) for a in s.args])
    if s.op == "str":
        return num(len(s.args[0]))
    if s.op == "ite":
        return ite(s.args[0], size(s.args[1]), size(s.args[2]))
    if s.op == "update":
        return size(s.args[0])
    if s.op == "rep":
        return mul(size(s.args[0]), s.args[1])
    if s.op == "dict":
        return num(len(s.args) // 2)
    if s.op == "set" and all(ground(a) for a in s.args):
        return num(len(s.args))
    if s.op == "cumulative":
        return s.args[0]
    if s.op == "stack" and is_num(s.args[0], 0):
        return size(s.args[1])
    if s.op in ("add", "mul"):
        # elementwise arithmetic with scalars: size of the unique sequence operand
        cands = [a for a in s.args if a.op in ("map", "seq", "concat")]
        if len(cands) == 1:
            return size(cands[0])
    return mk("size", s)


def bv(h):
    return mk("bv", h)


def subst(t: Term, m: dict, _memo=None) -> Term:
    """capture-free substitution of symbols/binder variables, through smart constructors"""
    if _memo is None:
        m = {k: v for k, v in m.items() if k is not v}
        _memo = {}
        if not m:
            return t
    f = free(t)
    if t in m:
        return m[t]
    if not any(k in f if k.op in ("sym", "bv") else True for k in m):
        return t
    r = _memo.get(t.id)
    if r is None:
        if t.op in BINDERS:
            r = _subst_binder(t, m)
        else:
            r = rebuild(t, [subst(a, m, _memo) if isinstance(a, Term) else a for a in t.args])
        _memo[t.id] = r
    return r


def _subst_binder(t, m):
    if t.op in ("map", "exists", "filter"):
        v = t.args[1]
        f = fresh("b", "nat")
        m2 = {k: x for k, x in m.items() if k is not v}
        body = subst(subst(t.args[2], {v: f}), m2)
        sz = subst(t.args[0], m)
        return {"map": map_, "exists": exists, "filter": filter_}[t.op](sz, f, body, *(
            [subst(subst(t.args[3], {v: f}), m2)] if t.op == "filter" else []))
    if t.op == "lam":
        ps = t.args[0].args
        m2 = {k: x for k, x in m.items() if k not in ps}
        return mk("lam", t.args[0], subst(t.args[1], m2))
    if t.op in ("loop", "while"):
        bound = bound_of(t)
        m2 = {k: x for k, x in m.items() if k not in bound}
        return mk(t.op, subst(t.args[0], m if t.op == "loop" else m2), t.args[1], t.args[2], subst(t.args[3], m),
                  subst(t.args[4], m2), t.args[5])
    raise AssertionError(t.op)


def rebuild(t: Term, a) -> Term:
    op = t.op
    f = _REBUILD.get(op)
    if f is not None:
        return f(*a)
    s = _strict([x for x in a if isinstance(x, Term)]) if op in STRICT else None
    if s is not None:
        return s
    return mk(op, *a)


STRICT = ("call", "idx", "attr", "matmul", "T", "inv", "floordiv", "mod", "sum", "prod", "obj", "abs", "max", "min")


def map_(n: Term, var: Term, body: Term) -> Term:
    """sequence of length n with element body[var := k]"""
    if n.op == "num" and n.args[0] <= 16 and n.args[0].denominator == 1:
        return seq(*[subst(body, {var: num(k)}) for k in range(max(0, int(n.args[0])))])
    if isbot(n):
        return n
    # eta: map(size(x), k, x[k]) = x
    if body.op == "idx" and body.args[1] is var and var not in free(body.args[0]) and size(body.args[0]) is n:
        return body.args[0]
    h = height(body) + 1
    h = max(h, height(n) + 1)
    b = bv(h)
    while b in free(body) and b is not var:
        h += 1
        b = bv(h)
    body = subst(body, {var: b})
    return mk("map", n, b, body)


def exists(n, var, cond):
    if cond is FALSE:
        return FALSE
    if n.op == "num":
        return or_(*[subst(cond, {var: num(k)}) for k in range(max(0, int(n.args[0])))])
    if var not in free(cond):
        return and_(cond, not_(le(n, ZERO)))
    b = bv(max(height(cond), height(n)) + 1)
    return mk("exists", n, b, subst(cond, {var: b}))


def filter_(n, var, body, cond):
    if cond is TRUE:
        return map_(n, var, body)
    if n.op == "num" and n.args[0] <= 16:
        items = [(subst(cond, {var: num(k)}), subst(body, {var: num(k)})) for k in range(max(0, int(n.args[0])))]
        if all(c in (TRUE, FALSE) for c, _ in items):
            return seq(*[b for c, b in items if c is TRUE])
    h = max(height(body), height(n), height(cond)) + 1
    b = bv(h)
    return mk("filter", n, b, subst(body, {var: b}), subst(cond, {var: b}))


def concat(*parts):
    b = _strict(parts)
    if b is not None:
        return b
    out = []
    for p in parts:
        if p.op == "concat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == "seq":
                if not q.args:
                    continue
                if out and out[-1].op == "seq":
                    out[-1] = seq(*out[-1].args, *q.args)
                    continue
            out.append(q)
    if not out:
        return seq()
    # peel: [g(0)] ++ map(n, g(k+1)) = map(n+1, g)
    changed = True
    while changed:
        changed = False
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            if a.op == "seq" and b.op == "map" and b.args[0].op != "num":
                k = b.args[1]
                prev = subst(b.args[2], {k: add(k, NEG1)})
                first = subst(prev, {k: ZERO})
                if first is a.args[-1]:
                    m = map_(add(b.args[0], ONE), k, prev)
                    out[i:i + 2] = ([seq(*a.args[:-1])] if len(a.args) > 1 else []) + [m]
                    changed = True
                    break
            if a.op == "map" and b.op == "seq" and a.args[0].op != "num":
                k = a.args[1]
                nxt = subst(a.args[2], {k: a.args[0]})
                if nxt is b.args[0]:
                    m = map_(add(a.args[0], ONE), k, a.args[2])
                    out[i:i + 2] = [m] + ([seq(*b.args[1:])] if len(b.args) > 1 else [])
                    changed = True
                    break
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def idx(s: Term, i: Term) -> Term:
    st = _strict((s, i))
    if st is not None:
        return st
    if i.op == "ite" and s.op in ("seq", "map", "concat", "dict"):
        return ite(i.args[0], idx(s, i.args[1]), idx(s, i.args[2]))
    if i in (TRUE, FALSE):
        i = ONE if i is TRUE else ZERO
    if is_bool(i) and s.op == "seq" and len(s.args) == 2:
        return ite(i, s.args[1], s.args[0])
    if s.op == "ite":
        return ite(s.args[0], idx(s.args[1], i), idx(s.args[2], i))
    if s.op == "seq":
        if i.op == "num":
            k = int(i.args[0])
            if -len(s.args) <= k < len(s.args):
                return s.args[k]
            return mk("raise", "IndexError")
        if i.op == "slice":
            lo, hi, st = i.args
            vals = []
            ok = True
            for x in (lo, hi, st):
                if x is NONE:
                    vals.append(None)
                elif x.op == "num":
                    vals.append(int(x.args[0]))
                else:
                    ok = False
            if ok:
                return seq(*s.args[slice(*vals)])
    if i.op == "num" and i.args[0] < 0 and s.op in ("map", "concat", "sym") and i.args[0].denominator == 1:
        if s.op in ("map", "concat") or s.args[1] in ("seq", "ntuple", "vec"):
            return idx(s, add(size(s), i))
    if s.op == "map":
        n, v, body = s.args
        if i.op == "slice":
            lo, hi, st = i.args
            if st in (NONE, ONE) and (lo is NONE or is_nonneg(lo)) and (hi is NONE):
                l0 = ZERO if lo is NONE else lo
                if hi is NONE:
                    return map_(sub(n, l0), v, subst(body, {v: add(v, l0)}))
            if is_num(st, -1) and lo is NONE and hi is NONE:
                return map_(n, v, subst(body, {v: sub(sub(n, ONE), v)}))
            if st in (NONE, ONE) and hi is not NONE and hi.op == "num" and hi.args[0] < 0 and (lo is NONE or is_nonneg(lo)):
                l0 = ZERO if lo is NONE else lo
                return map_(sub(add(n, hi), l0), v, subst(body, {v: add(v, l0)}))
        elif i.op not in ("seq", "none", "ellipsis", "slice") and not is_bool(i):
            return subst(body, {v: i})
    if s.op == "concat" and i.op == "num" and i.args[0] >= 0:
        off = 0
        for p in s.args:
            if p.op == "seq":
                if i.args[0] < off + len(p.args):
                    return p.args[int(i.args[0]) - off]
                off += len(p.args)
            else:
                break
    if s.op == "rep" and s.args[0].op == "seq" and len(s.args[0].args) == 1 and i.op not in ("slice", "seq"):
        return s.args[0].args[0]
    if s.op == "dict":
        for k, v in zip(s.args[::2], s.args[1::2]):
            if k is i:
                return v
        if i.op in ("num", "str", "seq") and all(k.op in ("num", "str", "seq") for k in s.args[::2]):
            return mk("raise", "KeyError")
    if s.op == "stack":
        ax, m = s.args
        if is_num(ax, 0) and i.op not in ("slice", "seq", "none", "ellipsis"):
            return idx(m, i)
    if i.op == "seq" and len(i.args) == 1:
        return idx(s, i.args[0])
    if i.op == "slice" and i.args == (NONE, NONE, NONE) and s.op in ("seq", "map", "concat", "sym"):
        return s
    if i.op == "slice" and is_num(i.args[2], -1) and i.args[0] is NONE and i.args[1] is NONE:
        if s.op == "idx" and s.args[1] is i:
            return s.args[0]
        if s.op == "sym" and s.args[1] in ("seq", "ntuple"):
            n = size(s)
            v = fresh("k", "nat")
            return map_(n, v, idx(s, sub(sub(n, ONE), v)))
    if i.op == "slice" and s.op in ("sym", "attr", "call") and i.args[2] is NONE and i.args[1] is NONE and is_nonneg(i.args[0]) \
            and (s.op != "sym" or s.args[1] in ("seq", "ntuple", "vec")):
        n = size(s)
        v = fresh("k", "nat")
        if s.op == "sym":
            return map_(sub(n, i.args[0]), v, idx(s, add(v, i.args[0])))
    # full tuples of indices:  x[i, :] etc. normalise trailing full slices
    if i.op == "seq":
        items = list(i.args)
        while len(items) > 1 and items[-1].op == "slice" and items[-1].args == (NONE, NONE, NONE):
            items.pop()
        if len(items) < len(i.args):
            return idx(s, items[0] if len(items) == 1 else mk("seq", *items))
        # x[i, j] with integer-like i -> x[i][j]
        if items and _scalar_index(items[0]):
            return idx(idx(s, items[0]), items[1] if len(items) == 2 else mk("seq", *items[1:]))
    return mk("idx", s, i)


def _scalar_index(i):
    return is_int(i) or (i.op == "sym" and i.args[1] in INTK)


def rep(s, n):
    if n.op == "num" and n.args[0] <= 16 and s.op == "seq":
        return seq(*(s.args * int(max(0, n.args[0]))))
    if s.op == "seq" and len(s.args) == 1:
        return map_(n, fresh("k", "nat"), s.args[0])
    return mk("rep", s, n)


def attr(o, name):
    if isbot(o):
        return o
    if o.op == "ite":
        return ite(o.args[0], attr(o.args[1], name), attr(o.args[2], name))
    if o.op == "obj":
        fields = o.args[1:]
        for k, v in zip(fields[::2], fields[1::2]):
            if k == name:
                return v
    return mk("attr", o, name)


def setattr_(o, name, v):
    if o.op == "ite":
        return ite(o.args[0], setattr_(o.args[1], name, v), setattr_(o.args[2], name, v))
    assert o.op == "obj", o
    fields = list(o.args[1:])
    for j in range(0, len(fields), 2):
        if fields[j] == name:
            fields[j + 1] = v
            return mk("obj", o.args[0], *fields)
    pairs = sorted([(fields[j], fields[j + 1]) for j in range(0, len(fields), 2)] + [(name, v)], key=lambda p: p[0])
    return mk("obj", o.args[0], *[x for p in pairs for x in p])


def sum_(m):
    """sum of a sequence (python sum / np.sum over a sequence)"""
    if isbot(m):
        return m
    if m.op == "seq":
        return add(*m.args) if m.args else ZERO
    if m.op == "concat":
        return add(*[sum_(p) for p in m.args])
    if m.op == "map" and m.args[1] not in free(m.args[2]):
        return mul(m.args[0], m.args[2])
    if m.op == "ite":
        return ite(m.args[0], sum_(m.args[1]), sum_(m.args[2]))
    if m.op == "map":
        n, v, body = m.args
        # pull constant factors out
        if body.op == "mul":
            ins = [a for a in body.args if v in free(a)]
            outs = [a for a in body.args if v not in free(a)]
            if outs:
                return mul(*outs, sum_(map_(n, v, mul(*ins))))
        if body.op == "add":
            outs = [a for a in body.args]
            return add(*[sum_(map_(n, v, a)) for a in outs])
    return mk("sum", m)


def prod_(m):
    if isbot(m):
        return m
    if m.op == "seq":
        return mul(*m.args) if m.args else ONE
    if m.op == "concat":
        return mul(*[prod_(p) for p in m.args])
    if m.op == "ite":
        return ite(m.args[0], prod_(m.args[1]), prod_(m.args[2]))
    if m.op == "map":
        n, v, body = m.args
        if v not in free(body):
            return power(body, n)
        if body.op == "mul":
            outs = [a for a in body.args if v not in free(a)]
            ins = [a for a in body.args if v in free(a)]
            if outs:
                return mul(power(mul(*outs), n), prod_(map_(n, v, mul(*ins))))
            return mul(*[prod_(map_(n, v, a)) for a in ins])
    return mk("prod", m)


def call(f, args, kwargs=()):
    """uninterpreted call"""
    b = _strict([*args, *[v for _, v in kwargs]])
    if b is not None:
        return b
    kw = sorted(kwargs, key=lambda p: p[0])
    return mk("call", f, seq_raw(args), *[x for p in kw for x in p])


def seq_raw(args):
    return mk("args", *args)


def matmul(*ts):
    b = _strict(ts)
    if b is not None:
        return b
    out = []
    for t in ts:
        if t.op == "matmul":
            out.extend(t.args)
        else:
            out.append(t)
    scal = []
    out2 = []
    for t in out:
        if t.op == "mul" and t.args[0].op == "num":
            scal.append(t.args[0])
            t = mul(*t.args[1:])
        if t.op == "mul" and any(x.op == "matmul" for x in t.args) is False:
            pass
        out2.append(t)
    # eye
    out3 = [t for t in out2 if not is_eye(t)]
    if not out3:
        r = out2[0]
    else:
        # inv(A) @ A
        i = 0
        while i < len(out3) - 1:
            a, b2 = out3[i], out3[i + 1]
            if inv(a) is b2:
                del out3[i:i + 2]
                i = max(0, i - 1)
            else:
                i += 1
        if not out3:
            r = mk("eye", mk("anysize"))
        else:
            r = out3[0] if len(out3) == 1 else mk("matmul", *out3)
    return mul(*scal, r) if scal else r


def is_eye(t):
    if t.op == "arr" and t.args[0].op == "seq":
        rows = t.args[0].args
        return bool(rows) and all(r.op == "seq" and len(r.args) == len(rows) and all(
            is_num(x, int(i == j)) for j, x in enumerate(r.args)) for i, r in enumerate(rows))
    return t.op == "eye"


def transpose(t):
    if isbot(t):
        return t
    if t.op == "T":
        return t.args[0]
    if t.op == "matmul":
        return matmul(*[transpose(a) for a in reversed(t.args)])
    if t.op == "inv":
        return inv(transpose(t.args[0]))
    if t.op in ("eye", "diag", "num"):
        return t
    if t.op == "add":
        return add(*[transpose(a) for a in t.args])
    if t.op == "mul" and t.args[0].op == "num":
        return mul(t.args[0], transpose(mul(*t.args[1:])))
    if t.op == "ite":
        return ite(t.args[0], transpose(t.args[1]), transpose(t.args[2]))
    if t.op == "stack" and t.args[0].op == "num" and t.args[0].args[0] in (0, 1):
        return mk("stack", num(1 - t.args[0].args[0]), t.args[1])
    if t.op in ("seq", "map") :
        return mk("stack", ONE, t)
    if t.op == "sym" and t.args[1] == "vec":
        return t
    return mk("T", t)


def stack(ax, m):
    if isbot(m):
        return m
    if is_num(ax, 0):
        return m
    if m.op == "ite":
        return ite(m.args[0], stack(ax, m.args[1]), stack(ax, m.args[2]))
    return mk("stack", ax, m)


def inv(t):
    if isbot(t):
        return t
    if t.op == "inv":
        return t.args[0]
    if t.op == "matmul":
        return matmul(*[inv(a) for a in reversed(t.args)])
    if t.op == "eye":
        return t
    if t.op == "ite":
        return ite(t.args[0], inv(t.args[1]), inv(t.args[2]))
    if t.op == "mul" and t.args[0].op == "num":
        return mul(num(1 / t.args[0].args[0]), inv(mul(*t.args[1:])))
    return mk("inv", t)


def maxmin(op, *ts):
    b = _strict(ts)
    if b is not None:
        return b
    out = []
    for t in ts:
        out.extend(t.args if t.op == op else (t,))
    nums = [t.args[0] for t in out if t.op == "num"]
    rest = []
    for t in out:
        if t.op != "num" and t not in rest:
            rest.append(t)
    if nums:
        rest.append(num((max if op == "max" else min)(nums)))
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda t: t.id)
    return mk(op, *rest)


def isinst(x, clsname):
    return mk("isinst", x, clsname)


_REBUILD = {
    "add": add, "mul": mul, "pow": power, "floordiv": floordiv, "mod": mod,
    "not": not_, "and": and_, "or": or_, "ite": ite, "eq0": eq0,
    "lt0": lambda e: _cmp(e, True), "le0r": lambda e: _cmp(e, False),
    "le": lambda a, b: le(a, b), "same": eq, "truthy": truthy,
    "seq": seq, "size": size, "idx": idx, "rep": rep, "attr": attr, "concat": concat,
    "sum": sum_, "prod": prod_, "matmul": matmul, "T": transpose, "inv": inv, "stack": stack,
    "abs": abs_, "max": lambda *a: maxmin("max", *a), "min": lambda *a: maxmin("min", *a),
    "near0": near0,
}

# }}}


def show(t, depth=6):
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.args
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if o == "num":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return a[0].split("%")[0]
    if o == "bv":
        return f"k{a[0]}"
    if o in ("true", "false", "none"):
        return o
    if o == "add":
        return "(" + " + ".join(map(s, a)) + ")"
    if o == "mul":
        return "*".join(map(s, a))
    if o == "pow":
        return f"{s(a[0])}**{s(a[1])}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "seq":
        return "(" + ", ".join(map(s, a)) + ")"
    if o == "map":
        return f"[{s(a[2])} for {s(a[1])}<{s(a[0])}]"
    if o == "ite":
        return f"if({s(a[0])}; {s(a[1])}; {s(a[2])})"
    if o == "eq0":
        return f"{s(a[0])}==0"
    if o == "le":
        return f"{s(a[0])}<={s(a[1])}"
    if o == "call":
        kw = [f"{k}={s(v)}" for k, v in zip(a[2::2], a[3::2])]
        return f"{s(a[0])}({', '.join([s(x) for x in a[1].args] + kw)})"
    if o in ("ext", "func", "cls"):
        return str(a[0]).split(".")[-1]
    return f"{o}({', '.join(s(x) for x in a)})"
