"""Value numbering of terms: a random ring homomorphism into a prime field, with uninterpreted heads hashed.

Scalar (and elementwise) arithmetic is interpreted exactly in F_p; powers with symbolic exponents are interpreted
with exponents in F_q, p = 2q+1, so that the laws of exponents hold; sqrt, gamma shifts and abs have their own rules;
everything else is an uninterpreted head (congruence).  Conditionals are normalised by splitting on condition atoms
(a multi-terminal decision diagram), so the way a case distinction is written does not matter.
"""
from __future__ import annotations
import functools
import random, hashlib, os
from fractions import Fraction
from math import floor
from .terms import *
from . import terms as tm


# safe prime p = 2q+1, p = -1 mod 2^9 3^3 5^2 7^2 (product of the other primes up to 199): all integers without larger prime
# factors are squares mod p ("positive"), -1 is not, and the cosines of the rational multiples of pi with such denominators
# lie in F_p (the roots of unity of order N | p+1 are conjugate to their inverses)
P = None


def prime():
    global P
    if P is None:
        P = PRIME
    return P


PRIME = int('0x3b7160fcf137430ab1322765434c88f65469bbd27d2a9b748795e3d96fefd8169d8bd6d1ff', 16)
# generator found by find_root()
_ROOT = [(25866145032690805590942872950493952521690712318259395711151555789191904254496348864640144,
          11709683576243117739031231542849785725869528105004421883721223032843626335163002146997031)]


def _cmul(x, y):
    return (x[0] * y[0] - x[1] * y[1]) % PRIME, (x[0] * y[1] + x[1] * y[0]) % PRIME


@functools.lru_cache(1 << 18)
def mpow(x, n, p):
    return pow(x, n, p)


def _cpow(x, n):
    r = (1, 0)
    while n:
        if n & 1:
            r = _cmul(r, x)
        x = _cmul(x, x)
        n >>= 1
    return r


def root():
    """a generator of the group of norm one in F_p(i), with cosines of small angles positive"""
    if not _ROOT:
        p = PRIME
        fs, m, d = [], p + 1, 2
        while m > 1:
            if m % d == 0:
                fs.append(d)
                while m % d == 0:
                    m //= d
            d += 1
        a = 1
        while True:
            a += 1
            n = pow(a * a + 1, -1, p)
            g = _cmul(_cmul((a, 1), (a, 1)), (n, 0))       # (a+i)/(a-i)
            if any(_cpow(g, (p + 1) // f) == (1, 0) for f in fs):
                continue
            if all(pow(_cpow(g, (p + 1) * k // (2 * d))[0], (p - 1) // 2, p) == 1 for k, d in ((1, 4), (1, 6), (1, 5), (2, 5), (1, 8), (3, 8), (1, 7))):
                break
        _ROOT.append(g)
    return _ROOT[0]


def angle(x):
    """q for q*pi, q rational"""
    if x.op == "pi":
        return Fraction(1)
    if x.op == "mul" and len(x.args) == 2 and x.args[0].op == "num" and x.args[1].op == "pi":
        return x.args[0].args[0]
    return None


_TRIG = {}


def trig(q):
    """cosine and sine of q*pi in F_p, or None"""
    if (PRIME + 1) % (4 * q.denominator):
        return None
    q %= 2
    if q not in _TRIG:
        n = (PRIME + 1) // (2 * q.denominator)
        c = _cpow(root(), n * q.numerator)[0]
        s = _cpow(root(), (PRIME + 1) // (4 * q.denominator) * (q.denominator - 2 * q.numerator) % (PRIME + 1))[0]
        _TRIG[q] = (c, s)
    return _TRIG[q]


# {{{ Gauss-Jacobi rules over F_p

# set by specs that want Gauss-Jacobi rules interpreted: nodes are roots of the Jacobi polynomial, weights Christoffel numbers
GAUSS = False


def polmulmod(a, b, f):
    p, n = PRIME, len(f) - 1
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = (r[i + j] + x * y) % p
    return polmod(r, f)


def polmod(r, f):
    p, n = PRIME, len(f) - 1
    r = list(r)
    while len(r) > n:
        c = r.pop()
        if c:
            for i in range(n):
                r[len(r) - n + i] = (r[len(r) - n + i] - c * f[i]) % p
    return r + [0] * (n - len(r))


def poltrim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def polgcd(a, b):
    p = PRIME
    a, b = poltrim(list(a)), poltrim(list(b))
    while b:
        i = pow(b[-1], -1, p)
        b = [x * i % p for x in b]
        a, b = b, poltrim(polmod(a, b)) if len(a) >= len(b) else a
    i = pow(a[-1], -1, p)
    return [x * i % p for x in a]


def polroots(f):
    """the roots of a monic polynomial that splits into different linear factors, or None"""
    p = PRIME

    def power_(a, n, f):
        r, x = [1] + [0] * (len(f) - 2), polmod(a, f)
        while n:
            if n & 1:
                r = polmulmod(r, x, f)
            x = polmulmod(x, x, f)
            n >>= 1
        return r
    if len(f) == 2:
        return [-f[0] % p]
    x = power_([0, 1], p, f)
    if poltrim(list(x)) != [0, 1]:
        return None
    out, todo, s = [], [f], 1
    while todo:
        g = todo.pop()
        if len(g) == 2:
            out.append(-g[0] % p)
            continue
        while True:
            s += 1
            h = power_([s, 1], (p - 1) // 2, g)
            h[0] = (h[0] - 1) % p
            h = poltrim(h)
            d = polgcd(g, h) if h else [1]
            if 1 < len(d) < len(g):
                break
        q, r = [], list(g)
        while len(r) >= len(d):
            c = r[-1]
            q.append(c)
            for i in range(len(d)):
                r[len(r) - len(d) + i] = (r[len(r) - len(d) + i] - c * d[i]) % p
            r.pop()
        todo += [d, q[::-1]]
    return sorted(out)


def gauss(n, a, b, mass):
    """nodes and weights of the (n+1)-point Gauss-Jacobi rule over F_p"""
    p = PRIME
    inv = lambda x: pow(x, -1, p)
    al, be = [(b - a) * inv(a + b + 2) % p], [0]
    for k in range(1, n + 2):
        s = 2 * k + a + b
        al.append((b * b - a * a) * inv(s * (s + 2)) % p)
        be.append(4 * (1 + a) * (1 + b) * inv(s * s * (s + 1)) % p if k == 1 else
                  4 * k * (k + a) * (k + b) * (k + a + b) * inv(s * s * (s + 1) * (s - 1)) % p)
    pol = [[0], [1]]
    for k in range(n + 1):
        q = [0] + pol[-1]
        for i, x in enumerate(pol[-1]):
            q[i] -= al[k] * x
        for i, x in enumerate(pol[-2]):
            q[i] -= be[k] * x if k else 0
        pol.append([x % p for x in q])
    xs = polroots(pol[-1])
    if xs is None:
        return None
    ws = []
    for x in xs:
        t, h = 0, mass
        for k in range(n + 1):
            if k:
                h = h * be[k] % p
            v = sum(c * pow(x, i, p) for i, c in enumerate(pol[k + 1])) % p
            t = (t + v * v * inv(h)) % p
        ws.append(inv(t))
    return xs, ws

# }}}


class TooComplex(Exception):
    pass


class Ctx:
    closure_hook = None      # Term(closure/func/partial) -> Term(lam) | None

    def __init__(self, seed=0, budget=4000, signed=False):
        self.signed = signed          # unknown real numbers may be negative
        self.p = prime()
        self.q = (self.p - 1) // 2
        self.seed = seed
        self.memo = {}
        self.memoq = {}
        self.bind = {}
        self.bad = False
        self.budget = budget
        self.topmemo = {}

    # {{{ hashing

    def H(self, *parts):
        h = hashlib.blake2b(repr((self.seed, parts)).encode(), digest_size=16).digest()
        v = int.from_bytes(h, "big") % self.p
        return v * v % self.p or 4

    def HQ(self, *parts):
        h = hashlib.blake2b(repr((self.seed, "q", parts)).encode(), digest_size=16).digest()
        return int.from_bytes(h, "big") % self.q or 1

    # }}}

    def _bound(self, t):
        return bool(self.bind) and not self.bind.keys().isdisjoint(free(t))

    def raw(self, t):
        if not self.bind:
            r = self.memo.get(t.id)
            if r is None:
                r = self.memo[t.id] = self._raw(t)
            return r
        if not self._bound(t):
            r = self.memo.get(t.id)
            if r is None:
                b, self.bind = self.bind, {}
                try:
                    r = self.memo[t.id] = self._raw(t)
                finally:
                    self.bind = b
            return r
        key = (t.id, "b", tuple(sorted((s.id, self.bind[s]) for s in free(t) if s in self.bind)))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._raw(t)
        return r

    def _raw(self, t):
        op, a, p = t.op, t.args, self.p
        if op == "num":
            f = a[0]
            return f.numerator % p * mpow(f.denominator % p, -1, p) % p
        if op in ("sym", "bv"):
            if t in self.bind:
                return self.bind[t]
            if op == "sym" and a[1] == "jac":
                # parameters > -1: -m/k, so that small shifts of them (and of their sums) are positive
                k = (5, 7, 8, 9, 11, 13)[self.seed % 6]
                m = 1 + self.H("jac", a[0]) % (k - 1)
                return -m * mpow(k, -1, p) % p
            if op == "sym" and self.signed and a[1] in ("real", "int", "vec", "mat", "nd"):
                return self.flip(self.H("sym", a[0]))
            return self.H(op, a[0]) if op == "bv" else self.H("sym", a[0])
        if op == "add":
            r = sum(self.raw(x) for x in a) % p
            if r and mpow(r, self.q, p) != 1 and self._surely_positive(a):
                # squares stand for the positive numbers: this valuation does not extend to roots of this number
                self.bad = True
            return r
        if op == "mul":
            r = 1
            for x in a:
                r = r * self.raw(x) % p
            return r
        if op == "pow":
            return self._pow(a[0], a[1])
        if op == "nan":
            return self.H("nan")
        if op == "true":
            return 1
        if op == "false":
            return 0
        if op == "abs":
            v = self.raw(a[0])
            return v if mpow(v, self.q, p) <= 1 else p - v
        if op == "gamma":
            return self._gamma(a[0])
        if op == "pi":
            g = self.H("gamma", self.raw(num(Fraction(1, 2))))
            return g * g % p
        if op == "fn" and a[0] in ("sin", "cos", "tan"):
            z = angle(a[1])
            v = trig(z) if z is not None else None
            if z is not None and v is None:
                self.bad = True
            if v is not None and (a[0] != "tan" or v[0]):
                return v[0] if a[0] == "cos" else v[1] if a[0] == "sin" else v[1] * mpow(v[0], -1, p) % p
        if op == "entry" and GAUSS:
            v = self._gauss(t)
            if v is not None:
                return v
        if op in ("max", "min", "and", "or"):
            return self.H(op, tuple(sorted(self.raw(x) for x in a)))
        if op == "not":
            return (1 - self.raw(a[0])) % p
        if op == "eq0":
            v = self.raw(a[0])
            return self.H("eq0", min(v, p - v))
        if op == "near0":
            v = self.raw(a[0])
            return self.H("near0", min(v, p - v))
        if op == "same":
            return self.H("same", tuple(sorted(self.raw(x) for x in a)))
        if op == "map":
            return self.H("map", self.raw(a[0]), self.top(a[2]))
        if op == "exists":
            return self.H("exists", self.raw(a[0]), self.top(a[2]))
        if op == "filter":
            return self.H("filter", self.raw(a[0]), self.top(a[2]), self.top(a[3]))
        if op == "lam":
            return self._lam(t)
        if op in ("closure", "func", "partial", "bound", "funcwrap") and self.closure_hook is not None:
            l = self.closure_hook(t)
            if l is not None:
                return self.raw(l)
            return self.H(op, *[self.raw(x) if isinstance(x, Term) else x for x in a])
        if op in ("loop", "while"):
            return self._loop(t)
        if op == "dict":
            return self.H("dict", tuple(sorted((self.raw(k), self.raw(v)) for k, v in zip(a[::2], a[1::2]))))
        if op == "set":
            return self.H("set", tuple(sorted(self.raw(x) for x in a)))
        if op == "ite":
            return self.top(t)
        if op == "arr":
            return self.raw(a[0])
        if op == "like":
            return self.raw(a[1])
        v = self.H(op, *[self.raw(x) if isinstance(x, Term) else x for x in a])
        return self.flip(v) if self.signed and op in ("call", "idx", "entry", "matmul", "sum") and not is_nonneg(t) else v

    def flip(self, v):
        return self.p - v if self.H("sign", v) // 7 % 2 else v

    def _gauss(self, t):
        """entries of Gauss-Jacobi rules; None for other entries"""
        pr = t.args[0]
        if pr.op != "proj" or pr.args[0].op != "call" or len(t.args) != 2 or t.args[1].op != "num":
            return None
        f, a = pr.args[0].args[0], pr.args[0].args[1].args
        name = str(f.args[0]) if f.args else ""
        if not name.endswith((".compute_weights_and_nodes", ".roots_jacobi")):
            return None
        if len(pr.args[0].args) != 2 or len(a) != 3 or a[0].op != "num":
            self.bad = True
            return None
        n = int(a[0].args[0]) - name.endswith(".roots_jacobi")
        key = ("gauss", n, self.raw(a[1]), self.raw(a[2]))
        if key not in self.memo:
            s = add(a[1], a[2])
            g = lambda x: tm._REBUILD["gamma"](x)
            mass = self.raw(mul(power(num(2), add(s, ONE)), g(add(a[1], ONE)), g(add(a[2], ONE)),
                                power(g(add(s, num(2))), NEG1)))
            try:
                self.memo[key] = gauss(n, key[2], key[3], mass)
            except ValueError:                  # a division by zero
                self.memo[key] = None
        r = self.memo[key]
        if r is None:
            self.bad = True
            return None
        return r[int(pr.args[1].args[0])][int(t.args[1].args[0])]

    def _lam(self, t):
        params = t.args[0].args
        d = height(t)
        m = {v: sym(f"lam{d}.{i}", v.args[1]) for i, v in enumerate(params)}
        return self.H("lam", len(params), self.top(subst(t.args[1], m)))

    def _surely_positive(self, terms):
        """positive for all parameters greater than -1"""
        low, some = 0, False
        for x in terms:
            c = 1
            if x.op == "mul" and len(x.args) == 2 and x.args[0].op == "num":
                c, x = x.args[0].args[0], x.args[1]
            if x.op == "num":
                low += c * x.args[0]
            elif x.op == "sym" and x.args[1] == "jac" and c > 0:
                low -= c
                some = True
            else:
                return False
        return some and low >= 0

    def _gamma(self, e):
        atoms, const = linform(e)
        fl = floor(const)
        if not atoms:
            if const.denominator == 1:
                if const <= 0:
                    self.bad = True
                    return self.H("gammapole", str(const))
                r = 1
                for j in range(1, int(const)):
                    r = r * j % self.p
                return r
            base = const - fl
            r = self.H("gamma", self.raw(num(base)))
            lo, hi = (0, fl) if fl >= 0 else (fl, 0)
            for j in range(lo, hi):
                f = self.raw(num(base + j))
                r = r * (f if fl >= 0 else mpow(f, -1, self.p)) % self.p
            return r
        # reduce to an argument that is positive for parameters > -1
        up = sum(1 for a in atoms if a.op == "sym" and a.args[1] == "jac")
        base = lin_build(atoms, const - fl)
        vb = self.raw(base)
        r = self.H("gamma", vb)
        lo, hi = (up, fl) if fl >= up else (fl, up)
        for j in range(lo, hi):
            f = (vb + j) % self.p
            if f == 0:
                self.bad = True
                return r
            r = r * (f if fl >= up else mpow(f, -1, self.p)) % self.p
        return r

    def _pow(self, b, e):
        p = self.p
        vb = self.raw(b)
        if e.op == "num" and e.args[0].denominator == 1:
            ev = int(e.args[0])
            if ev < 0 and vb == 0:
                self.bad = True
                return self.H("divzero", ev)
            return mpow(vb, ev, p)
        eq_ = self.rawq(e)
        if vb == 0:
            return self.H("zeropow", eq_)
        if mpow(vb, self.q, p) != 1:
            par = self.parity(e)
            if par is None:
                self.bad = True
                par = 0
            r = mpow(p - vb, eq_, p)
            return r if par == 0 else p - r
        return mpow(vb, eq_, p)

    def rawq(self, t):
        op, a, q = t.op, t.args, self.q
        if op == "num":
            f = a[0]
            return f.numerator % q * mpow(f.denominator % q, -1, q) % q
        if op == "add":
            return sum(self.rawq(x) for x in a) % q
        if op == "mul":
            r = 1
            for x in a:
                r = r * self.rawq(x) % q
            return r
        if op == "pow" and a[1].op == "num" and a[1].args[0].denominator == 1:
            v = self.rawq(a[0])
            if v == 0 and a[1].args[0] < 0:
                self.bad = True
                return 1
            return mpow(v, int(a[1].args[0]), q)
        return self.HQ(self.raw(t))

    def parity(self, t):
        op, a = t.op, t.args
        if op == "num":
            return int(a[0]) % 2 if a[0].denominator == 1 else None
        if op == "add":
            ps = [self.parity(x) for x in a]
            return None if None in ps else sum(ps) % 2
        if op == "mul":
            ps = [self.parity(x) for x in a]
            if None in ps:
                return None
            r = 1
            for x in ps:
                r *= x
            return r
        if is_int(t):
            return self.H("par", self.raw(t)) % 2
        return None

    def _loop(self, t):
        """loop(n, k, states, inits, steps, j): value of state j after n iterations.
        Congruence by partition refinement (loop-carried values are numbered by their initial values and steps)."""
        n, k, states, inits, steps, j = t.args
        cls = [self.H("L0", self.raw(i)) for i in inits.args]
        saved = self.bind
        kval = self.H("loopindex", height(t))
        for _ in range(len(cls) + 1):
            b = dict(saved)
            for s, c in zip(states.args, cls):
                b[s] = c
            b[k] = kval
            self.bind = b
            try:
                cls2 = [self.H("L", c, self.top(st)) for c, st in zip(cls, steps.args)]
            finally:
                self.bind = saved
            cls = cls2
        if t.op == "while":
            b = dict(saved)
            for s, c in zip(states.args, cls):
                b[s] = c
            b[k] = kval
            self.bind = b
            try:
                cv = self.top(n)
            finally:
                self.bind = saved
            return self.H("while", cv, cls[j])
        return self.H("loop", self.raw(n), cls[j])

    # {{{ decision diagrams

    def top(self, t, facts=None):
        """canonical value of a term that may contain conditions"""
        if facts is None and not self._bound(t):
            r = self.topmemo.get(t.id)
            if r is None:
                b, self.bind = self.bind, {}
                try:
                    r = self.topmemo[t.id] = self._top(t, Facts())
                finally:
                    self.bind = b
            return r
        return self._top(t, facts or Facts())

    def _top(self, t, facts):
        self.budget -= 1
        if self.budget < 0:
            raise TooComplex
        atoms = split_atoms(t)
        if not atoms:
            return self.raw(t)
        at = min(atoms, key=lambda x: self.raw(x))
        known = facts.query(at)
        if known is not None:
            return self._top(subst(t, {at: boolc(known)}), facts)
        vs = []
        for truth in (True, False):
            f2 = facts.assume(at, truth)
            if f2 is None:
                vs.append(None)
                continue
            vs.append(self._top(apply_fact(t, at, truth, f2), f2))
        if vs[0] is None:
            return vs[1]
        if vs[1] is None or vs[0] == vs[1]:
            return vs[0]
        return self.H("ite", self.raw(at), vs[0], vs[1])

    # }}}


def split_atoms(t):
    """minimal condition atoms of t that do not depend on variables bound inside t; [] if none."""
    return list(_atoms(t).values())


_atom_memo: dict = {}


def _atoms(t):
    r = _atom_memo.get(t.id)
    if r is not None:
        return r
    out: dict = {}
    if t.op in ("closure",):
        pass
    else:
        for k in kids(t):
            out.update(_atoms(k))
        if t.op in BINDERS:
            bs = set(bound_of(t))
            out = {i: a for i, a in out.items() if bs.isdisjoint(free(a))}
        if t.op in ATOMS and not out:
            out = {t.id: t}
    _atom_memo[t.id] = out
    return out


class Facts:
    """what is known about condition atoms on a path: intervals of integer linear forms, excluded values, booleans"""
    __slots__ = ("iv", "ne", "b")

    def __init__(self, iv=None, ne=None, b=None):
        self.iv = iv or {}
        self.ne = ne or {}
        self.b = b or {}

    @staticmethod
    def split(at):
        if at.op == "le":
            return at.args[0], at.args[1].args[0]
        if at.op == "eq0":
            atoms, const = linform(at.args[0])
            base = lin_build(atoms, 0)
            if is_int(base):
                return base, -const
        return None

    @staticmethod
    def default(base):
        atoms, _ = linform(base)
        if all(is_nonneg(a) and v > 0 for a, v in atoms.items()):
            lo = 0
            if len(atoms) == 1:
                (a, v), = atoms.items()
                if a.op == "sym" and a.args[1] == "pos":
                    lo = v
            return (lo, None)
        return (None, None)

    def interval(self, base):
        return self.iv.get(base) or self.default(base)

    def query(self, at):
        if at in self.b:
            return self.b[at]
        s = self.split(at)
        if s is None:
            return None
        base, c = s
        lo, hi = self.interval(base)
        if at.op == "le":
            if hi is not None and hi <= c:
                return True
            if lo is not None and lo > c:
                return False
            return None
        if (lo is not None and lo > c) or (hi is not None and hi < c) or c in self.ne.get(base, ()):
            return False
        if lo is not None and lo == hi == c:
            return True
        return None

    def assume(self, at, truth):
        q = self.query(at)
        if q is not None and q != truth:
            return None
        f = Facts(dict(self.iv), dict(self.ne), dict(self.b))
        f.b[at] = truth
        if at.op in ("near0", "eq0"):            # tolerances are read as equality
            tw = mk("near0" if at.op == "eq0" else "eq0", at.args[0])
            if f.query(tw) not in (None, truth):
                return None
            f.b[tw] = truth
        if at.op in ("lt0", "le0r", "near0", "eq0") and s_none(at) and not f.orders(at):
            return None
        if at.op == "isinst" and truth:
            # class facts: mutually exclusive classes come from the table set by the loader
            x, c = at.args
            for other in EXCLUSIVE.get(c, ()):
                f.b[mk("isinst", x, other)] = False
        s = self.split(at)
        if s is not None:
            base, c = s
            lo, hi = self.interval(base)
            if at.op == "le":
                if truth:
                    hi = c if hi is None else min(hi, c)
                else:
                    lo = c + 1 if lo is None else max(lo, c + 1)
            elif truth:
                lo = hi = c
            else:
                f.ne[base] = frozenset(f.ne.get(base, ())) | {c}
            ne = f.ne.get(base, ())
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            f.iv[base] = (lo, hi)
        sol = solve_fact(at, truth, f)
        if sol and not f.propagate(sol):
            return None
        return f

    def orders(self, at):
        """what the signs known so far say about the other comparisons of the same expression"""
        e = at.args[0]
        c = tm._cmp(e, True)
        neg_ = c.op == "not"
        a = c.args[0] if neg_ else c
        if a.op not in ("lt0", "le0r"):
            return True
        e = a.args[0]
        neg1, pos1 = mk("lt0", e), mk("le0r", e)             # e < 0, e <= 0
        zs = [z for z in dict.fromkeys((at, mk("near0", e), mk("eq0", e), mk("near0", neg(e)), mk("eq0", neg(e))))
              if z.op in ("near0", "eq0")]
        n, q = self.b.get(neg1), self.b.get(pos1)
        z = next((self.b[x] for x in zs if x in self.b), None)
        for _ in range(2):
            if n:
                if q is False or z:
                    return False
                q, z = True, False
            if z:
                if n or q is False:
                    return False
                n, q = False, True
            if q is False:
                if n or z:
                    return False
                n, z = False, False
            if q and z is False:
                if n is False:
                    return False
                n = True
            if q and n is False:
                z = True
            if n is False and z is False:
                q = False
        for k, v in [(neg1, n), (pos1, q)] + [(x, z) for x in zs]:
            if v is not None:
                self.b[k] = v
        return True

    def propagate(self, sol):
        """restate what is known in terms of the value that became known; False if contradictory"""
        keys = set(sol)
        for a, v in list(self.b.items()):
            if keys.isdisjoint(free(a)):
                continue
            a2 = subst(a, sol)
            neg_ = False
            while a2.op == "not":
                a2, neg_ = a2.args[0], not neg_
            if a2 in (TRUE, FALSE):
                if ((a2 is TRUE) != neg_) != v:
                    return False
                continue
            v2 = v != neg_
            if a2.op not in ATOMS:
                continue
            if self.b.get(a2, v2) != v2:
                return False
            self.b[a2] = v2
            if a2.op in ("near0", "eq0"):
                self.b[mk("near0" if a2.op == "eq0" else "eq0", a2.args[0])] = v2
        for base, (lo, hi) in list(self.iv.items()):
            if keys.isdisjoint(free(base)):
                continue
            atoms, const = linform(subst(base, sol))
            if not atoms:
                if lo is not None and const < lo or hi is not None and const > hi or const in self.ne.get(base, ()):
                    return False
        return True


def s_none(at):
    return Facts.split(at) is None


EXCLUSIVE: dict = {}


def apply_fact(t, at, truth, facts):
    """rewrite t under the assumption, substituting values that became known"""
    m = {at: boolc(truth)}
    t = subst(t, m)
    sol = solve_fact(at, truth, facts)
    if sol:
        t = subst(t, sol)
    return t


def solve_fact(at, truth, facts):
    s = Facts.split(at)
    if s is not None:
        base, c = s
        lo, hi = facts.interval(base)
        if lo is not None and lo == hi:
            atoms, _ = linform(base)
            if len(atoms) == 1:
                (a, v), = atoms.items()
                return {a: num(Fraction(lo) / v)}
            for a, v in atoms.items():
                if a.op == "sym" and abs(v) == 1:
                    rest = lin_build({k: x for k, x in atoms.items() if k is not a}, 0)
                    if a not in free(rest):
                        return {a: mul(num(Fraction(1) / v), sub(num(lo), rest))}
    elif truth and at.op in ("near0", "eq0"):
        # equality up to rounding is read as equality
        atoms, const = linform(at.args[0])
        for a, v in sorted(atoms.items(), key=lambda p: p[0].id):
            if a.op == "sym":
                rest = lin_build({k: x for k, x in atoms.items() if k is not a}, const)
                if a not in free(rest):
                    return {a: mul(num(Fraction(-1) / v), rest)}
    elif truth and at.op == "same":
        a, b = at.args
        if b.op in ("str", "none", "true", "false") and a.op in ("sym", "attr", "idx"):
            return {a: b}
        if a.op in ("str", "none", "true", "false") and b.op in ("sym", "attr", "idx"):
            return {b: a}
    return None


# {{{ comparison

MATOPS = {"matmul", "inv", "pinv", "T", "diag", "eye", "stack", "einsum", "reshape", "update"}

WEAK = {"loop", "while", "flat", "filter", "concat", "update", "stackp", "exists", "rep", "dictmap", "setof", "zipstar",
        "dset"}


def weak(t: Term) -> bool:
    """contains a construct whose normal form is not unique (a difference there is not evidence)"""
    for x in subterms(t):
        if x.op in WEAK:
            return True
        if x.op in ("sum", "prod", "maxof", "minof") and x.args[0].op in ("map", "arr"):
            return True
    return False


BASE_HEADS = {"arr", "like", "idx", "slice", "num", "str", "sym", "bv", "true", "false", "none", "add", "mul", "pow", "seq", "map", "idx", "size",
              "sum", "prod", "raise", "args", "eq0", "le", "lt0", "le0r", "near0", "same", "truthy", "not", "and",
              "or", "ite", "slice", "ellipsis", "gamma", "abs", "pi", "obj", "cls", "isinst", "uninit", "nan"}


# total on the values the specifications quantify over
TOTAL = {"numpy.linalg.eigh", "numpy.cos", "numpy.sin", "numpy.sqrt", "numpy.exp", "scipy.special.roots_jacobi", "entry", "proj", "cos", "sin", "pi", "sqrt", "exp", "gamma", "pow"}


def heads(t: Term) -> set:
    out = set()
    for s in subterms(t):
        if s.op in BASE_HEADS:
            if s.op == "obj":
                out.add("obj:" + str(s.args[0]))
            continue
        if s.op in ("ext", "func"):
            out.add(s.args[0])
        elif s.op == "attr":
            out.add("attr:" + s.args[1])
        elif s.op == "call":
            out.add("call")
            for k in s.args[2::2]:
                out.add("kw:" + k)
        else:
            out.add(s.op + ("" if s.op not in ("fn",) else ":" + str(s.args[0])))
    return out


class Verdict:
    def __init__(self, kind, why="", where=None, leaves=0):
        self.kind, self.why, self.where, self.leaves = kind, why, where, leaves

    def __repr__(self):
        return f"<{self.kind}: {self.why}>"


def compare(R: Term, S: Term, extra_heads=(), seeds=(1, 2, 3), budget=6000, hook=None) -> Verdict:
    """R: extracted, S: specified"""
    try:
        # integer literals fit every element type
        m = {t: t.args[0] for t in subterms(R) if t.op == "narrow" and t.args[0].op == "num" and t.args[0].args[0].denominator == 1}
        if m:
            R = subst(R, m)
        cmp = _Compare(R, S, extra_heads, budget, hook)
        return cmp.run()
    except TooComplex:
        return Verdict("undecided", "too many cases")
    except RecursionError:
        return Verdict("undecided", "recursion")


def attainable(path):
    """is there a point that satisfies the inequalities of a path? (False: none among many)"""
    todo = []
    syms = set()
    curved = False
    for at, truth in path:
        if at.op not in ("lt0", "le0r", "le"):
            continue
        fs = [x for x in subterms(at) if x.op == "sym"]
        if any(x.args[1] not in ("real", "int", "nat", "pos", "jac") for x in fs):
            continue
        if tm.closed(at.args[0], {x: 0.5 for x in fs}) is None and tm.closed(at.args[0], {x: -0.3 for x in fs}) is None:
            continue
        todo.append((at, truth))
        syms |= set(fs)
        curved = curved or any(x.op == "abs" or x.op == "fn" or x.op == "pow" or x.op == "mul" and sum(y.op != "num" for y in x.args) > 1
                               for x in subterms(at.args[0]))
    if not curved or len(todo) < 2 or len(syms) > 4:
        return True
    rnd = random.Random(5)
    syms = sorted(syms, key=lambda x: str(x.args[0]))
    pool = {0.0}
    for at, _ in todo:
        for x in subterms(at):
            if x.op == "num":
                c = abs(float(x.args[0]))
                pool |= {c, c * 0.5, c * 0.9, c * 1.1, c * 2, c + 1, 1 / c if c else 0.0}
    pool = sorted(pool | {-x for x in pool} | {0.001, -0.001, 1e-9, -1e-9, 0.3, -0.3, 1.0, -1.0, 3.0, -3.0, 10.0, -10.0, 100.0, -100.0})

    def sample(x):
        k = x.args[1]
        if k in ("int", "nat", "pos"):
            return float(rnd.choice((0, 1, 2, 3, 5, 8, 13, 40)) + (k == "pos")) * (rnd.choice((1, -1)) if k == "int" else 1)
        v = rnd.choice(pool) if rnd.random() < 0.5 else rnd.uniform(-1, 1) * 10**rnd.uniform(-3, 2)
        return max(v, -0.999) if k == "jac" else v
    for _ in range(6000):
        env = {x: sample(x) for x in syms}
        for at, truth in todo:
            z = tm.closed(at.args[0], env)
            if z is None:
                break
            c = float(at.args[1].args[0]) if at.op == "le" else 0.0
            if (z[0] < 0 if at.op == "lt0" else z[0] <= c) != truth:
                break
        else:
            return True
    return False


def small_ratio(a, b):
    """the rational number a/b of F_p with small numerator and denominator, or None"""
    p = PRIME
    x = a * pow(b, -1, p) % p
    r0, r1, t0, t1 = p, x, 0, 1
    while r1 * r1 * 4 > p:
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if t1 == 0 or r1 == 0 or t1 * t1 * 4 > p or abs(r1) > 2**24 or abs(t1) > 2**24:
        return None
    return Fraction(r1, t1)


class _Compare:
    def __init__(self, R, S, extra, budget, hook):
        self.R, self.S = R, S
        self.voc = heads(S) | set(extra)
        self.budget = budget
        self.hook = hook
        self.leaves = 0
        self.signed = any(x.op == "abs" or x.op == "pow" and x.args[1].op == "num" and x.args[1].args[0].denominator == 2
                          and x.args[0].op not in ("num", "size") for t in (R, S) for x in subterms(t))
        self.ctxs = {}
        self.cases = []
        self.sigs = {}
        self.reps = {}

    def signature(self, at):
        """values of the argument of a comparison with zero, up to rounding of nothing: (ratio, value) or None"""
        if at in self.sigs:
            return self.sigs[at]
        vals = {}
        for seed in range(1001, 1050):
            if len(vals) == (8 if self.signed else 2 if seed == 1003 else 3) or seed == 1021 and not vals:
                break
            c = self.ctxs.get(seed)
            if c is None:
                c = self.ctxs[seed] = self.ctx(seed)
            c.budget = 4000
            try:
                v = c.raw(at.args[0])
            except TooComplex:
                del self.ctxs[seed]
                break
            if c.bad:
                del self.ctxs[seed]
                continue
            vals[seed] = v
        # where signs matter, enough values for each unknown to occur with either
        r = self.sigs[at] = vals if len(vals) > (5 if self.signed else 1) else None
        return r

    def unify(self, r, s):
        """comparisons with zero of expressions that are multiples of each other, however arranged, become one"""
        atoms = split_atoms(s)
        atoms = atoms + [a for a in split_atoms(r) if a not in atoms]
        atoms = [a for a in atoms if a.op in ("lt0", "le0r", "near0", "eq0") and Facts.split(a) is None and a.args[0].op != "sym"]
        m = {}
        for at in atoms:
            g = self.signature(at)
            if g is None:
                continue
            if not any(g.values()):
                m[at] = boolc(at.op != "lt0")
                continue
            sign = at.op in ("lt0", "le0r")
            reps = self.reps.setdefault(sign, [])
            rep, k = self.multiple(g, reps)
            if rep is at:
                continue
            if rep is None:
                reps.append((at, g))
                continue
            e = rep.args[0]
            if sign:
                new = mk(at.op, e) if k > 0 else not_(mk("le0r" if at.op == "lt0" else "lt0", e))
            else:
                new = mk(at.op, e)
            if new is not at:
                m[at] = new
        return (subst(r, m), subst(s, m)) if m else (r, s)

    def multiple(self, g, reps):
        """(known comparison, ratio) of which the values *g* are a fixed multiple"""
        p = PRIME
        for rep, h in reps:
            common = [x for x in g if x in h]
            if len(common) < (6 if self.signed else 2) or any((g[x] == 0) != (h[x] == 0) for x in common):
                continue
            common = [x for x in common if g[x]]
            if len(common) > 1 and all(g[common[0]] * h[x] % p == g[x] * h[common[0]] % p for x in common[1:]):
                k = small_ratio(g[common[0]], h[common[0]])
                if k is not None:
                    return rep, k
        return None, None

    def ctx(self, seed):
        c = Ctx(seed, signed=self.signed and seed % 4 != 1)
        c.closure_hook = self.hook
        return c

    def run(self):
        self.satoms = set(split_atoms(self.S))
        v = self.split(self.R, self.S, Facts(), ())
        v.leaves = self.leaves
        return v

    def vague(self, path):
        """conditions on the way to a difference that only the code has and that are not understood"""
        out = set()
        for at, _ in path:
            if at not in self.satoms:
                out |= self.unknown(at)
                if weak(at):
                    out.add(at.op)
        return out

    def split(self, r, s, facts, path):
        self.budget -= 1
        if self.budget < 0:
            raise TooComplex
        r, s = self.unify(r, s)
        if r is s:
            self.leaves += 1
            return Verdict("equal")
        if s.op == "any":
            self.leaves += 1
            return Verdict("equal")
        atoms = split_atoms(s)
        if not atoms or not contains(s, lambda t: t.op == "any"):
            atoms += [a for a in split_atoms(r) if a not in atoms]
        if not atoms:
            v = self.leaf(r, s, path)
            if v.kind != "equal":
                # largest and smallest of a few numbers, by cases
                e = next((x for t in (r, s) for x in subterms(t) if x.op in ("max", "min") and 2 <= len(x.args) <= 3
                          and not any(y.op in ("seq", "map", "concat", "arr", "ite") for y in x.args)), None)
                if e is not None:
                    a, rest = e.args[0], e.args[1:]
                    rest = rest[0] if len(rest) == 1 else mk(e.op, *rest)
                    c = le(a, rest)
                    m = {e: ite(c, a, rest) if e.op == "min" else ite(c, rest, a)}
                    return self.split(subst(r, m), subst(s, m), facts, path)
            if v.kind == "diff" and not attainable(path):
                return Verdict("undecided", "no point found where this would happen: " + self.pathstr(path)[:200])
            if v.kind == "diff" and self.vague(path):
                return Verdict("undecided", "conditions not understood: " + ", ".join(sorted(self.vague(path))[:4]))
            return v
        at = min(atoms, key=lambda x: x.id)
        known = facts.query(at)
        if known is not None:
            m = {at: boolc(known)}
            return self.split(subst(r, m), subst(s, m), facts, path)
        res = Verdict("equal")
        for truth in (True, False):
            f2 = facts.assume(at, truth)
            if f2 is None:
                continue
            v = self.split(apply_fact(r, at, truth, f2), apply_fact(s, at, truth, f2), f2, path + ((at, truth),))
            if v.kind == "diff":
                return v
            if v.kind == "undecided":
                res = v
        return res

    def pathstr(self, path):
        return " and ".join(("" if tr else "not ") + show(a, 5) for a, tr in path) or "always"

    def leaf(self, r, s, path):
        self.leaves += 1
        if s.op == "raise" and "Exception" in s.args[0].split("|"):
            # any exception
            if r.op == "raise":
                return Verdict("equal")
            if any(x.op in MATOPS for x in subterms(r)):
                e = self.matrices(r, None, path)
                if e is None:
                    return Verdict("undecided", "may raise inside numpy: " + show(r, 4)[:200])
                if e:
                    return Verdict("equal")
        if s.op == "any":
            return Verdict("equal")
        if r.op == "raise" or s.op == "raise":
            if r.op == s.op:
                if any(x in s.args[0].split("|") for x in r.args[0].split("|")):
                    return Verdict("equal")
                return Verdict("diff", f"raises {r.args[0]} where {s.args[0]} is required, case: {self.pathstr(path)}", path)
            if s.op == "raise":
                # values that nothing had to be computed for cannot have raised
                unk = {u for u in self.unknown(r) if u not in TOTAL and not u.startswith("obj:")}
                if unk == {"call"} and all(x.args[0].op == "ext" for x in subterms(r) if x.op == "call"):
                    unk = set()
                if unk:
                    return Verdict("undecided", "unmodelled: " + ", ".join(sorted(unk)[:4]))
            if r.op == "raise":
                return Verdict("diff", f"raises {r.args[0]} where {show(s, 4)[:200]} is required, case: {self.pathstr(path)}", path)
            return Verdict("diff", f"no {s.args[0]} raised, case: {self.pathstr(path)}", path)
        v = self.values(r, s)
        if v == "equal" or self.arrays(r, s, path):
            return Verdict("equal")
        return self.localise(r, s, path)

    def values(self, r, s):
        good = 0
        for seed in range(1, 400):
            c = self.ctx(seed)
            a, b = c.top(r), c.top(s)
            if c.bad:
                continue
            if a != b:
                return "diff"
            good += 1
            if good >= (16 if self.signed else 2):
                return "equal"
        return "unknown"

    def unknown(self, r):
        return {h for h in heads(r) - {"opaque"} if h not in self.voc and not h.startswith("speclib.")} | {
            x.op for x in subterms(r) if x.op in ("opaque", "undef") and not self.nonfinite(x)}

    def nonfinite(self, x):
        """the quotient by zero, where a result with one cannot be the required one"""
        return x.op == "opaque" and x.args[0] == "division by zero" and "division by zero" in self.voc

    def localise(self, r, s, path, depth=0):
        if r is s or s.op == "any":
            return Verdict("equal")
        if depth > 0:
            if split_atoms(r) or split_atoms(s):
                # conditions on binder variables: split them too
                return self.split2(r, s, path, depth)
            v = self.values(r, s)
            if v == "equal":
                return Verdict("equal")
        if r.op == "opaque" and not self.nonfinite(r) or s.op == "opaque":
            return Verdict("undecided", "opaque: " + show(r, 3)[:100])
        same = False
        pairs = []
        if r.op == s.op:
            if r.op == "seq" and len(r.args) == len(s.args):
                same, pairs = True, list(zip(r.args, s.args))
            elif r.op == "seq":
                return self.verdict(r, s, path)
            elif r.op == "map":
                if self.values(r.args[0], s.args[0]) == "equal":
                    k = fresh("k", "nat")
                    same, pairs = True, [(subst(r.args[2], {r.args[1]: k}), subst(s.args[2], {s.args[1]: k}))]
                else:
                    same, pairs = True, [(r.args[0], s.args[0])]
            elif r.op == "obj" and r.args[0] == s.args[0]:
                fr, fs = dict(zip(r.args[1::2], r.args[2::2])), dict(zip(s.args[1::2], s.args[2::2]))
                if fr.keys() == fs.keys():
                    same, pairs = True, [(fr[k], fs[k]) for k in fr]
            elif r.op in ("stack", "idx", "T", "inv", "sum", "prod", "reshape", "fn", "size", "attr", "abs", "loop") and \
                    len(r.args) == len(s.args) and all(
                    isinstance(x, Term) or x == y for x, y in zip(r.args, s.args)):
                ps = [(x, y) for x, y in zip(r.args, s.args) if isinstance(x, Term)]
                if r.op == "loop":
                    if len(r.args[2].args) != len(s.args[2].args):
                        ps = None
                    else:
                        return self.verdict(r, s, path)
                if ps is not None:
                    same, pairs = True, ps
            elif r.op == "call" and r.args[0] is s.args[0] and len(r.args) == len(s.args) and \
                    r.args[2::2] == s.args[2::2] and len(r.args[1].args) == len(s.args[1].args):
                same = True
                pairs = list(zip(r.args[1].args, s.args[1].args)) + list(zip(r.args[3::2], s.args[3::2]))
            elif r.op == "call" and r.args[0].op != "ext" and len(r.args) == len(s.args) == 2 and \
                    len(r.args[1].args) == len(s.args[1].args):
                same = True
                pairs = [(r.args[0], s.args[0])] + list(zip(r.args[1].args, s.args[1].args))
        if same:
            und = None
            dif = None
            for x, y in pairs:
                v = self.localise(x, y, path, depth + 1)
                if v.kind == "diff":
                    dif = dif or v
                elif v.kind == "undecided":
                    und = und or v
            if r.op in ("seq", "obj"):
                return dif or und or Verdict("undecided", "structural")
            # for heads whose arguments may compensate each other demand that all else is understood
            if dif and not und:
                return dif
            if und:
                return und
            return Verdict("undecided", "arguments equal, heads unequal?")
        return self.verdict(r, s, path)

    def split2(self, r, s, path, depth):
        return self._split2(r, s, Facts(), path, depth)

    def _split2(self, r, s, facts, path, depth):
        self.budget -= 1
        if self.budget < 0:
            raise TooComplex
        r, s = self.unify(r, s)
        if r is s:
            return Verdict("equal")
        atoms = split_atoms(s)
        atoms += [a for a in split_atoms(r) if a not in atoms]
        if not atoms:
            return self.localise(r, s, path, depth + 1)
        at = min(atoms, key=lambda x: x.id)
        known = facts.query(at)
        if known is not None:
            m = {at: boolc(known)}
            return self._split2(subst(r, m), subst(s, m), facts, path, depth)
        und = None
        for truth in (True, False):
            f2 = facts.assume(at, truth)
            if f2 is None:
                continue
            v = self._split2(apply_fact(r, at, truth, f2), apply_fact(s, at, truth, f2), f2, path + ((at, truth),), depth)
            if v.kind == "diff":
                return v
            if v.kind == "undecided":
                und = v
        return und or Verdict("equal")

    def matrices(self, r, s, path):
        """agreement under the array valuation, with the sizes the path fixes (s None: does numpy raise?)"""
        from . import matval
        if self.hook is None or not hasattr(self.hook, "shapes"):
            return None
        sizes, f = {}, Facts()
        for at, truth in path:
            f2 = f.assume(at, truth)
            sol = solve_fact(at, truth, f2) if f2 is not None else None
            f = f2 or f
            for k, v in (sol or {}).items():
                v = subst(v, sizes)
                if k in sizes:
                    k, w = sizes[k], v
                    if k.op != "sym":
                        k, w = w, k
                    v = w
                if k.op != "sym" or k in free(v):
                    continue
                sizes = {a: subst(b, {k: v}) for a, b in sizes.items()}
                sizes[k] = v
        if s is None:
            return matval.errors(r, self.ctx, self.hook.shapes[0], sizes, path)
        return matval.agree(r, s, self.ctx, self.hook.shapes[0], self.hook.shapes[1], sizes, path)

    def arrays(self, r, s, path):
        if not any(x.op in MATOPS for t in (r, s) for x in subterms(t)):
            return None
        ok = self.matrices(r, s, path)
        if ok is None and os.environ.get("SA_DEBUG"):
            from . import matval
            print("no array valuation:", getattr(matval.agree, "why", ""))
        return ok

    def verdict(self, r, s, path):
        ok = self.arrays(r, s, path)
        if ok:
            return Verdict("equal")
        if ok is False:
            return Verdict("diff", f"is {show(r, 7)[:300]} where {show(s, 7)[:300]} is required (array valuation), case: {self.pathstr(path)}", path)
        unk = self.unknown(r)
        if not unk and any(x.op in ("matmul", "inv", "pinv", "einsum") for t in (r, s) for x in subterms(t)):
            return Verdict("undecided", "no array valuation: " + show(r, 4)[:120])
        if not unk and (weak(r) or weak(s)):
            return Verdict("undecided", "no unique normal form: " + show(r, 4)[:120])
        if unk:
            return Verdict("undecided", "unmodelled: " + ", ".join(sorted(unk)[:4]))
        if self.values(r, s) == "unknown":
            return Verdict("undecided", f"no usable valuation: {show(r, 6)[:300]} / {show(s, 6)[:300]}, case: {self.pathstr(path)}")
        return Verdict("diff", f"is {show(r, 7)[:300]} where {show(s, 7)[:300]} is required, case: {self.pathstr(path)}", path)

# }}}
