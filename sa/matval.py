"""Array valuation of terms: matrix algebra interpreted over a prime field on arrays of small sampled sizes.

Used where the value numbering, for which products and inverses of matrices are uninterpreted, finds two terms different:
they are the same if they agree under this interpretation too (random interpretation), and not comparable if a construct
has no interpretation here.
"""
from __future__ import annotations
from .terms import *
from . import terms as T

ELEMHASH = {"fn", "abs", "gamma", "pow", "max", "min"}


import os
DEBUG = bool(os.environ.get("SA_DEBUG"))


class No(Exception):
    pass


class Err(No):
    """numpy would raise"""


class A:
    """array of field elements"""
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), data

    def rows(self):
        n = self.shape[0]
        k = len(self.data) // n if n else 0
        return [A(self.shape[1:], self.data[i * k:(i + 1) * k]) if len(self.shape) > 1 else self.data[i] for i in range(n)]


def asarr(x):
    if isinstance(x, list):
        if not x:
            return A((0,), [])
        es = [asarr(e) for e in x]
        if all(isinstance(e, int) for e in es):
            return A((len(es),), es)
        if not all(isinstance(e, A) and e.shape == es[0].shape for e in es):
            raise No("ragged")
        return A((len(es),) + es[0].shape, [v for e in es for v in e.data])
    return x


def strides(shape):
    st, k = [], 1
    for n in reversed(shape):
        st.insert(0, k)
        k *= n
    return st


def indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in indices(shape[1:]):
            yield (i,) + r


def bc(f, *xs):
    xs = [asarr(x) for x in xs]
    if all(isinstance(x, int) for x in xs):
        return f(*xs)
    r = max(len(x.shape) for x in xs if isinstance(x, A))
    shp = [1] * r
    for x in xs:
        if isinstance(x, A):
            s = (1,) * (r - len(x.shape)) + x.shape
            for i, n in enumerate(s):
                if shp[i] == 1:
                    shp[i] = n
                elif n != 1 and n != shp[i]:
                    raise Err("shapes do not broadcast")
    out = []
    for ix in indices(shp):
        vs = []
        for x in xs:
            if isinstance(x, A):
                s = x.shape
                o = ix[r - len(s):]
                st = strides(s)
                vs.append(x.data[sum((0 if n == 1 else i) * k for i, n, k in zip(o, s, st))])
            else:
                vs.append(x)
        out.append(f(*vs))
    return A(shp, out)


class Val:
    def __init__(self, ctx, shape_of, seed, sizes=None):
        self.c, self.p, self.shape_of, self.seed = ctx, ctx.p, shape_of, seed
        self.sizes = sizes or {}
        self.memo = {}
        self.bind = {}

    def small(self, t):
        return 2 + self.c.H("sz", self.c.raw(t), self.seed) % 3

    def nat(self, t):
        v = self.ev(t)
        if not isinstance(v, int) or not 0 <= v <= 64:
            raise No("size")
        return v

    def ev(self, t):
        if self.bind and any(b in free(t) for b in self.bind):
            return self._ev(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._ev(t)
        return r

    def leaf(self, t, key=None):
        """arbitrary value of a leaf term, by its kind"""
        sh = self.shape_of(t)
        if sh is None or sh.op != "seq":
            raise No("shape of " + show(t, 3))
        shape = [self.nat(x) for x in sh.args]
        if not shape:
            return self.c.raw(t)
        n = 1
        for s in shape:
            n *= s
        h = key if key is not None else self.c.raw(t)
        return A(shape, [self.c.H("el", h, i) for i in range(n)])

    def hashval(self, v):
        if isinstance(v, A):
            return ("A", v.shape, tuple(v.data))
        if isinstance(v, list):
            return tuple(self.hashval(x) for x in v)
        return v

    def _ev(self, t):
        op, a, p = t.op, t.args, self.p
        if op == "num":
            f = a[0]
            return f.numerator % p * pow(f.denominator % p, -1, p) % p
        if op in ("sym", "bv"):
            if t in self.bind:
                return self.bind[t]
            if t in self.sizes:
                return self.ev(self.sizes[t])
            k = a[1] if op == "sym" else None
            if k in ("nat", "int", "pos"):
                return self.small(t)
            if k in ("real", "jac"):
                return self.c.raw(t)
            if k in ("vec", "mat"):
                return self.leaf(t)
            raise No("symbol " + show(t))
        if op == "add":
            return bc(lambda *v: sum(v) % p, *[self.ev(x) for x in a])
        if op == "mul":
            def mulv(*v):
                r = 1
                for x in v:
                    r = r * x % p
                return r
            return bc(mulv, *[self.ev(x) for x in a])
        if op == "pow":
            if a[1].op == "num" and a[1].args[0].denominator == 1:
                e = int(a[1].args[0])

                def pw(v):
                    if v == 0 and e < 0:
                        raise No("division by zero")
                    return pow(v, e, p)
                return bc(pw, self.ev(a[0]))
            return bc(lambda x, y: self.c.H("pow", x, y), self.ev(a[0]), self.ev(a[1]))
        if op == "fn" and a[0] in ("sin", "cos", "tan") and angle(a[1]) is not None:
            return self.c.raw(t)
        if op == "fn":
            return bc(lambda *v: self.c.H("fn", a[0], v), *[self.ev(x) for x in a[1:]])
        if op == "abs":
            return bc(lambda v: self.c.H("abs", min(v, p - v)), self.ev(a[0]))
        if op == "sumax" and a[0].op == "num":
            v, ax = asarr(self.ev(a[1])), int(a[0].args[0])
            if not isinstance(v, A) or not 0 <= ax < len(v.shape):
                raise No("sum along an axis")
            shp = v.shape[:ax] + v.shape[ax + 1:]
            acc = {ix: 0 for ix in indices(shp)}
            for ix, x in zip(indices(v.shape), v.data):
                k = ix[:ax] + ix[ax + 1:]
                acc[k] = (acc[k] + x) % p
            return A(shp, list(acc.values())) if shp else acc[()]
        if op in ("maxof", "minof") and len(a) == 1 and a[0].op not in ("maxof", "minof"):
            v = asarr(self.ev(a[0]))
            if not isinstance(v, A) or not v.data:
                raise No(op)
            return self.c.H(op, tuple(sorted(set(v.data))))
        if op in ("arr", "like"):
            return asarr(self.ev(a[-1])) if op == "arr" else bc(lambda x, y: y, self.ev(a[0]), self.ev(a[1]))
        if op == "seq":
            return [self.ev(x) for x in a]
        if op == "map":
            n = self.nat(a[0])
            out = []
            saved = self.bind
            for i in range(n):
                self.bind = dict(saved)
                self.bind[a[1]] = i
                try:
                    out.append(self.ev(a[2]))
                finally:
                    self.bind = saved
            return out
        if op == "concat":
            out = []
            for x in a:
                v = self.ev(x)
                out += v if isinstance(v, list) else v.rows()
            return out
        if op == "concatenate" and a[1].op == "num":
            v = self.ev(a[0])
            xs = [asarr(x) for x in (v if isinstance(v, list) else v.rows())]
            ax = int(a[1].args[0])
            if not all(isinstance(x, A) and len(x.shape) == 2 and 0 <= ax < 2 for x in xs):
                raise No("concatenate")
            if len({x.shape[1 - ax] for x in xs}) != 1:
                raise Err("concatenate sizes")
            if ax == 0:
                return A((sum(x.shape[0] for x in xs), xs[0].shape[1]), [y for x in xs for y in x.data])
            n = xs[0].shape[0]
            return A((n, sum(x.shape[1] for x in xs)), [y for i in range(n) for x in xs for y in x.data[i * x.shape[1]:(i + 1) * x.shape[1]]])
        if op == "stack":
            return self.stackv(self.nat(a[0]), asarr(self.ev(a[1])))
        if op == "T":
            return self.tr(asarr(self.ev(a[0])))
        if op == "matmul":
            r = asarr(self.ev(a[0]))
            for x in a[1:]:
                r = self.mm(r, asarr(self.ev(x)))
            return r
        if op == "inv":
            return self.inverse(asarr(self.ev(a[0])))
        if op == "pinv":
            m = asarr(self.ev(a[0]))
            mt = self.tr(m)
            if m.shape[0] >= m.shape[1]:
                return self.mm(self.inverse(self.mm(mt, m)), mt)
            return self.mm(mt, self.inverse(self.mm(m, mt)))
        if op == "eye":
            n = self.nat(a[0])
            return A((n, n), [int(i == j) for i in range(n) for j in range(n)])
        if op == "diag" and (len(a) == 1 or is_num(a[1], 0)):
            v = asarr(self.ev(a[0]))
            if not isinstance(v, A) or len(v.shape) > 2:
                raise No("diag")
            n = v.shape[0]
            if len(v.shape) == 1:
                return A((n, n), [v.data[i] if i == j else 0 for i in range(n) for j in range(n)])
            return A((min(v.shape),), [v.data[i * v.shape[1] + i] for i in range(min(v.shape))])
        if op == "alloc":
            shp = [self.nat(x) for x in a[0].args] if a[0].op == "seq" else None
            if shp is None:
                raise No("alloc")
            n = 1
            for s in shp:
                n *= s
            if a[1].op == "uninit":
                # contents nobody wrote: different from everything else
                return A(shp, [self.c.H("uninit", self.seed, k) for k in range(n)])
            v = self.ev(a[1])
            if not isinstance(v, int):
                raise No("alloc")
            return A(shp, [v] * n)
        if op == "update":
            return self.store(*a)
        if op == "uninit":
            return self.c.H("uninit", self.seed)
        if op == "idx":
            return self.index(t)
        if op == "size":
            x = a[0]
            try:
                v = self.ev(x)
            except No:
                return self.small(t)
            return len(v) if isinstance(v, list) else v.shape[0]
        if op == "attr" and a[1] == "shape":
            return list(asarr(self.ev(a[0])).shape)
        if op in ("sum", "prod"):
            v = self.ev(a[0])
            ax = None if len(a) < 2 else a[1]
            if ax is not None:
                raise No("axis")
            vs = v if isinstance(v, list) else v.rows()
            r = 0 if op == "sum" else 1
            for x in vs:
                r = bc((lambda u, w: (u + w) % p) if op == "sum" else (lambda u, w: u * w % p), r, x)
            return r
        if op == "reshape" and len(a) == 2 and a[1].op == "seq":
            x = asarr(self.ev(a[0]))
            if isinstance(x, int):
                x = A((), [x])
            dims = [-1 if is_num(y, -1) else self.nat(y) for y in a[1].args]
            n = 1
            for d in dims:
                n *= d if d != -1 else 1
            if -1 in dims:
                dims[dims.index(-1)] = len(x.data) // n if n else 0
            n = 1
            for d in dims:
                n *= d
            if n != len(x.data):
                raise No("reshape")
            return A(dims, x.data)
        if op == "call" and a[0].op == "ext" and a[0].args[0].startswith("speclib."):
            vs = []
            for x in a[1].args:
                vs.append(x.args[0] if x.op == "str" else self.hashval(self.ev(x)))
            key = self.c.H("call", a[0].args[0], repr(vs))
            if a[0].args[0] == "speclib.SCALAR":
                return key
            if a[0].args[0] == "speclib.NAT":
                return 2 + key % 3
            return self.leaf(t, key)
        if op == "call" and a[0].op in ("func", "ext") and all(isinstance(x, Term) for x in a[1].args):
            from .interp import POINTWISE
            pw = POINTWISE.get(a[0].args[0])
            kws = [x if isinstance(x, str) else self.hashval(self.ev(x)) if x.op not in ("none", "true", "false", "str") else show(x)
                   for x in a[2:]]
            vs = [self.ev(x) if x.op not in ("none", "true", "false", "str") else show(x) for x in a[1].args]
            if pw is not None and len(vs) > pw[0]:
                rest = [self.hashval(x) for j, x in enumerate(vs) if j != pw[0]]
                return bc(lambda v: self.c.H("call", a[0].args[0], repr(rest), repr(kws), v), vs[pw[0]])
            return self.leaf(t, self.c.H("call", a[0].args[0], repr([self.hashval(x) for x in vs]), repr(kws)))
        if op == "gamma" or op == "entry" or op == "pi":
            return self.c.raw(t)
        raise No(op + " " + show(t, 2))

    def store(self, b, i, x):
        v = asarr(self.ev(b))
        if not isinstance(v, A):
            raise No("store into a scalar")
        ii = list(i.args) if i.op == "seq" else [i]
        if any(y.op == "none" for y in ii):
            raise No("store")
        # the same selection out of the positions
        pos = A(v.shape, list(range(len(v.data))))
        where = self.ix(pos, ii)
        new = asarr(self.ev(x))
        if isinstance(where, int):
            if not isinstance(new, int):
                raise No("store of an array in one place")
            where, new = A((1,), [where]), A((1,), [new])
        if isinstance(new, A) and len(new.shape) > len(where.shape):
            raise No("store of more axes")
        out = bc(lambda k, y: (k, y), where, new)
        if out.shape != where.shape:
            raise Err("stored value does not fit")
        data = list(v.data)
        for k, y in out.data:
            data[k] = y
        return A(v.shape, data)

    def index(self, t):
        s, i = t.args
        v = self.ev(s)
        ii = list(i.args) if i.op == "seq" else [i]
        if isinstance(v, list) and len(ii) == 1 and ii[0].op not in ("slice", "none", "ellipsis"):
            k = self.ev(ii[0])
            k = k - self.p if isinstance(k, int) and k > self.p // 2 else k
            if not isinstance(k, int) or not -len(v) <= k < len(v):
                raise No("index")
            return v[k]
        v = asarr(v)
        if not isinstance(v, A):
            raise No("index of a scalar")
        return self.ix(v, ii)

    def ix(self, v, ii):
        if any(x.op == "ellipsis" for x in ii):
            k = [x.op for x in ii].index("ellipsis")
            miss = len(v.shape) - sum(1 for x in ii if x.op not in ("ellipsis", "none"))
            ii = ii[:k] + [mk("slice", NONE, NONE, NONE)] * miss + ii[k + 1:]
        if not ii:
            return v
        x = ii[0]
        if x.op == "none":
            r = self.ix(v, ii[1:]) if len(ii) > 1 else v
            r = asarr(r)
            return A((1,) + r.shape, r.data) if isinstance(r, A) else A((1,), [r])
        rows = v.rows()
        n = len(rows)
        if x.op == "slice":
            vals = []
            for y in x.args:
                if y is NONE:
                    vals.append(None)
                else:
                    k = self.ev(y)
                    if not isinstance(k, int):
                        raise No("slice")
                    vals.append(k - self.p if k > self.p // 2 else k)
            sel = rows[slice(*vals)]
            if not sel:
                raise No("empty slice")
            return asarr([self.ix(r, ii[1:]) if len(ii) > 1 else r for r in sel])
        k = self.ev(x)
        if isinstance(k, A) and len(k.shape) == 1 and len(ii) == 1:
            ks = [y - self.p if y > self.p // 2 else y for y in k.data]
            if not ks or not all(-n <= y < n for y in ks):
                raise No("index range")
            return asarr([rows[y] for y in ks])
        if not isinstance(k, int):
            raise No("index")
        k = k - self.p if k > self.p // 2 else k
        if not -n <= k < n:
            raise No("index range")
        return self.ix(rows[k], ii[1:]) if len(ii) > 1 else rows[k]

    def stackv(self, ax, v):
        if not isinstance(v, A) or ax >= len(v.shape):
            raise No("stack")
        rows = v.rows()
        inner = v.shape[1:]
        shp = inner[:ax] + (len(rows),) + inner[ax:]
        out = []
        for ix in indices(shp):
            r = rows[ix[ax]]
            rest = ix[:ax] + ix[ax + 1:]
            out.append(r.data[sum(i * k for i, k in zip(rest, strides(inner)))] if isinstance(r, A) else r)
        return A(shp, out)

    def tr(self, v):
        if not isinstance(v, A) or len(v.shape) < 2:
            return v
        if len(v.shape) != 2:
            raise No("transpose")
        m, n = v.shape
        return A((n, m), [v.data[i * n + j] for j in range(n) for i in range(m)])

    def mm(self, x, y):
        if not isinstance(x, A) or not isinstance(y, A) or len(x.shape) > 2 or len(y.shape) > 2:
            raise No("matmul")
        X = x if len(x.shape) == 2 else A((1,) + x.shape, x.data)
        Y = y if len(y.shape) == 2 else A(y.shape + (1,), y.data)
        m, k = X.shape
        k2, n = Y.shape
        if k != k2:
            raise Err(f"matmul sizes {x.shape} {y.shape}")
        out = [sum(X.data[i * k + l] * Y.data[l * n + j] for l in range(k)) % self.p for i in range(m) for j in range(n)]
        if len(x.shape) == 1 and len(y.shape) == 1:
            return out[0]
        if len(x.shape) == 1:
            return A((n,), out)
        if len(y.shape) == 1:
            return A((m,), out)
        return A((m, n), out)

    def inverse(self, x):
        if not isinstance(x, A) or len(x.shape) != 2 or x.shape[0] != x.shape[1]:
            raise Err("inverse of a non-square matrix")
        n, p = x.shape[0], self.p
        M = [list(x.data[i * n:(i + 1) * n]) + [int(i == j) for j in range(n)] for i in range(n)]
        for c in range(n):
            r = next((r for r in range(c, n) if M[r][c]), None)
            if r is None:
                raise No("singular")
            M[c], M[r] = M[r], M[c]
            f = pow(M[c][c], -1, p)
            M[c] = [v * f % p for v in M[c]]
            for r in range(n):
                if r != c and M[r][c]:
                    g = M[r][c]
                    M[r] = [(u - g * v) % p for u, v in zip(M[r], M[c])]
        return A((n, n), [v for row in M for v in row[n:]])


def norm(v):
    return asarr(v) if isinstance(v, list) else v


def same(x, y):
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        return all(same(u, v) for u, v in zip(x, y))
    x, y = norm(x), norm(y)
    if isinstance(x, A) and isinstance(y, A):
        return x.shape == y.shape and x.data == y.data
    return isinstance(x, int) and isinstance(y, int) and x == y


def signed(v, p):
    return v - p if v > p // 2 else v


def admissible(val, path):
    """do the sampled sizes satisfy the conditions of the path?"""
    for at, truth in path:
        if at.op not in ("eq0", "lt0", "le0r"):
            continue
        try:
            v = val.ev(at.args[0])
        except No:
            continue
        if not isinstance(v, int):
            continue
        w = signed(v, val.p)
        if abs(w) > 1000:
            continue
        if (w == 0 if at.op == "eq0" else w < 0 if at.op == "lt0" else w <= 0) != truth:
            return False
    return True


def agree(r, s, mkctx, shape_r, shape_s, sizes=None, path=()):
    """True/False, or None where either term has no array valuation"""
    good = bad = 0
    for seed in range(1, 40):
        try:
            v = Val(mkctx(seed), shape_r, seed, sizes)
            if not admissible(v, path):
                continue
            y = Val(mkctx(seed), shape_s, seed, sizes).ev(s)
            try:
                x = v.ev(r)
            except Err:
                # numpy raises where there has to be a value
                bad += 1
                if bad >= 6 and not good:
                    return False
                continue
            ok = same(x, y)
        except (No, ZeroDivisionError, ValueError, RecursionError) as e:
            agree.why = str(e)
            if DEBUG and isinstance(e, RecursionError):
                raise
            if seed > 12 and not good:
                return None
            continue
        if not ok:
            return False
        good += 1
        if good >= (8 if getattr(getattr(mkctx, "__self__", None), "signed", False) else 2):
            return True
    return None


def errors(r, mkctx, shape_r, sizes=None, path=()):
    """True: numpy raises on every sampled instance; False: some instance has a value; None: unknown"""
    bad = 0
    for seed in range(1, 40):
        try:
            v = Val(mkctx(seed), shape_r, seed, sizes)
            if not admissible(v, path):
                continue
            v.ev(r)
            return False
        except Err:
            bad += 1
            if bad >= 4:
                return True
        except (No, ZeroDivisionError, ValueError, RecursionError) as e:
            errors.why = str(e)
            return None
    return True if bad else None
