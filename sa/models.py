"""Meaning of the external functions and container methods the code base uses, as term constructors."""
from __future__ import annotations
import ast, itertools
from .terms import *
from . import terms as T
from . import lit
from .interp import arr, unarr, isarr, flat, replace, Recurrence, SEQLIKE, Opaque, symbolic

MINUS1 = num(-1)
FULL = mk("slice", NONE, NONE, NONE)


def asseq(t):
    return unarr(t)


def ndarr(t):
    """np.array of something"""
    if t.op == "arr":
        return t
    if t.op == "ite":
        return ite(t.args[0], ndarr(t.args[1]), ndarr(t.args[2]))
    if t.op in ("seq", "concat"):
        return arr(type_map(t))
    if t.op == "map":
        n, v, body = t.args
        return arr(map_(n, v, unarr(ndarr(body)) if body.op in ("seq", "map", "concat", "arr") else body))
    if t.op in ("filter", "flat"):
        return mk("arr", t)
    return t


def type_map(t):
    f = seq if t.op == "seq" else concat
    if t.op == "seq":
        return seq(*[unarr(ndarr(x)) for x in t.args])
    return concat(*[unarr(ndarr(x)) for x in t.args])


def mapfn(I, f, s):
    """apply a term-level function to each element of a sequence term"""
    if s.op == "seq":
        return seq(*[f(x) for x in s.args])
    if s.op == "map":
        return map_(s.args[0], s.args[1], f(s.args[2]))
    if s.op == "concat":
        return concat(*[mapfn(I, f, p) for p in s.args])
    if s.op == "ite":
        return ite(s.args[0], mapfn(I, f, s.args[1]), mapfn(I, f, s.args[2]))
    k = fresh("m", "nat")
    return map_(size(s), k, f(I.index(s, k)))


def ext(I, d, args, kw):
    t = call(mk("ext", d), [I.deep(a) for a in args], [(k, I.deep(v)) for k, v in kw.items()])
    I.note_may_raise(t)
    return t


INTDT = ("builtins.int", "numpy.intp", "numpy.int32", "numpy.int64", "builtins.bool", "numpy.bool_", "numpy.integer",
         "numpy.float32", "numpy.int_", "numpy.float16", "numpy.int8", "numpy.int16", "numpy.complex64", "numpy.single",
         "numpy.half")


def narrow_dtype(kw):
    """dtype argument that does not hold every double (kept visible); other dtypes are transparent"""
    d = kw.pop("dtype", None)
    o = kw.get("order")
    if o is None or o is NONE or o.op == "str" and o.args[0] in ("C", "F", "A", "K"):   # memory layout, not value
        kw.pop("order", None)
    if d is None or d is NONE:
        return None
    if d.op == "ext" and d.args[0] in INTDT:
        return d
    if d.op == "str" and d.args[0] not in ("float", "float64", "d", "f8", "<f8"):
        return d
    return None


# {{{ registry

EXT = {}


def model(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(I, d, args, kw, node, fr):
    if d.startswith("math.") and any(symbolic(I.deep(I.deref(x))) for x in args):
        I.raise_(TRUE, "TypeError")
        return opaque(d + " of a symbolic expression")
    d = ALIASES.get(d, d)
    if d in ELEMENTWISE and len(args) == 1 and not kw:
        a = I.deref(args[0])
        if not I.is_scalar(a):
            a = ndarr(I.deep(a))
        return I.lift1(lambda x: fn(ELEMENTWISE[d], x), a)
    if d not in ("builtins.next", "builtins.iter", "builtins.isinstance"):
        args = [I.consume(a) for a in args]
    f = EXT.get(d)
    if f is not None and not any(a.op == "star" for a in args):
        r = f(I, list(args), dict(kw), fr)
        if r is not None:
            return r
    if any(a.op == "star" for a in args) and f is not None and d in STAR_OK:
        r = STAR_OK[d](I, list(args), dict(kw), fr)
        if r is not None:
            return r
    if d.split(".")[-1] in ("NotImplementedError", "ValueError", "RuntimeError", "TypeError", "AssertionError",
                            "KeyError", "IndexError", "AttributeError", "ArithmeticError", "Exception"):
        return mk("obj", d)
    return ext(I, d, args, kw)


ALIASES = {
    "numpy.linalg.linalg.norm": "numpy.linalg.norm", "scipy.linalg.solve": "numpy.linalg.solve",
    "scipy.linalg.inv": "numpy.linalg.inv", "numpy.absolute": "numpy.abs", "numpy.power": "operator.pow",
    "numpy.add": "operator.add", "numpy.multiply": "operator.mul", "numpy.subtract": "operator.sub",
    "numpy.divide": "operator.truediv", "numpy.true_divide": "operator.truediv", "numpy.matmul": "operator.matmul",
    "numpy.negative": "operator.neg", "scipy.special.factorial": "math.factorial", "pytools.factorial": "math.factorial",
    "numpy.concat": "numpy.concatenate", "numpy.conj": "numpy.conjugate", "math.pow": "operator.pow",
    "numpy.float_power": "operator.pow", "scipy.special.comb": "math.comb", "scipy.special.binom": "math.comb",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "pytools.product": "math.prod", "numpy.math.gamma": "math.gamma",
    "math.fabs": "builtins.abs", "numpy.fabs": "numpy.abs", "math.fsum": "builtins.sum",
    "numpy.asanyarray": "numpy.asarray", "numpy.ascontiguousarray": "numpy.asarray", "numpy.float64": "builtins.float",
    "numpy.mod": "operator.mod", "numpy.floor_divide": "operator.floordiv", "operator.__mul__": "operator.mul",
    "operator.__add__": "operator.add", "numpy.diag_indices": "numpy.diag_indices",
}

ELEMENTWISE = {}
for _n in ("sin", "cos", "tan", "exp", "log", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arctanh", "isinf",
           "isfinite", "isnan", "sign", "conjugate", "real", "imag", "floor", "ceil", "log2", "log10", "expm1", "log1p",
           "arcsinh", "arccosh", "cbrt"):
    ELEMENTWISE["numpy." + _n] = _n
for _n, _m in (("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("atanh", "arctanh"), ("asinh", "arcsinh"),
               ("acosh", "arccosh")):
    ELEMENTWISE["numpy." + _n] = _m
    ELEMENTWISE["math." + _n] = _m
for _n in ("sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "isinf", "isfinite", "isnan", "floor", "ceil",
           "expm1", "log1p"):
    ELEMENTWISE["math." + _n] = _n


def real_entry(x):
    """an entry of an array that is real by construction"""
    if x.op != "entry" or x.args[0].op != "proj" or x.args[0].args[0].op != "call":
        return False
    f = x.args[0].args[0].args[0]
    return bool(f.args) and str(f.args[0]).endswith((".compute_weights_and_nodes", ".roots_jacobi", ".linalg.eigh"))


def has_imag(x, memo=None):
    if x.op == "imagunit":
        return True
    memo = {} if memo is None else memo
    if x.id not in memo:
        memo[x.id] = False
        memo[x.id] = any(isinstance(a, Term) and has_imag(a, memo) for a in x.args)
    return memo[x.id]


def real_scalar(x):
    return x.op in ("num", "pi") or is_int(x) or x.op == "sym" and x.args[1] in INTK + ("real", "jac") or real_entry(x) or (
        x.op in ("add", "mul", "abs", "fn") and (x.op != "fn" or x.args[0] in ("sin", "cos", "exp", "tan", "sinh", "cosh", "arctan"))
        and all(not isinstance(a, Term) or real_scalar(a) for a in x.args)
        or x.op == "pow" and real_scalar(x.args[0]) and is_int(x.args[1]))


def complex_parts(x):
    """(real part, imaginary part) of a closed scalar expression, or None"""
    if x.op == "imagunit":
        return ZERO, ONE
    if real_scalar(x):
        return x, ZERO
    if x.op == "add":
        ps = [complex_parts(a) for a in x.args]
        return None if None in ps else (add(*[p[0] for p in ps]), add(*[p[1] for p in ps]))
    if x.op == "mul":
        r, i = ONE, ZERO
        for a in x.args:
            p = complex_parts(a)
            if p is None:
                return None
            r, i = sub(mul(r, p[0]), mul(i, p[1])), add(mul(r, p[1]), mul(i, p[0]))
        return r, i
    if x.op == "pow" and x.args[1].op == "num" and x.args[1].args[0].denominator == 1 and abs(x.args[1].args[0]) <= 8:
        p, e = complex_parts(x.args[0]), int(x.args[1].args[0])
        if p is None:
            return None
        if e < 0:
            n = add(mul(p[0], p[0]), mul(p[1], p[1]))
            p = div(p[0], n), neg(div(p[1], n))
        r, i = ONE, ZERO
        for _ in range(abs(e)):
            r, i = sub(mul(r, p[0]), mul(i, p[1])), add(mul(r, p[1]), mul(i, p[0]))
        return r, i
    if x.op == "fn" and x.args[0] == "exp" and has_imag(x):
        p = complex_parts(x.args[1])
        if p is None:
            return None
        m = fn("exp", p[0])
        return mul(m, fn("cos", p[1])), mul(m, fn("sin", p[1]))
    if x.op == "fn" and x.args[0] == "conjugate":
        p = complex_parts(x.args[1])
        return None if p is None else (p[0], neg(p[1]))
    return None


# set by specs that speak about finite values only
FINITE = False


def fn(name, x):
    if isbot(x):
        return x
    if name in ("real", "imag", "conjugate") and x.op != "ite":
        p = complex_parts(x)
        if p is not None:
            return p[0] if name == "real" else p[1] if name == "imag" else add(p[0], neg(mul(mk("imagunit"), p[1])))
    if x.op == "ite":
        return ite(x.args[0], fn(name, x.args[1]), fn(name, x.args[2]))
    inf = mk("ext", "numpy.inf")
    if name in ("isinf", "isfinite", "isnan"):
        if x is inf or x.op == "mul" and inf in x.args and all(a.op == "num" or a is inf for a in x.args):
            return boolc(name == "isinf")
        if x.op in ("num", "pi") or is_int(x):
            return boolc(name == "isfinite")
        if FINITE:
            return boolc(name == "isfinite")
        if name == "isfinite":
            return and_(not_(mk("truthy", mk("fn", "isinf", x))), not_(mk("truthy", mk("fn", "isnan", x))))
        return mk("truthy", mk("fn", name, x))
    if x.op == "num":
        v = x.args[0]
        if v == 0 and name in ("sin", "tan", "sinh", "tanh", "arcsin", "arctan", "arctanh", "expm1", "log1p"):
            return ZERO
        if v == 0 and name in ("cos", "exp", "cosh"):
            return ONE
        if v == 1 and name == "log":
            return ZERO
        if name == "sign":
            return num((v > 0) - (v < 0))
        if name in ("floor", "ceil"):
            import math
            return num(getattr(math, name)(v))
    if name in ("conjugate", "real") and real_entry(x):
        return x
    if name in ("conjugate", "real") and (x.op in ("num", "pi") or is_int(x) or x.op == "sym" and x.args[1] in INTK + ("real",)):
        return x
    if name == "conjugate":
        if x.op == "fn" and x.args[0] == "conjugate":
            return x.args[1]
        if x.op == "imagunit":
            return neg(x)
        if x.op in ("add", "mul"):
            return (add if x.op == "add" else mul)(*[fn(name, a) for a in x.args])
        if x.op == "fn" and x.args[0] in ("exp", "sin", "cos"):
            return fn(x.args[0], fn("conjugate", x.args[1]))
    if x is mk("pi"):
        if name == "sin":
            return ZERO
        if name == "cos":
            return NEG1
    if name in ("arcsin", "arctan", "arctanh", "sin", "tan", "sinh", "tanh", "sign", "cos", "cosh"):
        # odd and even functions
        if x.op == "mul" and x.args[0].op == "num" and x.args[0].args[0] < 0:
            r = mk("fn", name, neg(x))
            return r if name in ("cos", "cosh") else neg(r)
    return mk("fn", name, x)


T._REBUILD["fn"] = fn

STAR_OK = {}

# }}}


# {{{ builtins

@model("builtins.isinstance")
def _(I, a, kw, fr):
    return I.isinstance_(a[0], I.deref(a[1]))


@model("builtins.issubclass")
def _(I, a, kw, fr):
    x, c = I.deref(a[0]), I.deref(a[1])
    if x.op == "cls" and c.op == "cls":
        return boolc(I.prog.issub(x.args[0], c.args[0]))


@model("builtins.type")
def _(I, a, kw, fr):
    if len(a) != 1:
        return None
    x = I.deref(a[0])
    if x.op == "ite":
        return ite(x.args[0], _typeof(I, x.args[1]), _typeof(I, x.args[2]))
    return _typeof(I, x)


def _typeof(I, x):
    x = I.deref(x)
    if x.op == "obj":
        return mk("cls", x.args[0])
    return mk("typeof", I.deep(x))


@model("builtins.len")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    return ln(I, x)


def ln(I, x):
    x = I.deref(x)
    if x.op == "ite":
        return ite(x.args[0], ln(I, x.args[1]), ln(I, x.args[2]))
    if x.op == "obj":
        c = I.prog.classes.get(x.args[0])
        f = c and I.prog.method(c, "__len__")
        if f:
            return I.call_func(f, [x], {})
        if I.lacks(x, "__len__"):
            I.raise_(TRUE, "TypeError")
            return opaque("length of an object without one")
    if x is NONE:
        I.raise_(TRUE, "TypeError")
        return opaque("length of None")
    if x.op in ("alloc", "update", "stackp", "T"):
        s = I.shape_of(x)
        if s.op == "seq" and s.args:
            return s.args[0]
    if x.op == "dictmap":
        return mk("size", x)
    if x in I.symshape:
        s = I.symshape[x]
        if s.op == "seq" and s.args:
            return s.args[0]
    if not isarr(x) and x.op not in SEQLIKE and I.kind(x) in ("mat", "ary"):
        return idx(I.shape_of(x), ZERO)
    if x.op == "attr" and x.args[1] == "shape" and I.kind(x.args[0]) == "mat":
        return TWO
    return size(unarr(I.deep(x)))


@model("builtins.range")
def _(I, a, kw, fr):
    a = [I.deref(x) for x in a]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    return arange_(lo, hi, st)


def cnt_nonneg(n):
    return n if is_nonneg(n) else mk_max0(n)


def mk_max0(n):
    if n.op == "num":
        return num(max(0, n.args[0]))
    # n + c with n a natural number: lengths of ranges; a negative count is an empty range
    atoms, c = linform(n)
    if c == -1 and len(atoms) == 1 and all(v == 1 and is_nonneg(x) for x, v in atoms.items()):
        return n
    return n


def arange_(lo, hi, st):
    k = fresh("k", "nat")
    if any(x.op == "ite" for x in (lo, hi, st)):
        for i, x in enumerate((lo, hi, st)):
            if x.op == "ite":
                l = [lo, hi, st]
                r = [lo, hi, st]
                l[i], r[i] = x.args[1], x.args[2]
                return ite(x.args[0], arange_(*l), arange_(*r))
    if st.op != "num" or st.args[0] == 0:
        return call(mk("ext", "builtins.range"), [lo, hi, st])
    s = int(st.args[0])
    if lo.op == "num" and hi.op == "num":
        return seq(*[num(x) for x in range(int(lo.args[0]), int(hi.args[0]), s)]) if abs(hi.args[0] - lo.args[0]) < 4000 else None
    if s == 1:
        return map_(cnt_nonneg(sub(hi, lo)), k, add(lo, k))
    if s == -1:
        return map_(cnt_nonneg(sub(lo, hi)), k, sub(lo, k))
    n = floordiv(add(sub(hi, lo), num(s - 1)), st) if s > 0 else floordiv(add(sub(lo, hi), num(-s - 1)), num(-s))
    return map_(n, k, add(lo, mul(st, k)))


@model("builtins.enumerate")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    st = I.deref(a[1]) if len(a) > 1 else kw.get("start", ZERO)
    lit = I.literal_items(x)
    if lit is not None:
        return seq(*[seq(add(num(i), st), v) for i, v in enumerate(lit)])
    if x.op == "ite":
        return ite(x.args[0], EXT["builtins.enumerate"](I, [x.args[1], st], {}, fr),
                   EXT["builtins.enumerate"](I, [x.args[2], st], {}, fr))
    n, e = I.iter_info(x)
    k = fresh("k", "nat")
    return map_(n, k, seq(add(k, st), e(k)))


@model("builtins.zip")
def _(I, a, kw, fr):
    xs = [I.deref(x) for x in a]
    for i, x in enumerate(xs):
        if x.op == "ite":
            l, r = list(xs), list(xs)
            l[i], r[i] = x.args[1], x.args[2]
            return ite(x.args[0], EXT["builtins.zip"](I, l, {}, fr), EXT["builtins.zip"](I, r, {}, fr))
    lits = [I.literal_items(x) for x in xs]
    if all(l is not None for l in lits):
        return seq(*[seq(*t) for t in zip(*lits)])
    if any(l is not None for l in lits):
        # a literal sequence fixes the number of pairs when strict, else bounds it
        n = min(len(l) for l in lits if l is not None)
        strict = kw.get("strict")
        infos = [None if l is not None else I.iter_info(x) for l, x in zip(lits, xs)]
        return seq(*[seq(*[l[j] if l is not None else inf[1](num(j)) for l, inf in zip(lits, infos)]) for j in range(n)])
    infos = [I.iter_info(x) for x in xs]
    k = fresh("k", "nat")
    ns = []
    for n, _e in infos:
        if n not in ns:
            ns.append(n)
    n = ns[0]
    if len(ns) > 1 and not (kw.get("strict") is TRUE):
        n = maxmin("min", *ns)
    return map_(n, k, seq(*[e(k) for _n, e in infos]))


def _zipstar(I, a, kw, fr):
    if len(a) == 1 and a[0].op == "star":
        s = unarr(a[0].args[0])
        if s.op == "map" and s.args[2].op == "seq":
            n, v, body = s.args
            return seq(*[map_(n, v, x) for x in body.args])
        return mk("zipstar", s)


STAR_OK["builtins.zip"] = _zipstar


@model("builtins.tuple")
def _(I, a, kw, fr):
    if not a:
        return seq()
    x = I.deref(a[0])
    if x.op == "dict":
        return seq(*x.args[::2])
    if x.op == "map" and x.args[1] is None:
        return x
    return unarr(x)


@model("builtins.list")
def _(I, a, kw, fr):
    return I.newref(EXT["builtins.tuple"](I, a, kw, fr))


@model("builtins.iter")
def _(I, a, kw, fr):
    if len(a) != 1:
        return None
    x = I.deref(a[0])
    if x.op == "iter":
        return a[0]
    return I.newref(mk("iter", EXT["builtins.tuple"](I, a, kw, fr), ZERO))


@model("builtins.next")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if x.op == "iter" and a[0].op == "ref":
        s, pos = x.args
        n = size(s)
        if len(a) == 2 and (n.op != "num" or pos.op != "num"):
            raise Opaque("next with default")
        if n.op == "num" and pos.op == "num" and pos.args[0] >= n.args[0]:
            if len(a) == 2:
                return a[1]
            I.raise_(TRUE, "StopIteration")
            return opaque("exhausted iterator")
        if n.op != "num":
            I.raise_(le(n, pos), "StopIteration")
        r = a[0]
        while I.st.heap[r.args[0]].op == "ref":
            r = I.st.heap[r.args[0]]
        I.st.heap[r.args[0]] = mk("iter", s, add(pos, ONE))
        return I.index(s, pos)
    x = unarr(x)
    if len(a) == 1 and x.op == "seq" and x.args:
        if x in I.nexted:
            raise Opaque("iterator state")
        I.nexted.add(x)
        return x.args[0]


@model("builtins.dict")
def _(I, a, kw, fr):
    items = [y for k, v in kw.items() for y in (string(k), v)]
    if not a:
        return I.newref(mk("dict", *items))
    x = I.deref(a[0])
    if x.op in ("dict", "dictmap", "dset") and not items:
        return I.newref(x)
    x = unarr(x)
    if x.op in SEQLIKE and not items:
        return I.newref(I.mkdict(x))


@model("builtins.set", "builtins.frozenset")
def _(I, a, kw, fr):
    if not a:
        return mk("set")
    x = unarr(I.deref(a[0]))
    if x.op == "seq":
        return mk("set", *sorted(set(I.deep(y) for y in x.args), key=lambda t: t.id))
    return mk("setof", I.deep(x))


@model("builtins.sum")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    st = I.deref(a[1]) if len(a) > 1 else kw.get("start")
    x = asseq(x)
    if st is not None and st.op in ("seq",):
        r = flat(I.deep(x))
        return concat(st, r) if st.args else r
    r = total(I, x)
    return I.lift2(add, I.deref(st), r) if st is not None else r


def total(I, x):
    """sum over the first axis"""
    x = unarr(x)
    if x.op == "seq":
        r = ZERO
        for y in x.args:
            y = I.deref(y)
            r = I.lift2(add, r, I.mkarr(y) if y.op in ("seq", "map") else y)
        return r
    if x.op == "map" and x.args[2].op == "arr":
        s = unarr(x.args[2])
        n, v, _b = x.args
        if s.op == "seq":
            return arr(seq(*[total(I, map_(n, v, y)) for y in s.args]))
        if s.op == "map" and v not in free(s.args[0]):
            k = fresh("k", "nat")
            return arr(map_(s.args[0], k, total(I, map_(n, v, idx(s, k)))))
    return sum_(I.deep(x))


@model("math.prod")
def _(I, a, kw, fr):
    x = asseq(I.deref(a[0]))
    st = kw.get("start") or (I.deref(a[1]) if len(a) > 1 else None)
    lit = I.literal_items(x)
    if lit is not None:
        r = st or ONE
        for y in lit:
            r = I.lift2(mul, r, I.deref(y))
        return r
    r = prod_(I.deep(x))
    return mul(st, r) if st is not None else r


@model("numpy.prod")
def _(I, a, kw, fr):
    if len(a) == 1 and not (set(kw) - {"dtype", "axis"}) and "axis" not in kw:
        x = ndarr(I.deep(I.deref(a[0])))
        if I.rank(x) == 1 or I.is_list(x):
            return prod_(unarr(x))
        if I.rank(x) == 2:
            # every entry, rows first
            rows = I.literal_items(x)
            if rows is not None:
                return mul(*[prod_(unarr(I.deref(r))) for r in rows]) if rows else ONE
        return mk("prod", x)
    if len(a) == 1 and set(kw) == {"axis"}:
        ax = I.deref(kw["axis"])
        x = ndarr(I.deep(I.deref(a[0])))
        if ax.op == "num":
            return I.lit_reduce(mul, x, int(ax.args[0]), ONE)


@model("builtins.min")
def _(I, a, kw, fr):
    return _minmax(I, a, kw, "min")


@model("builtins.max")
def _(I, a, kw, fr):
    return _minmax(I, a, kw, "max")


def _minmax(I, a, kw, op):
    if kw:
        return None
    xs = unarr(I.deref(a[0])) if len(a) == 1 else mk("seq", *[I.deref(x) for x in a])
    if xs.op == "seq" and len(xs.args) > 1:
        xs = [I.deref(x) for x in xs.args]
        if any(x.op == "obj" for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ite(T.truthy(I.compare(ast.Lt() if op == "min" else ast.Gt(), x, r)), x, r)
            return r
    if len(a) == 1:
        x = unarr(I.deref(a[0]))
        if x.op == "seq" and x.args:
            return maxmin(op, *[I.deep(y) for y in x.args])
        if x.op in ("map",) and x.args[1] not in free(x.args[2]):
            return x.args[2]
        return mk(op + "of", I.deep(x))
    return maxmin(op, *[I.deep(y) for y in a])


@model("numpy.maximum")
def _(I, a, kw, fr):
    return I.lift2(lambda x, y: maxmin("max", x, y), I.deref(a[0]), I.deref(a[1]))


@model("numpy.minimum")
def _(I, a, kw, fr):
    return I.lift2(lambda x, y: maxmin("min", x, y), I.deref(a[0]), I.deref(a[1]))


@model("builtins.abs", "numpy.abs")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw:
        x = I.deref(a[0])
        if x.op == "obj":
            return None
        return I.lift1(abs_, ndarr(I.deep(x)))


@model("builtins.any", "numpy.any")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw:
        return any_(I, unarr(I.deref(a[0])))


@model("builtins.all", "numpy.all")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw:
        x = unarr(I.deref(a[0]))
        if scalar_condition(I, x):
            return x
        if x.op == "call" or x.op in ("eq0", "near0", "le", "lt0", "le0r", "same"):
            # elementwise condition on whole arrays
            return mk("truthy", mk("allof", x))
        return not_(any_(I, mapfn(I, lambda y: not_(truthy(I.deref(y))), x) if x.op in SEQLIKE and x.op not in ("filter", "flat", "rep")
                         else neg_filter(I, x)))


def neg_filter(I, x):
    if x.op == "filter":
        return mk("filter", x.args[0], x.args[1], not_(truthy(x.args[2])), x.args[3])
    if x.op == "flat":
        m = x.args[0]
        return flat(map_(m.args[0], m.args[1], neg_filter(I, m.args[2]))) if m.op == "map" else mk("negall", x)
    if x.op in SEQLIKE:
        return mapfn(I, lambda y: not_(truthy(y)), x)
    k = fresh("q", "nat")
    return map_(size(x), k, not_(truthy(I.index(x, k))))


def scalar_condition(I, x):
    """a comparison of scalars, not of arrays"""
    if x.op in ("true", "false"):
        return True
    if x.op in ("not", "and", "or"):
        return all(scalar_condition(I, y) for y in x.args)
    return x.op in ("lt0", "le0r", "eq0") and I.is_scalar(x.args[0])


def any_(I, x):
    if x.op == "seq":
        return or_(*[truthy(I.deref(y)) for y in x.args])
    if x.op == "map":
        return exists(x.args[0], x.args[1], truthy(x.args[2]))
    if x.op == "filter":
        n, v, b, c = x.args
        return exists(n, v, and_(c, truthy(b)))
    if x.op == "concat":
        return or_(*[any_(I, p) for p in x.args])
    if x.op == "flat" and x.args[0].op == "map":
        n, v, b = x.args[0].args
        return exists(n, v, any_(I, b))
    if x.op == "ite":
        return ite(x.args[0], any_(I, x.args[1]), any_(I, x.args[2]))
    if scalar_condition(I, x):
        return x
    if is_bool(x) and x.op != "call":
        return mk("truthy", mk("anyof", x))
    return mk("truthy", mk("anyof", I.deep(x)))


@model("builtins.reversed")
def _(I, a, kw, fr):
    x = unarr(I.deref(a[0]))
    return reverse(I, x)


def reverse(I, x):
    if x.op == "ite":
        return ite(x.args[0], reverse(I, x.args[1]), reverse(I, x.args[2]))
    if x.op == "seq":
        return seq(*reversed(x.args))
    if x.op == "concat":
        return concat(*[reverse(I, p) for p in reversed(x.args)])
    if x.op in ("filter", "flat"):
        return mk("idx", x, mk("slice", NONE, NONE, NEG1))
    n = size(x)
    k = fresh("k", "nat")
    return map_(n, k, idx(x, sub(sub(n, ONE), k)))


def ordkey(t):
    """Python value of a constant usable as a sorting key"""
    if t.op == "num":
        return t.args[0]
    if t.op == "str":
        return t.args[0]
    if t.op == "seq":
        ks = [ordkey(x) for x in t.args]
        return None if None in ks else tuple(ks)
    if t in (TRUE, FALSE):
        return int(t is TRUE)
    return None


def sort_literal(I, x, kw):
    """sorted list of a literal sequence whose keys are constants"""
    items = I.literal_items(x)
    if items is None or set(kw) - {"key", "reverse"}:
        return None
    rev = I.deref(kw.get("reverse", FALSE))
    if rev not in (TRUE, FALSE):
        return None
    key = I.deref(kw["key"]) if "key" in kw else NONE
    ks = [ordkey(I.deep(y if key is NONE else I.call(key, [y], {}))) for y in items]
    if None in ks:
        return None
    try:
        o = sorted(range(len(ks)), key=lambda i: ks[i], reverse=rev is TRUE)
    except TypeError:
        return None
    return seq(*[items[i] for i in o])


@model("builtins.sorted")
def _(I, a, kw, fr):
    r = sort_literal(I, unarr(I.deref(a[0])), kw)
    if r is not None:
        return I.newref(r)
    return I.newref(ext(I, "builtins.sorted", a, kw))


def integral(t):
    """an integer by virtue of being a product of integers and binomial coefficients"""
    if is_int(t):
        return True
    fs = list(t.args) if t.op == "mul" else [t]
    num_ = [f for f in fs if not (f.op == "pow" and is_num(f.args[1], -1))]
    den = [f.args[0] for f in fs if f.op == "pow" and is_num(f.args[1], -1)]
    for d in den:
        gs = [g for g in (d.args if d.op == "mul" else (d,))]
        if not 1 <= len(gs) <= 2 or any(g.op != "gamma" for g in gs):
            return False
        for g in num_:
            if g.op != "gamma":
                continue
            if len(gs) == 2 and sub(add(*[x.args[0] for x in gs]), g.args[0]) is ONE and all(is_pos_int(x.args[0]) for x in gs):
                break
            if len(gs) == 1 and is_pos_int(gs[0].args[0]) and is_nonneg_int(sub(g.args[0], gs[0].args[0])):
                break
        else:
            return False
        num_.remove(g)
    return all(is_int(f) or f.op == "gamma" and is_pos_int(f.args[0]) for f in num_)


def is_nonneg_int(x):
    return is_int(x) and is_nonneg(x)


def is_pos_int(x):
    return is_int(x) and is_nonneg(sub(x, ONE))


@model("pytools.is_single_valued", "pytools.all_equal")
def _(I, a, kw, fr):
    x = unarr(I.deref(a[0]))
    if kw or len(a) != 1 or x.op != "seq" or not x.args:
        return None
    return and_(*[eq(I.deref(x.args[0]), I.deref(y)) for y in x.args[1:]])


@model("builtins.int", "operator.index", "numpy.int64", "numpy.intp")
def _(I, a, kw, fr):
    if not a:
        return ZERO
    x = I.deref(a[0])
    if is_int(x):
        return x
    if x.op == "num":
        v = x.args[0]
        return num(int(v))
    if is_bool(x):
        return ite(x, ONE, ZERO)
    if x.op == "fn" and x.args[0] in ("floor", "ceil"):
        return mk("fn", x.args[0], x.args[1])
    if integral(x):
        return x
    return mk("trunc", I.deep(x))


@model("math.floor")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if is_int(x):
        return x
    return fn("floor", x)


@model("math.ceil")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if is_int(x):
        return x
    return fn("ceil", x)


@model("builtins.round")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if is_int(x) and len(a) == 1:
        return x


@model("builtins.float", "builtins.complex")
def _(I, a, kw, fr):
    if not a:
        return ZERO
    x = I.deref(a[0])
    if x.op == "str":
        if x.args[0].strip("+-") in ("inf", "infinity"):
            r = mk("ext", "numpy.inf")
            return neg(r) if x.args[0].startswith("-") else r
        return None
    return x


@model("builtins.bool")
def _(I, a, kw, fr):
    return truthy(I.deref(a[0])) if a else FALSE


@model("builtins.str", "builtins.repr", "builtins.format")
def _(I, a, kw, fr):
    return mk("fstr")


@model("builtins.id")
def _(I, a, kw, fr):
    return mk("call", mk("ext", "builtins.hash"), mk("args", *[I.deep(x) for x in a]))


@model("builtins.getattr")
def _(I, a, kw, fr):
    n = I.deref(a[1])
    if n.op == "str":
        if len(a) == 3:
            b = I.deref(a[0])
            if b.op == "obj":
                mark = len(I.pend)
                r = I.getattr_(a[0], n.args[0], None, fr)
                if r.op == "undef":
                    del I.pend[mark:]
                    return a[2]
                return r
            if b.op == "sym" or b.op in ("call", "attr", "idx"):
                return ite(mk("hasattr", b, n), I.getattr_(b, n.args[0], None, fr), a[2])
            return None
        return I.getattr_(a[0], n.args[0], None, fr)


@model("builtins.hasattr")
def _(I, a, kw, fr):
    n = I.deref(a[1])
    b = I.deref(a[0])
    if n.op == "str":
        if b.op == "obj":
            mark = len(I.pend)
            r = I.getattr_(a[0], n.args[0], None, fr)
            del I.pend[mark:]
            return boolc(r.op != "undef")
        return mk("hasattr", I.deep(b), n)


@model("builtins.setattr", "builtins.object.__setattr__")
def _(I, a, kw, fr):
    n = I.deref(a[1])
    if n.op == "str":
        I.store_attr(None, a[0], n.args[0], a[2], fr)
        return NONE


@model("copy.copy")
def _(I, a, kw, fr):
    return I.copied(a[0], "__copy__")


@model("copy.deepcopy")
def _(I, a, kw, fr):
    return I.copied(a[0], "__deepcopy__")


@model("pickle.dumps")
def _(I, a, kw, fr):
    return mk("pickled", I.copied(a[0], None))


@model("pickle.loads")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if x.op == "pickled":
        return x.args[0]


@model("builtins.hash")
def _(I, a, kw, fr):
    o = I.deref(a[0])
    if o.op == "obj":
        from .loader import Class
        c = I.prog.classes.get(o.args[0])
        for k in (I.prog.mro(c) if c is not None else ()):
            if not isinstance(k, Class):
                continue
            if "__hash__" in k.methods:
                return I.call_func(k.methods["__hash__"], [a[0]], {})
            if "__eq__" in k.methods:
                return I.raise_(TRUE, "TypeError") or NONE
            if k.dataclass and k.dataclass.get("eq", True):
                if not k.dataclass.get("frozen") and not k.dataclass.get("unsafe_hash"):
                    return I.raise_(TRUE, "TypeError") or NONE
                f = dict(zip(o.args[1::2], o.args[2::2]))
                return mk("seq", *[I.deep(f.get(n, NONE)) for n in I.dataclass_fields(k)])     # as if hashing lost nothing
        return mk("hash", mk("identity", I.deep(a[0]), num(a[0].args[0] if a[0].op == "ref" else 0)))
    return I.deep(o)


@model("builtins.object.__new__")
def _(I, a, kw, fr):
    c = I.deref(a[0])
    if c.op == "cls":
        return I.newref(mk("obj", c.args[0]))


@model("builtins.object.__init__", "builtins.print", "warnings.warn", "builtins.object.__init_subclass__")
def _(I, a, kw, fr):
    return NONE


@model("builtins.callable")
def _(I, a, kw, fr):
    x = I.deref(a[0])
    if x.op in ("func", "closure", "lam", "partial", "bound"):
        return TRUE


@model("builtins.map")
def _(I, a, kw, fr):
    f = I.deref(a[0])
    xs = [I.deref(x) for x in a[1:]]
    z = unarr(I.deref(EXT["builtins.zip"](I, xs, {}, fr))) if len(xs) > 1 else unarr(xs[0])
    one = len(xs) == 1
    lit = I.literal_items(z)
    if lit is not None:
        return seq(*[I.call(f, [x] if one else list(x.args), {}) for x in lit])
    n, e = I.iter_info(z)
    k = fresh("k", "nat")
    v = e(k)
    r = I.call(f, [v] if one else list(v.args), {})
    return map_(n, k, I.close(I.deep(r), {k}))


@model("builtins.filter")
def _(I, a, kw, fr):
    f, x = I.deref(a[0]), unarr(I.deref(a[1]))
    n, e = I.iter_info(x)
    k = fresh("k", "nat")
    v = e(k)
    c = truthy(v) if f is NONE else truthy(I.deref(I.call(f, [v], {})))
    return filter_(n, k, v, c)


@model("builtins.slice")
def _(I, a, kw, fr):
    a = [I.deref(x) for x in a]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    lo = NONE if is_num(a[0], 0) else a[0]
    return mk("slice", lo, a[1], NONE if is_num(a[2], 1) else a[2])


@model("builtins.divmod")
def _(I, a, kw, fr):
    x, y = I.deref(a[0]), I.deref(a[1])
    return seq(floordiv(x, y), mod(x, y))


@model("builtins.pow")
def _(I, a, kw, fr):
    if len(a) == 2:
        return I.binop(ast.Pow(), I.deref(a[0]), I.deref(a[1]))


@model("typing.cast")
def _(I, a, kw, fr):
    return a[1]


@model("contextlib.suppress", "numpy.errstate", "warnings.catch_warnings")
def _(I, a, kw, fr):
    return mk("ctxmgr", *[I.deep(x) for x in a])

# }}}


# {{{ functools, itertools, operator, pytools

@model("functools.partial")
def _(I, a, kw, fr):
    f = I.deref(a[0])
    pos = [I.deref(x) if I.deref(x).op in ("obj",) else x for x in a[1:]]
    pos = [I.deep(x) for x in pos]
    if f.op == "partial":
        k2 = dict(zip(f.args[2::2], f.args[3::2]))
        k2.update(kw)
        pos = list(f.args[1].args) + pos
        f, kw = f.args[0], k2
    return mk("partial", f, mk("args", *pos), *[y for k, v in sorted(kw.items()) for y in (k, I.deep(v))])


for _opn, _cls in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv),
                   ("mod", ast.Mod), ("pow", ast.Pow), ("matmul", ast.MatMult), ("and_", ast.BitAnd), ("or_", ast.BitOr),
                   ("xor", ast.BitXor)):
    def _f(I, a, kw, fr, _c=_cls):
        if len(a) == 2 and not kw:
            return I.binop(_c(), I.deref(a[0]), I.deref(a[1]))
    EXT["operator." + _opn] = _f


for _opn, _cls in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq),
                   ("is_", ast.Is), ("is_not", ast.IsNot)):
    def _f(I, a, kw, fr, _c=_cls):
        if len(a) == 2 and not kw:
            return I.compare(_c(), I.deref(a[0]), I.deref(a[1]))
    EXT["operator." + _opn] = _f


@model("operator.contains")
def _(I, a, kw, fr):
    return I.in_(I.deref(a[1]), I.deref(a[0]))


@model("operator.neg")
def _(I, a, kw, fr):
    return I.lift1(neg, I.deref(a[0]))


@model("operator.itemgetter")
def _(I, a, kw, fr):
    if len(a) == 1:
        p = fresh("p")
        return mk("lam", mk("args", p), idx(p, I.deep(a[0])))


@model("functools.reduce")
def _(I, a, kw, fr):
    f = I.deref(a[0])
    x = unarr(I.deref(a[1]))
    lit = I.literal_items(x)
    if lit is not None:
        it = list(lit)
        if len(a) > 2:
            r = a[2]
        elif it:
            r = it.pop(0)
        else:
            I.raise_(TRUE, "TypeError")
            return opaque("reduce of empty sequence")
        for y in it:
            r = I.call(f, [r, y], {})
        return r
    if f.op == "ext" and f.args[0] in ("operator.mul", "operator.add") or len(a) > 2:
        n, e = I.iter_info(x)
        k = fresh("r", "nat")
        init = I.deep(a[2]) if len(a) > 2 else None
        s = fresh("acc", I.state_kind(init) if init is not None else "any")
        step = I.deep(I.call(f, [s, e(k)], {}))
        if init is None:
            if f.args[0] == "operator.mul":
                return prod_(I.deep(x))
            return sum_(I.deep(x))
        sol = Recurrence(I, k, n, [s], [init], [step]).solve()
        return subst(sol[s], {k: n})
    return None


@model("itertools.chain")
def _(I, a, kw, fr):
    return concat(*[unarr(I.deref(x)) for x in a])


@model("itertools.chain.from_iterable")
def _(I, a, kw, fr):
    return flat(I.deep(unarr(I.deref(a[0]))))


@model("itertools.product")
def _(I, a, kw, fr):
    ls = [I.literal_items(I.deref(x)) for x in a]
    r = kw.pop("repeat", None)
    if kw or any(l is None for l in ls) or r is not None and r.op != "num":
        return None
    ls = ls * (int(r.args[0]) if r is not None else 1)
    return seq(*[seq(*t) for t in itertools.product(*ls)])


@model("numpy.ndindex")
def _(I, a, kw, fr):
    a = [I.deref(x) for x in a]
    if len(a) == 1 and unarr(a[0]).op == "seq":
        a = list(unarr(a[0]).args)
    if all(x.op == "num" for x in a):
        return seq(*[seq(*[num(i) for i in t]) for t in itertools.product(*[range(int(x.args[0])) for x in a])])


@model("itertools.islice")
def _(I, a, kw, fr):
    x = unarr(I.deref(a[0]))
    b = [I.deref(y) for y in a[1:]]
    if len(b) == 1:
        return I.index(x, mk("slice", NONE, b[0], NONE))
    return I.index(x, mk("slice", NONE if is_num(b[0], 0) else b[0], b[1], NONE))


@model("itertools.repeat")
def _(I, a, kw, fr):
    if len(a) == 2:
        return rep(seq(a[0]), I.deref(a[1]))


@model("itertools.permutations", "itertools.combinations")
def _(I, a, kw, fr):
    return None


@model("itertools.accumulate")
def _(I, a, kw, fr):
    x = unarr(I.deref(a[0]))
    lit = I.literal_items(x)
    if lit is None:
        return None
    f = I.deref(a[1]) if len(a) > 1 else kw.get("func")
    out = []
    acc = kw.get("initial")
    if acc is not None and acc is not NONE:
        out.append(acc)
    else:
        acc = None
    for y in lit:
        acc = y if acc is None else (I.call(f, [acc, y], {}) if f is not None else add(acc, y))
        out.append(acc)
    return seq(*out)


@model("pytools.add_tuples")
def _(I, a, kw, fr):
    x, y = unarr(I.deref(a[0])), unarr(I.deref(a[1]))
    if x.op == "seq" and y.op == "seq" and len(x.args) == len(y.args):
        return seq(*[I.binop(ast.Add(), I.deref(p), I.deref(q)) for p, q in zip(x.args, y.args)])


@model("pytools.single_valued")
def _(I, a, kw, fr):
    x = unarr(I.deref(a[0]))
    if x.op == "seq" and x.args and all(y is x.args[0] for y in x.args):
        return x.args[0]
    return mk("single_valued", I.deep(x))


@model("pytools.wandering_element")
def _(I, a, kw, fr):
    n = I.deref(a[0])
    w = I.deref(a[1]) if len(a) > 1 else kw.get("wanderer", ONE)
    o = I.deref(a[2]) if len(a) > 2 else kw.get("landscape", ZERO)
    if n.op == "num":
        N = int(n.args[0])
        return seq(*[seq(*[w if i == j else o for j in range(N)]) for i in range(N)])


@model("pytools.generate_nonnegative_integer_tuples_below")
def _(I, a, kw, fr):
    n = unarr(I.deref(a[0]))
    length = I.deref(a[1]) if len(a) > 1 else kw.get("length")
    least = I.deref(a[2]) if len(a) > 2 else kw.get("least", ZERO)
    if length is not None and length is not NONE:
        if length.op == "num" and not I.is_list(n):
            n = seq(*[n] * int(length.args[0]))
        elif not I.is_list(n):
            n = rep(seq(n), length)
    if n.op == "seq" and all(x.op == "num" for x in n.args) and least.op == "num":
        tot = 1
        for x in n.args:
            tot *= max(0, int(x.args[0]))
        if tot <= 400:
            return seq(*[seq(*[num(y) for y in t]) for t in itertools.product(
                *[range(int(least.args[0]), int(x.args[0])) for x in n.args])])
    return call(mk("ext", "pytools.generate_nonnegative_integer_tuples_below"), [I.deep(n), least])


def gnitsam(n, length):
    if length == 0:
        yield ()
        return
    for i in range(n + 1):
        for b in gnitsam(n - i, length - 1):
            yield (*b, i)


@model("pytools.generate_nonnegative_integer_tuples_summing_to_at_most")
def _(I, a, kw, fr):
    n, l = I.deref(a[0]), I.deref(a[1]) if len(a) > 1 else kw.get("length")
    if n.op == "num" and l is not None and l.op == "num" and n.args[0] <= 20 and l.args[0] <= 4:
        ts = list(gnitsam(int(n.args[0]), int(l.args[0])))
        if len(ts) <= 1200:
            return seq(*[seq(*[num(y) for y in t]) for t in ts])
    if l is not None and is_num(l, 1):
        k = fresh("g", "nat")
        return map_(add(n, ONE), k, seq(k))
    return call(mk("ext", "pytools.generate_nonnegative_integer_tuples_summing_to_at_most"), [n, l])


def gdnt(n, length, lo=0, hi=None):
    if length == 0:
        yield ()
    elif length == 1:
        if hi is None or n <= hi:
            yield (n,)
    else:
        hi = n if hi is None or n < hi else hi
        for i in range(lo, hi + 1):
            for r in gdnt(n - i, length - 1, lo, i):
                yield (i, *r)


@model("pytools.generate_decreasing_nonnegative_tuples_summing_to")
def _(I, a, kw, fr):
    if len(a) == 2 and not kw:
        n, l = I.deref(a[0]), I.deref(a[1])
        if n.op == "num" and l.op == "num" and n.args[0] <= 12 and l.args[0] <= 8:
            return seq(*[seq(*[num(y) for y in t]) for t in gdnt(int(n.args[0]), int(l.args[0]))])


def permutations_(x):
    if len(x) <= 1:
        yield x
    else:
        for p in permutations_(x[1:]):
            for i in range(len(p) + 1):
                yield p[:i] + x[0:1] + p[i:]


@model("pytools.generate_unique_permutations")
def _(I, a, kw, fr):
    x = unarr(I.deep(a[0]))
    if x.op == "seq" and len(x.args) <= 8 and all(y.op == "num" for y in x.args):
        return seq(*[seq(*p) for p in dict.fromkeys(permutations_(x.args))])


@model("pytools.memoize_method", "pytools.memoize", "functools.wraps", "functools.lru_cache", "functools.cache")
def _(I, a, kw, fr):
    if a:
        return a[0]

# }}}


# {{{ math

@model("math.sqrt", "numpy.sqrt")
def _(I, a, kw, fr):
    return I.lift1(sqrt, ndarr(I.deep(I.deref(a[0]))))


@model("numpy.square")
def _(I, a, kw, fr):
    return I.lift1(lambda x: power(x, TWO), ndarr(I.deep(I.deref(a[0]))))


@model("numpy.reciprocal")
def _(I, a, kw, fr):
    return I.lift1(lambda x: power(x, NEG1), ndarr(I.deep(I.deref(a[0]))))


@model("math.gamma")
def _(I, a, kw, fr):
    return I.lift1(gamma_, I.deref(a[0]))


def gamma_(x):
    if x.op == "num" and x.args[0].denominator == 1 and 1 <= x.args[0] <= 40:
        import math
        return num(math.factorial(int(x.args[0]) - 1))
    return mk("gamma", x)


T._REBUILD["gamma"] = gamma_


@model("math.lgamma", "scipy.special.gammaln", "scipy.special.loggamma")
def _(I, a, kw, fr):
    return mk("fn", "log", gamma_(I.deref(a[0])))


@model("math.factorial")
def _(I, a, kw, fr):
    return I.lift1(lambda x: gamma_(add(x, ONE)), I.deref(a[0]))


@model("math.comb")
def _(I, a, kw, fr):
    n, k = I.deref(a[0]), I.deref(a[1])
    return mul(gamma_(add(n, ONE)), power(mul(gamma_(add(k, ONE)), gamma_(add(sub(n, k), ONE))), NEG1))


@model("scipy.special.beta")
def _(I, a, kw, fr):
    n, k = I.deref(a[0]), I.deref(a[1])
    return div(mul(gamma_(n), gamma_(k)), gamma_(add(n, k)))


@model("math.copysign", "numpy.copysign")
def _(I, a, kw, fr):
    x, y = I.deref(a[0]), I.deref(a[1])
    return mul(abs_(x), ite(lt(y, ZERO), NEG1, ONE))


@model("math.hypot", "numpy.hypot")
def _(I, a, kw, fr):
    x, y = I.deref(a[0]), I.deref(a[1])
    return sqrt(add(power(x, TWO), power(y, TWO)))

# }}}


# {{{ numpy construction

@model("numpy.asarray")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw and a[0].op == "ref" and I.deref(a[0]).op in ("arr", "sym", "update", "alloc"):
        return a[0]                                 # an array is handed back as it is
    return EXT["numpy.array"](I, a, kw, fr)


@model("numpy.array", "numpy.copy")
def _(I, a, kw, fr):
    nd = narrow_dtype(kw)
    if len(a) > 1 and nd is None:
        nd = narrow_dtype({"dtype": I.deref(a[1])})
    kw.pop("copy", None)
    if kw:
        return None
    x = I.deep(I.deref(a[0]))
    r = toarr(I, x)
    return r if nd is None else mk("astype", r, nd)


def toarr(I, x):
    if x.op == "ite":
        return ite(x.args[0], toarr(I, x.args[1]), toarr(I, x.args[2]))
    if x.op in SEQLIKE:
        return ndarr(x)
    if x.op != "arr" and (I.kind(x) in ("seq", "ntuple") or (I.kind(x) or "").startswith("seq:")):
        return mk("arr", x)
    return x


def shape_arg(I, s):
    s = I.deep(I.deref(s))
    if s.op in ("seq",):
        return s
    if I.is_scalar(s) or is_int(s):
        return seq(s)
    return s


def filled(I, shp, fill):
    if shp.op == "seq":
        if all(x.op == "num" for x in shp.args):
            n = 1
            for x in shp.args:
                n *= max(0, int(x.args[0]))
            if n <= 256:
                def build(dims):
                    if not dims:
                        return fill
                    return seq(*[build(dims[1:]) for _ in range(max(0, int(dims[0].args[0])))])
                if not shp.args:
                    return fill
                if n == 0 and len(shp.args) > 1:
                    return mk("alloc", shp, fill)
                return arr(build(shp.args))
    if shp.op == "concat" or shp.op in SEQLIKE:
        pass
    return mk("alloc", shp, fill)


EMPTYFILL = mk("uninit")


def _alloc(fill):
    def f(I, a, kw, fr):
        nd = narrow_dtype(kw)
        if len(a) > 1 and nd is None:
            nd = narrow_dtype({"dtype": I.deref(a[1])})
        if kw.get("order") in (None, NONE) or kw["order"].op == "str" and kw["order"].args[0] in "CF":
            kw.pop("order", None)
        if kw.keys() - {"shape"}:
            return None
        fl = fill if nd is None else mk("narrow", fill, nd)
        return filled(I, shape_arg(I, a[0] if a else kw["shape"]), fl)
    return f


EXT["numpy.zeros"] = _alloc(ZERO)
EXT["numpy.ones"] = _alloc(ONE)
EXT["numpy.empty"] = _alloc(EMPTYFILL)


@model("numpy.full")
def _(I, a, kw, fr):
    nd = narrow_dtype(kw)
    if kw or nd is not None or len(a) > 2:
        return None
    return filled(I, shape_arg(I, a[0]), I.deep(I.deref(a[1])))


def _alloc_like(fill):
    def f(I, a, kw, fr):
        x = ndarr(I.deep(I.deref(a[0])))
        nd = narrow_dtype(kw)
        if kw.get("shape") is not None:
            return filled(I, shape_arg(I, kw["shape"]), fill)
        if kw:
            return None
        if I.is_scalar(x):
            return fill
        fl = fill if nd is None else mk("narrow", fill, nd)
        if isarr(x) or x.op == "alloc":
            s = I.shape_of(x)
            if s.op == "seq":
                return filled(I, s, fl)
        # elementwise constant
        if fl in (ZERO, ONE):
            return mk("like", x, fl) if not I.is_scalar(x) else fl
        return mk("alloc", I.shape_of(x), fl)
    return f


EXT["numpy.zeros_like"] = _alloc_like(ZERO)
EXT["numpy.ones_like"] = _alloc_like(ONE)
EXT["numpy.empty_like"] = _alloc_like(EMPTYFILL)


def like(x, c):
    return mk("like", x, c)


@model("numpy.full_like")
def _(I, a, kw, fr):
    return _alloc_like(I.deep(I.deref(a[1])))(I, a[:1], kw, fr)


@model("numpy.eye", "numpy.identity")
def _(I, a, kw, fr):
    narrow_dtype(kw)
    if kw or len(a) > 1:
        return None
    n = I.deref(a[0])
    if n.op == "num" and n.args[0] <= 8:
        N = int(n.args[0])
        return arr(seq(*[seq(*[num(int(i == j)) for j in range(N)]) for i in range(N)]))
    return mk("eye", n)


@model("numpy.arange")
def _(I, a, kw, fr):
    narrow_dtype(kw)
    if kw:
        return None
    a = [I.deref(x) for x in a]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    if st.op == "num" and st.args[0].denominator == 1 and is_int(lo) and is_int(hi):
        r = arange_(lo, hi, st)
        return arr(r) if r is not None and r.op in ("seq", "map", "ite") else None
    if is_num(st, 1) or st.op == "num":
        d = sub(hi, lo)
        if is_int(d) and st is ONE:
            k = fresh("k", "nat")
            return arr(map_(d, k, add(lo, k)))
    return None


@model("numpy.linspace")
def _(I, a, kw, fr):
    lo, hi = I.deref(a[0]), I.deref(a[1])
    n = I.deref(a[2]) if len(a) > 2 else kw.pop("num", num(50))
    ep = I.deref(a[3]) if len(a) > 3 else kw.pop("endpoint", TRUE)
    if kw or ep not in (TRUE, FALSE):
        return None
    m = sub(n, ONE) if ep is TRUE else n
    if is_num(n, 1):
        return arr(seq(lo))
    k = fresh("k", "nat")
    r = arr(map_(n, k, add(lo, mul(k, div(sub(hi, lo), m)))))
    return r


@model("numpy.diag")
def _(I, a, kw, fr):
    x = I.deep(I.deref(a[0]))
    k = I.deref(a[1]) if len(a) > 1 else kw.pop("k", ZERO)
    if kw:
        return None
    l = lit.get(I, ndarr(x)) if is_num(k, 0) else None
    if l is not None and len(l.shape) == 1 and l.leaves and all(e.op == "entry" for e in l.leaves):
        n = l.shape[0]
        return lit.put(I, lit.Lit((n, n), [l.leaves[i] if i == j else ZERO for i in range(n) for j in range(n)]))
    return mk("diag", x, k)


@model("numpy.linalg.eigh", "scipy.linalg.eigh")
def _(I, a, kw, fr):
    """eigenvalues and unit eigenvectors of a symmetric matrix, given by its lower triangle"""
    if kw or len(a) != 1:
        return None
    A = ndarr(I.deep(I.deref(a[0])))
    l = lit.get(I, A)
    if l is None or len(l.shape) != 2 or l.shape[0] != l.shape[1] or not l.shape[0]:
        return None
    n = l.shape[0]
    A = lit.put(I, lit.Lit((n, n), [l.leaves[max(i, j) * n + min(i, j)] for i in range(n) for j in range(n)]))
    return I.entries(T.call(mk("ext", "numpy.linalg.eigh"), [A]), [(n,), (n, n)])


@model("numpy.linalg.eigvalsh", "scipy.linalg.eigvalsh")
def _(I, a, kw, fr):
    """in ascending order"""
    if kw or len(a) != 1:
        return None
    l = lit.get(I, ndarr(I.deep(I.deref(a[0]))))
    if l is not None and l.shape == (2, 2) and is_num(l.leaves[0], 0) and is_num(l.leaves[3], 0) and l.leaves[2].op == "num":
        b = abs(l.leaves[2].args[0])
        return lit.put(I, lit.Lit((2,), [num(-b), num(b)]))
    r = EXT["numpy.linalg.eigh"](I, a, {}, fr)
    return None if r is None else I.deref(r).args[0]


@model("numpy.sort")
def _(I, a, kw, fr):
    if kw or len(a) != 1:
        return None
    x = ndarr(I.deep(I.deref(a[0])))
    l = lit.get(I, x)
    if l is None or len(l.shape) != 1:
        return None
    if all(e.op == "num" for e in l.leaves):
        return lit.put(I, lit.Lit(l.shape, sorted(l.leaves, key=lambda e: e.args[0])))
    if l.leaves and all(e.op == "entry" for e in l.leaves):
        t, ix = l.leaves[0].args[0], [e.args[1].args[0] for e in l.leaves]
        if all(e.args[0] is t for e in l.leaves) and t.op == "proj" and is_num(t.args[1], 0) and t.args[0].op == "call" \
                and t.args[0].args[0] is mk("ext", "numpy.linalg.eigh") and ix == sorted(ix):
            return x                             # eigenvalues come in ascending order
    return None


def _tri(lower):
    def f(I, a, kw, fr):
        k = I.deref(a[1]) if len(a) > 1 else kw.pop("k", ZERO)
        l = lit.get(I, ndarr(I.deep(I.deref(a[0]))))
        if kw or l is None or len(l.shape) != 2 or k.op != "num":
            return None
        k = int(k.args[0])
        n, m = l.shape
        return lit.put(I, lit.Lit(l.shape, [l.leaves[i * m + j] if (j - i <= k if lower else j - i >= k) else ZERO
                                            for i in range(n) for j in range(m)]))
    return f


EXT["numpy.tril"], EXT["numpy.triu"] = _tri(True), _tri(False)


@model("numpy.linalg.cholesky", "scipy.linalg.cholesky")
def _(I, a, kw, fr):
    """lower factor; only the lower triangle of the argument counts"""
    l = lit.get(I, ndarr(I.deep(I.deref(a[0]))))
    if kw or len(a) != 1 or l is None or len(l.shape) != 2 or l.shape[0] != l.shape[1]:
        return None
    n = l.shape[0]
    c = mk("chol", num(n), seq(*[l.leaves[i * n + j] for i in range(n) for j in range(i + 1)]))
    return lit.put(I, lit.Lit(l.shape, [mk("entry", c, num(i), num(j)) if j <= i else ZERO for i in range(n) for j in range(n)]))


def tri_inverse(I, A):
    """inverse of a triangular matrix written out in full, else None"""
    l = lit.get(I, A)
    if l is None or len(l.shape) != 2 or l.shape[0] != l.shape[1] or not 1 < l.shape[0] <= 6:
        return None
    n = l.shape[0]
    M = [l.leaves[i * n:(i + 1) * n] for i in range(n)]
    low = all(M[i][j] == ZERO for i in range(n) for j in range(i + 1, n))
    if not low:
        if not all(M[i][j] == ZERO for i in range(n) for j in range(i)):
            return None
        M = [[M[j][i] for j in range(n)] for i in range(n)]
    if any(M[i][i] == ZERO for i in range(n)):
        return None
    X = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            r = add(ONE if i == j else ZERO, *[neg(mul(M[i][k], X[k][j])) for k in range(j, i)])
            X[i][j] = mul(r, power(M[i][i], NEG1))
    if not low:
        X = [[X[j][i] for j in range(n)] for i in range(n)]
    return lit.put(I, lit.Lit((n, n), [x for r in X for x in r]))


@model("scipy.linalg.solve_triangular")
def _(I, a, kw, fr):
    low = I.deref(kw.pop("lower", FALSE))
    A, B = ndarr(I.deep(I.deref(a[0]))), ndarr(I.deep(I.deref(a[1])))
    tr = I.deref(kw.pop("trans", ZERO))
    for k in ("overwrite_b", "check_finite"):
        kw.pop(k, None)
    if is_num(tr, 1) or tr is mk("str", "T"):
        tr = TRUE
    elif is_num(tr, 0) or tr is mk("str", "N"):
        tr = FALSE
    if kw or tr not in (TRUE, FALSE) or len(a) != 2 or low not in (TRUE, FALSE):
        return None
    A = EXT["numpy.tril" if low == TRUE else "numpy.triu"](I, [A], {}, fr)
    if A is not None and tr is TRUE:
        A = EXT["numpy.transpose"](I, [A], {}, fr)
    return None if A is None else I.matmul(inv_(I, A), B)


@model("numpy.vander", "numpy.roll", "numpy.argsort", "numpy.cumsum", "numpy.diff")
def _(I, a, kw, fr):
    return None


@model("numpy.stack")
def _(I, a, kw, fr):
    ax = I.deref(a[1]) if len(a) > 1 else kw.pop("axis", ZERO)
    if kw:
        return None
    x = unarr(I.deep(I.deref(a[0])))
    if is_num(ax, 0):
        return ndarr(x)
    e = x.args[0] if x.op == "seq" and x.args else x.args[2] if x.op == "map" else None
    if e is not None and (is_num(ax, 1) or is_num(ax, -1)) and I.rank(e) in (1, None):
        return I.stack_of(1, x)
    return T.stack(ax, ndarr(x))


def lit_concat(I, ts, axis):
    from . import lit
    try:
        return lit.concat_(I, ts, axis)
    except lit.Bad as e:
        I.raise_(TRUE, e.args[0])
        return opaque("arrays do not fit")


@model("numpy.vstack")
def _(I, a, kw, fr):
    x = unarr(I.deep(I.deref(a[0])))
    if x.op == "seq" and x.args and not kw:
        ss = [I.lit_shape(y) for y in x.args]
        if all(s is not None for s in ss):
            r = lit_concat(I, [arr(seq(y)) if len(s) == 1 else y for y, s in zip(x.args, ss)], 0)
            if r is not None:
                return r
    if x.op == "seq" and all(I.rank(y) == 1 for y in x.args):
        return ndarr(x)
    if kw:
        return None


@model("numpy.column_stack")
def _(I, a, kw, fr):
    x = unarr(I.deep(I.deref(a[0])))
    if x.op == "seq" and all(I.rank(y) == 1 for y in x.args):
        return I.transpose(ndarr(x))


def rank_of(I, y):
    u = unarr(y)
    if u.op in ("mul", "add"):
        rs = [rank_of(I, x) for x in u.args]
        return None if None in rs else max(rs)
    if u.op == "seq" and u.args:
        r = rank_of(I, u.args[0])
        return None if r is None else r + 1
    r = I.rank(y)
    if r is None:
        sh = I.shape_of(y)
        r = len(sh.args) if sh.op == "seq" else None
    return r


@model("numpy.hstack")
def _(I, a, kw, fr):
    x = unarr(I.deep(I.deref(a[0])))
    if kw or len(a) != 1 or x.op not in ("seq", "map"):
        return None
    parts = x.args if x.op == "seq" else (x.args[2],)
    ranks = {rank_of(I, y) for y in parts}
    if x.op == "seq" and ranks == {1}:
        return EXT["numpy.concatenate"](I, [x, ZERO], {}, fr)
    if ranks == {2}:
        return EXT["numpy.concatenate"](I, [x, ONE], {}, fr)
    return None


@model("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def _(I, a, kw, fr):
    """the solution is the pseudoinverse applied to the right-hand side"""
    kw.pop("rcond", None)
    if kw or not 2 <= len(a) <= 3 or len(a) == 3 and I.deref(a[2]) not in (NONE, NEG1):
        return None
    A, b = ndarr(I.deep(I.deref(a[0]))), ndarr(I.deep(I.deref(a[1])))
    c = call(mk("ext", "numpy.linalg.lstsq"), [A, b])
    m = mk("pinv", A)
    sa, sb = I.lit_shape(A), I.lit_shape(b)
    if sa is not None and len(sa) == 2 and sb is not None and len(sb) == 1:
        if sa[0] != sb[0]:
            I.raise_(TRUE, "LinAlgError")
            return opaque("sizes do not match")
        x = I.lit_array((sa[1],), [add(*[mul(mk("entry", m, num(i), num(j)), idx(unarr(b), num(j))) for j in range(sa[0])])
                                   for i in range(sa[1])])
    else:
        x = I.matmul(m, b)
    return seq(x, *[mk("proj", c, num(j)) for j in (1, 2, 3)])


@model("numpy.concatenate")
def _(I, a, kw, fr):
    ax = I.deref(a[1]) if len(a) > 1 else kw.pop("axis", ZERO)
    if kw:
        return None
    x = unarr(I.deep(I.deref(a[0])))
    if x.op == "seq" and is_num(ax, 0) and all(I.rank(y) == 1 for y in x.args):
        ps = [unarr(y) for y in x.args]
        return arr(concat(*ps))
    if x.op == "seq" and x.args and ax.op == "num":
        r = lit_concat(I, x.args, int(ax.args[0]))
        if r is not None:
            return r
    return mk("concatenate", x, ax)


@model("numpy.broadcast_to", "numpy.tile", "numpy.repeat", "numpy.meshgrid", "numpy.outer", "numpy.kron")
def _(I, a, kw, fr):
    return None


@model("scipy.special.ellipj")
def _(I, a, kw, fr):
    u, m = I.deref(a[0]), I.deref(a[1])
    return seq(*[I.lift1(lambda y: mk("ellip", nm, y, m), u) for nm in ("sn", "cn", "dn", "am")])


@model("scipy.special.roots_jacobi", "scipy.special.orthogonal.roots_jacobi")
def _(I, a, kw, fr):
    if len(a) == 3 and not kw:
        from .interp import sized
        a = [I.deep(I.deref(x)) for x in a]
        return I.entries(call(mk("ext", "scipy.special.roots_jacobi"), a), [sized(a[0])] * 2)


@model("numpy.linalg.det")
def _(I, a, kw, fr):
    x = I.deep(I.deref(a[0]))
    sh = I.lit_shape(x) if isarr(x) else None
    if sh is None or len(sh) != 2 or sh[0] != sh[1] or not 1 <= sh[0] <= 3:
        return None
    e = I.lit_leaves(x)
    n = sh[0]

    def minor(rows, cols):
        if not rows:
            return ONE
        return add(*[mul(num((-1)**i), e[rows[0]*n + c], minor(rows[1:], cols[:i] + cols[i+1:])) for i, c in enumerate(cols)])
    return minor(tuple(range(n)), tuple(range(n)))


@model("numpy.reshape")
def _(I, a, kw, fr):
    return reshape(I, I.deep(I.deref(a[0])), I.deref(a[1]), kw)


@model("numpy.ravel")
def _(I, a, kw, fr):
    return reshape(I, I.deep(I.deref(a[0])), NEG1, kw)


def reshape(I, b, shp, kw):
    order = kw.pop("order", string("C"))
    if kw:
        return None
    shp = I.deep(shp)
    if not (shp.op == "seq" or shp.op in SEQLIKE) and (I.is_scalar(shp) or is_int(shp)):
        shp = seq(shp)
    if order.op != "str":
        return None
    if shp.op == "seq" and all(x.op == "num" for x in shp.args) and order.args[0] in ("C", "F"):
        bs = I.lit_shape(b) if isarr(b) or b.op == "alloc" else None
        if bs is not None:
            dims = [int(x.args[0]) for x in shp.args]
            ls = I.lit_leaves(b)
            n = 1
            for d in dims:
                n *= d if d != -1 else 1
            if dims.count(-1) == 1 and n and len(ls) % n == 0:
                dims[dims.index(-1)] = len(ls) // n
            n = 1
            for d in dims:
                n *= d
            if -1 not in dims and n == len(ls):
                if order.args[0] == "F":
                    def fpos(ix, ds):
                        p, k = 0, 1
                        for i, d in zip(ix, ds):
                            p += i * k
                            k *= d
                        return p
                    flat = [None] * n
                    for l, ix in zip(ls, itertools.product(*[range(d) for d in bs])):
                        flat[fpos(ix, bs)] = l
                    ls = [flat[fpos(ix, dims)] for ix in itertools.product(*[range(d) for d in dims])]
                return I.lit_array(tuple(dims), ls)
            I.raise_(TRUE, "ValueError")
            return mk("raise", "ValueError")
        if b.op == "num" and all(x in (ONE, NEG1) for x in shp.args) and shp.args.count(NEG1) <= 1:
            for _ in shp.args:
                b = arr(seq(unarr(b)))
            return b
    if order.args[0] == "C" and shp.op == "seq":
        if shp.args == (NEG1,) and I.rank(b) == 1:
            return b
        if isarr(b):
            leaves = leaves_of(b.args[0])
            dims = [int(x.args[0]) if x.op == "num" else None for x in shp.args]
            if leaves is not None and None not in dims:
                n = len(leaves)
                if -1 in dims:
                    m = 1
                    for d in dims:
                        if d != -1:
                            m *= d
                    if m == 0 or n % m:
                        return None
                    dims[dims.index(-1)] = n // m
                m = 1
                for d in dims:
                    m *= d
                if m == n:
                    it = iter(leaves)

                    def build(ds):
                        if not ds:
                            return next(it)
                        return seq(*[build(ds[1:]) for _ in range(ds[0])])
                    return arr(build(dims)) if dims else next(it)
            # (n,) -> (1, n) and (n, 1)
            s = b.args[0]
            if I.rank(b) == 1 and len(shp.args) == 2:
                n = size(s)
                if is_num(shp.args[0], 1) and (shp.args[1] is NEG1 or shp.args[1] is n):
                    return arr(seq(s))
                if is_num(shp.args[1], 1) and (shp.args[0] is NEG1 or shp.args[0] is n) and s.op == "map":
                    return arr(map_(s.args[0], s.args[1], seq(s.args[2])))
    sh = I.shape_of(b)
    if sh is shp and order.args[0] == "C":
        return b
    # x.reshape(x.shape[0], *rest) patterns stay symbolic
    if order.args[0] == "C" and b.op == "reshape" and len(b.args) == 2:
        return mk("reshape", b.args[0], shp)
    return mk("reshape", b, shp) if order.args[0] == "C" else mk("reshape", b, shp, order)


def leaves_of(s):
    s = unarr(s)
    if s.op == "seq":
        out = []
        for x in s.args:
            if unarr(x).op == "seq":
                l = leaves_of(x)
                if l is None:
                    return None
                out += l
            elif unarr(x).op in ("map", "concat", "filter", "flat", "sym", "attr", "idx", "call") and not is_int(x) and not (
                    x.op == "sym" and x.args[1] == "real") and not (x.op == "idx"):
                return None
            else:
                out.append(x)
        return out
    return None

# }}}


# {{{ numpy algebra

@model("numpy.sum")
def _(I, a, kw, fr):
    ax = I.deref(a[1]) if len(a) > 1 else kw.pop("axis", NONE)
    kw.pop("dtype", None)
    if kw:
        return None
    return npsum(I, I.deep(I.deref(a[0])), ax)


def npsum(I, x, ax):
    x = ndarr(x)
    if x.op == "ite":
        return ite(x.args[0], npsum(I, x.args[1], ax), npsum(I, x.args[2], ax))
    r = I.rank(x)
    if ax is NONE or r == 1 and is_num(ax) and ax.args[0] in (0, -1):
        if r == 1 or r is None and isarr(x) and all(I.is_scalar(y) for y in (x.args[0].args if x.args[0].op == "seq" else ())):
            return sum_(unarr(x))
        if isarr(x) and r is not None and r >= 2:
            return sum_(mapfn(I, lambda y: npsum(I, y, NONE), x.args[0]))
        return npsum_sym(x)
    if is_num(ax, 0) and isarr(x):
        return total(I, x)
    if is_num(ax) and isarr(x) and r is not None and r >= 2 and (ax.args[0] == r - 1 or ax.args[0] == -1):
        return arr(mapfn(I, lambda y: npsum(I, I.mkarr(y), num(-1)), x.args[0]))
    return mk("sumax", ax, x)


def npsum_sym(x):
    """sum of all entries of a symbolic array: linear, scalar factors move out"""
    if x.op == "mul" and x.args[0].op == "num":
        return mul(x.args[0], npsum_sym(mul(*x.args[1:])))
    if x.op == "mul":
        outs = [a for a in x.args if a.op == "sym" and a.args[1] in ("real", "int", "nat", "pos")]
        if outs:
            ins = [a for a in x.args if a not in outs]
            return mul(*outs, npsum_sym(mul(*ins)))
    return sum_(x) if x.op in SEQLIKE else mk("sum", x)


@model("numpy.dot", "numpy.inner", "numpy.vdot")
def _(I, a, kw, fr):
    x, y = ndarr(I.deep(I.deref(a[0]))), ndarr(I.deep(I.deref(a[1])))
    try:
        r = lit.dot_(I, x, y)
    except lit.Bad as e:
        I.raise_(TRUE, e.args[0])
        return opaque("shapes do not match")
    return r if r is not None else I.matmul(x, y)


@model("numpy.transpose")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw:
        return I.transpose(ndarr(I.deep(I.deref(a[0]))))


@model("numpy.moveaxis", "numpy.swapaxes")
def _(I, a, kw, fr):
    return None


@model("numpy.where")
def _(I, a, kw, fr):
    if len(a) != 3:
        return None
    c, x, y = [I.deep(I.deref(z)) for z in a]
    return where_(I, c, x, y)


def where_(I, c, x, y):
    if c in (TRUE, FALSE):
        return x if c is TRUE else y
    if isarr(c):
        s = c.args[0]
        if s.op == "seq":
            return arr(seq(*[where_(I, ci, el(I, x, num(i)), el(I, y, num(i))) for i, ci in enumerate(s.args)]))
        if s.op == "map":
            n, v, b = s.args
            k = fresh("w", "nat")
            return arr(map_(n, k, where_(I, subst(b, {v: k}), el(I, x, k), el(I, y, k))))
    return ite(truthy(c), x, y)


def el(I, x, i):
    return I.index(x, i) if not I.is_scalar(x) else x


@model("numpy.einsum")
def _(I, a, kw, fr):
    s = I.deref(a[0])
    if s.op != "str" or kw:
        return None
    spec = s.args[0].replace(" ", "")
    ops = [ndarr(I.deep(I.deref(x))) for x in a[1:]]
    return einsum(I, spec, ops)


def einsum(I, spec, ops):
    if "->" not in spec:
        ins = spec.split(",")
        from collections import Counter
        c = Counter("".join(ins))
        out = "".join(sorted(k for k, v in c.items() if v == 1))
    else:
        i, out = spec.split("->")
        ins = i.split(",")
    if "." not in spec:
        # matrix products
        if len(ins) == 2 and all(len(i) == 2 for i in ins) and len(out) == 2 and len(set(ins[0])) == 2 == len(set(ins[1])):
            (p, q), (r, s) = ins
            A, B = ops
            for X, xi in ((A, ins[0]), (I.transpose(A), ins[0][::-1])):
                for Y, yi in ((B, ins[1]), (I.transpose(B), ins[1][::-1])):
                    if xi[1] == yi[0] and xi[0] != yi[1]:
                        if out == xi[0] + yi[1]:
                            return I.matmul(X, Y)
                        if out == yi[1] + xi[0]:
                            return I.transpose(I.matmul(X, Y))
        if len(ins) == 2 and len(ins[0]) == 2 and len(ins[1]) == 1 and len(out) == 1:
            if ins[0][1] == ins[1] and out == ins[0][0]:
                return I.matmul(ops[0], ops[1])
            if ins[0][0] == ins[1] and out == ins[0][1]:
                return I.matmul(I.transpose(ops[0]), ops[1])
        if len(ins) == 2 and len(ins[0]) == len(ins[1]) == 1 and ins[0] == ins[1] and out == "":
            return I.matmul(ops[0], ops[1])
        # weighted products: one contracted index, one-index factors carry weights along it
        inner = set("".join(ins)) - set(out)
        if len(inner) == 1 and len(set(out)) == len(out):
            q = next(iter(inner))
            two = [(i, o) for i, o in zip(ins, ops) if len(i) == 2]
            one = [o for i, o in zip(ins, ops) if i == q]
            if len(two) + len(one) == len(ins) and len(two) == len(out) and all(q in i and len(set(i)) == 2 for i, _ in two):
                mats = {}
                for i, o in two:
                    mats[i.replace(q, "")] = (o if i[1] == q else I.transpose(o))     # (free, q)
                if set(mats) == set(out) and 1 <= len(out) <= 2:
                    ms = [mats[c] for c in out]
                    w = None
                    for o in one:
                        w = o if w is None else I.lift2(mul, w, o)
                    if len(ms) == 2:
                        return I.matmul(ms[0] if w is None else I.lift2(mul, ms[0], w), I.transpose(ms[1]))
                    if w is not None:
                        return I.matmul(ms[0], w)
    # canonical index names: by first appearance
    m = {}
    for ch in "".join(ins) + out:
        if ch.isalpha() and ch not in m:
            m[ch] = chr(ord("a") + len(m))
    cs = ",".join("".join(m.get(c, c) for c in i) for i in ins) + "->" + "".join(m.get(c, c) for c in out)
    return mk("einsum", string(cs), *ops)


@model("numpy.linalg.solve")
def _(I, a, kw, fr):
    A, B = ndarr(I.deep(I.deref(a[0]))), ndarr(I.deep(I.deref(a[1])))
    return I.matmul(inv_(I, A), B)


@model("numpy.linalg.inv")
def _(I, a, kw, fr):
    return inv_(I, ndarr(I.deep(I.deref(a[0]))))


def inv_(I, A):
    r = tri_inverse(I, A)
    return r if r is not None else T.inv(A)


@model("numpy.linalg.pinv")
def _(I, a, kw, fr):
    if len(a) == 1 and not kw:
        x = ndarr(I.deep(I.deref(a[0])))
        r = two_columns(I, x)
        return r if r is not None else mk("pinv", x)


def two_columns(I, x):
    """(A^T A)^-1 A^T of a matrix of two (independent) columns written out"""
    sh = I.lit_shape(x)
    if sh is None or len(sh) != 2 or sh[1] != 2 or not 2 <= sh[0] <= 20:
        return None
    e = list(I.lit_leaves(x))
    c, d = e[0::2], e[1::2]
    cc, cd, dd = (add(*[mul(u, v) for u, v in zip(p, q)]) for p, q in ((c, c), (c, d), (d, d)))
    det = add(mul(cc, dd), neg(mul(cd, cd)))
    if det is ZERO:
        return None
    f = power(det, num(-1))
    rows = [[mul(f, add(mul(dd, u), neg(mul(cd, v)))) for u, v in zip(c, d)], [mul(f, add(mul(cc, v), neg(mul(cd, u)))) for u, v in zip(c, d)]]
    return arr(seq(*[seq(*r) for r in rows]))


@model("numpy.linalg.norm")
def _(I, a, kw, fr):
    x = ndarr(I.deep(I.deref(a[0])))
    o = I.deref(a[1]) if len(a) > 1 else kw.pop("ord", NONE)
    ax = I.deref(a[2]) if len(a) > 2 else kw.pop("axis", NONE)
    if kw:
        return None
    if is_num(o, 2) and (I.rank(x) == 1 or ax is not NONE and is_num(ax)):
        o = NONE
    if o is NONE and ax is NONE:
        sh = I.lit_shape(x)
        if sh is not None and len(sh) <= 2 and all(e is ZERO for e in I.lit_leaves(x)):
            return ZERO
        if sh is not None and len(sh) == 1 and sh[0] <= 24:
            return sqrt(add(*[mul(e, e) for e in I.lit_leaves(x)]))
    return mk("norm", x, o, ax)


@model("numpy.max")
def _(I, a, kw, fr):
    return _npm(I, a, kw, "max")


@model("numpy.min")
def _(I, a, kw, fr):
    return _npm(I, a, kw, "min")


def _npm(I, a, kw, op):
    x = ndarr(I.deep(I.deref(a[0])))
    ax = I.deref(a[1]) if len(a) > 1 else kw.pop("axis", NONE)
    if kw:
        return None
    s = unarr(x)
    if ax is NONE:
        if s.op == "seq" and s.args and I.rank(x) == 1:
            return maxmin(op, *s.args)
        return mk(op + "of", x)
    return mk(op + "ax", x, ax)


@model("numpy.mean")
def _(I, a, kw, fr):
    x = ndarr(I.deep(I.deref(a[0])))
    ax = I.deref(a[1]) if len(a) > 1 else kw.pop("axis", NONE)
    if kw:
        return None
    sh = I.lit_shape(x) if isarr(x) or x.op == "alloc" else None
    if sh and is_num(ax) and -len(sh) <= int(ax.args[0]) < len(sh) and sh[int(ax.args[0])]:
        r = I.lit_reduce(add, x, int(ax.args[0]), ZERO)
        return r if r.op == "alloc" else I.lift2(div, r, num(sh[int(ax.args[0])]))
    if isarr(x) and is_num(ax, 0):
        return I.lift2(div, total(I, x), size(x.args[0]))
    if isarr(x) and I.rank(x) == 1 and ax is NONE:
        return div(sum_(x.args[0]), size(x.args[0]))
    if sh and ax is NONE and all(sh):
        r, k = x, 1
        for d in sh:
            r, k = I.lit_reduce(add, r, 0, ZERO), k * d
        return div(r, num(k))
    if sh and is_num(ax):
        I.raise_(TRUE, "ValueError")
        return opaque("no such axis")
    return mk("mean", x, ax)


@model("numpy.shape")
def _(I, a, kw, fr):
    return I.shape_of(ndarr(I.deep(I.deref(a[0]))))


@model("numpy.ndim")
def _(I, a, kw, fr):
    return I.value_attr(ndarr(I.deep(I.deref(a[0]))), "ndim")


@model("numpy.size")
def _(I, a, kw, fr):
    return I.value_attr(ndarr(I.deep(I.deref(a[0]))), "size")


def ground_value(x, memo):
    """floating point value of a closed expression, or None"""
    if x.id in memo:
        return memo[x.id]
    import cmath
    v = None
    if x.op == "num":
        v = complex(x.args[0])
    elif x.op == "pi":
        v = complex(cmath.pi)
    elif x.op == "imagunit":
        v = 1j
    elif x.op in ("add", "mul", "pow", "abs") or x.op == "fn" and x.args[0] in ("sin", "cos", "exp", "tan", "conjugate", "real", "imag"):
        vs = [ground_value(y, memo) for y in x.args if isinstance(y, Term)]
        if None not in vs:
            try:
                if x.op == "add":
                    v = sum(vs)
                elif x.op == "mul":
                    v = 1
                    for y in vs:
                        v *= y
                elif x.op == "pow":
                    v = vs[0] ** vs[1]
                elif x.op == "abs":
                    v = complex(abs(vs[0]))
                elif x.args[0] == "conjugate":
                    v = vs[0].conjugate()
                elif x.args[0] in ("real", "imag"):
                    v = complex(getattr(vs[0], x.args[0]))
                else:
                    v = getattr(cmath, x.args[0])(vs[0])
            except (ArithmeticError, ValueError):
                v = None
    memo[x.id] = v
    return v


@model("numpy.allclose")
def _(I, a, kw, fr):
    """decided for written-out numbers, far from the tolerance only"""
    if set(kw) - {"atol", "rtol", "equal_nan"} or len(a) != 2:
        return None
    x, y = lit.get(I, I.deref(a[0]), lists=True), lit.get(I, I.deref(a[1]), lists=True)
    if x is None or y is None or kw:
        return None
    memo, ok = {}, True
    try:
        pairs = lit.zip2(lambda *p: p, x, y).leaves
    except lit.Bad:
        return None
    for u, v in pairs:
        u, v = ground_value(u, memo), ground_value(v, memo)
        if u is None or v is None:
            return None
        d = abs(u - v)
        if d > 1e-4 * (1 + abs(v)):
            ok = False
        elif d > 1e-10:
            return None
    return boolc(ok)


@model("math.isclose", "numpy.isclose")
def _(I, a, kw, fr):
    return None


def fourier(I, a, kw, sign):
    x = lit.get(I, I.deref(a[0]), lists=True) if len(a) == 1 and not kw else None
    if x is None or len(x.shape) != 1 or len(x.leaves) > 64:
        return None
    if not x.leaves:
        I.raise_(TRUE, "ValueError")
        return opaque("transform of nothing")
    n = len(x.leaves)
    i, pi = mk("imagunit"), mk("pi")
    parts = [complex_parts(v) for v in x.leaves]
    if None in parts:
        return None

    def unit(j):
        w = mul(num(Fraction(2 * (j % n), n)), pi)
        return fn("cos", w), mul(num(sign), fn("sin", w))
    out = []
    for j in range(n):
        re, im = [], []
        for k, (p, q) in enumerate(parts):
            c, s = unit(j * k)
            re += [mul(c, p), neg(mul(s, q))]
            im += [mul(c, q), mul(s, p)]
        f = ONE if sign < 0 else num(Fraction(1, n))
        out.append(add(mul(f, add(*re)), mul(f, i, add(*im))))
    return lit.put(I, lit.Lit((n,), out))


@model("numpy.fft.ifft")
def _(I, a, kw, fr):
    return fourier(I, a, kw, 1)


@model("numpy.fft.fft")
def _(I, a, kw, fr):
    return fourier(I, a, kw, -1)


@model("numpy.finfo")
def _(I, a, kw, fr):
    return mk("finfo")


@model("pymbolic.primitives.CommonSubexpression")
def _(I, a, kw, fr):
    return I.deref(a[0])                # names a value, is the value


@model("pymbolic.primitives.make_common_subexpression")
def _(I, a, kw, fr):
    return I.deref(a[0])


@model("pymbolic.primitives.make_sym_vector")
def _(I, a, kw, fr):
    n = I.deref(a[1])
    if n.op != "num":
        return None
    nm = I.deref(a[0])
    nm = nm.args[0] if nm.op == "str" else "v"
    return arr(seq(*[mk("sym", f"{nm}[{i}]", "expr") for i in range(int(n.args[0]))]))


@model("pymbolic.primitives.Comparison")
def _(I, a, kw, fr):
    x, op, y = (I.deep(I.deref(z)) for z in a)
    if op.op != "str":
        return None
    f = {"==": eq, "!=": lambda x, y: not_(eq(x, y)), "<": lt, "<=": le, ">": lambda x, y: lt(y, x), ">=": lambda x, y: le(y, x)}
    f.update({"eq": f["=="], "ne": f["!="], "lt": f["<"], "le": f["<="], "gt": f[">"], "ge": f[">="]})
    if op.args[0] not in f:
        I.raise_(TRUE, "RuntimeError")
        return opaque("comparison " + op.args[0])
    return f[op.args[0]](x, y)


@model("pymbolic.primitives.If")
def _(I, a, kw, fr):
    a = [I.deep(I.deref(x)) for x in a] + [I.deep(I.deref(kw[k])) for k in ("condition", "then", "else_")[len(a):]]
    return ite(truthy(a[0]), a[1], a[2])


@model("speclib.EVAL")
def _(I, a, kw, fr):
    """value of a symbolic expression (or a tuple of them) at the given coordinates"""
    t, x = I.deep(I.deref(a[0])), I.deep(I.deref(a[1]))
    nm = I.deref(a[2]).args[0] if len(a) > 2 else "r"
    x = unarr(x)
    return subst(t, {mk("sym", f"{nm}[{i}]", "expr"): v for i, v in enumerate(x.args)})


@model("numpy.result_type", "numpy.dtype", "numpy.promote_types")
def _(I, a, kw, fr):
    return None


@model("numpy.array_equal")
def _(I, a, kw, fr):
    return None


@model("numpy.random.default_rng")
def _(I, a, kw, fr):
    return None


@model("numpy.delete", "numpy.copyto", "numpy.put", "numpy.fill_diagonal", "numpy.place", "heapq.heapreplace", "heapq.merge",
       "heapq.nlargest", "heapq.nsmallest")
def _(I, a, kw, fr):
    raise Opaque("mutating library call")


# heaps: the smallest item first, the others in any order

def less(I, x, y):
    if x.op == "ite":
        return ite(x.args[0], less(I, x.args[1], y), less(I, x.args[2], y))
    if y.op == "ite":
        return ite(y.args[0], less(I, x, y.args[1]), less(I, x, y.args[2]))
    return truthy(I.compare(ast.Lt(), x, y))


def heap_front(I, items):
    """the items with the smallest one first"""
    if not items:
        return items
    best, rest = items[0], []
    for x in items[1:]:
        c = less(I, x, best)
        rest.append(ite(c, best, x))
        best = ite(c, x, best)
    return [best] + rest


def heap_do(I, ref, f):
    """apply f (items -> (result, items)) to every alternative of a literal list"""
    ref0 = ref
    if ref.op != "ref":
        raise Opaque("heap")

    def go(b):
        if b.op == "ite":
            I.guard.append(b.args[0])
            x = go(b.args[1])
            I.guard[-1] = not_(b.args[0])
            y = go(b.args[2])
            I.guard.pop()
            return ite(b.args[0], x[0], y[0]), ite(b.args[0], x[1], y[1])
        if b.op != "seq":
            raise Opaque("heap of unknown size")
        r, items = f([I.deep(x) for x in b.args])
        return r, seq(*items)
    r, new = go(I.deref(ref0))
    I.setvalue(ref0, None, new, None)
    return r


@model("heapq.heappush")
def _(I, a, kw, fr):
    x = I.deep(I.deref(a[1]))
    return heap_do(I, a[0], lambda items: (NONE, heap_front(I, items + [x])))


@model("heapq.heapify")
def _(I, a, kw, fr):
    return heap_do(I, a[0], lambda items: (NONE, heap_front(I, items)))


@model("heapq.heappop")
def _(I, a, kw, fr):
    def f(items):
        if not items:
            I.raise_(TRUE, "IndexError")
            return opaque("empty heap"), items
        return items[0], heap_front(I, items[1:])
    return heap_do(I, a[0], f)


@model("heapq.heappushpop")
def _(I, a, kw, fr):
    x = I.deep(I.deref(a[1]))

    def f(items):
        items = heap_front(I, items + [x])
        return items[0], heap_front(I, items[1:])
    return heap_do(I, a[0], f)

# }}}


# {{{ methods of containers

METHODS = {}


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def listlike(I, b):
    return b.op in ("seq", "map", "concat", "filter", "flat", "rep") or b.op == "ite" and listlike(I, b.args[1]) and listlike(I, b.args[2]) or (
        b.op == "sym" and b.args[1] == "seq")


@method("append")
def _(I, base, b, a, kw, node, fr):
    if not listlike(I, b):
        return None
    I.setvalue(base, node, appendto(b, seq(a[0])), fr)
    return NONE


def appendto(b, s):
    if b.op == "ite":
        return ite(b.args[0], appendto(b.args[1], s), appendto(b.args[2], s))
    return concat(b, s)


@method("extend")
def _(I, base, b, a, kw, node, fr):
    if not listlike(I, b):
        return None
    x = I.deref(a[0])
    if x.op == "dict":
        x = seq(*x.args[::2])
    I.setvalue(base, node, appendto(b, unarr(x)), fr)
    return NONE


@method("insert")
def _(I, base, b, a, kw, node, fr):
    i = I.deref(a[0])
    if listlike(I, b) and is_num(i, 0):
        I.setvalue(base, node, concat(seq(a[1]), b), fr)
        return NONE
    if b.op == "seq" and i.op == "num":
        l = list(b.args)
        l.insert(int(i.args[0]), a[1])
        I.setvalue(base, node, seq(*l), fr)
        return NONE


@method("pop")
def _(I, base, b, a, kw, node, fr):
    if b.op == "seq" and b.args and (not a or a[0].op == "num"):
        l = list(b.args)
        v = l.pop(int(a[0].args[0]) if a else -1)
        I.setvalue(base, node, seq(*l), fr)
        return v
    raise Opaque("pop")


@method("remove", "clear", "update", "setdefault", "popitem", "discard", "put", "itemset", "resize")
def _(I, base, b, a, kw, node, fr):
    raise Opaque("mutating method")


@method("sort", "partition")
def _(I, base, b, a, kw, node, fr):
    if base.op == "ref" or listlike(I, b) or isarr(b):
        new = sort_literal(I, b, kw)
        if new is None:
            new = ext(I, "builtins.sorted", [b], kw)
        I.setvalue(base, node, new, fr)
        return NONE
    raise Opaque("sort")


@method("setflags")
def _(I, base, b, a, kw, node, fr):
    return NONE


@method("reverse")
def _(I, base, b, a, kw, node, fr):
    if not listlike(I, b):
        return None
    I.setvalue(base, node, reverse(I, b), fr)
    return NONE


@method("index")
def _(I, base, b, a, kw, node, fr):
    if listlike(I, b):
        if b.op == "seq" and len(a) == 1:
            x = I.deep(a[0])
            for i, y in enumerate(b.args):
                if I.deep(y) is x:
                    return num(i)
        return mk("call", mk("attr", I.deep(b), "index"), mk("args", *[I.deep(x) for x in a]))


@method("count")
def _(I, base, b, a, kw, node, fr):
    if b.op == "seq":
        return add(*[ite(eq(y, I.deep(a[0])), ONE, ZERO) for y in b.args], ZERO)


@method("get")
def _(I, base, b, a, kw, node, fr):
    d = a[1] if len(a) > 1 else kw.get("default", NONE)
    k = I.deep(a[0])
    if b.op == "dict":
        return I.dict_get(b, k, default=d)
    if b.op in ("dictmap", "dset", "global") or I.kind(b) == "dict":
        x = mk("dget", I.deep(b), k)
        h = mk("haskey", I.deep(b), k)
        return ite(h, x, I.deref(d))


@method("items")
def _(I, base, b, a, kw, node, fr):
    if b.op == "dict":
        return seq(*[seq(k, v) for k, v in zip(b.args[::2], b.args[1::2])])
    if b.op == "dictmap":
        return b.args[0]


@method("keys")
def _(I, base, b, a, kw, node, fr):
    if b.op == "dict":
        return seq(*b.args[::2])
    if b.op == "dictmap":
        return mapfn(I, lambda x: idx(x, ZERO), b.args[0])


@method("values")
def _(I, base, b, a, kw, node, fr):
    if b.op == "dict":
        return seq(*b.args[1::2])
    if b.op == "dictmap":
        return mapfn(I, lambda x: idx(x, ONE), b.args[0])


@method("copy", "__copy__", "view")
def _(I, base, b, a, kw, node, fr):
    if b.op in SEQLIKE or b.op in ("dict", "dictmap", "dset"):
        return I.newref(b)
    return b


@method("tolist")
def _(I, base, b, a, kw, node, fr):
    if isarr(b):
        return I.newref(unarr(b))


@method("astype")
def _(I, base, b, a, kw, node, fr):
    d = a[0] if a else kw.get("dtype")
    nd = narrow_dtype({"dtype": d})
    return b if nd is None else mk("astype", I.deep(b), nd)


@method("reshape")
def _(I, base, b, a, kw, node, fr):
    b = I.deep(b)
    if any(x.op == "star" for x in a):
        parts = [unarr(x.args[0]) if x.op == "star" else seq(x) for x in a]
        shp = concat(*[I.deep(p) for p in parts])
        return reshape(I, b, shp, kw)
    if len(a) == 1:
        return reshape(I, b, a[0], kw)
    return reshape(I, b, seq(*a), kw)


@method("ravel", "flatten")
def _(I, base, b, a, kw, node, fr):
    if a:
        kw["order"] = a[0]
    return reshape(I, I.deep(b), NEG1, kw)


@method("squeeze")
def _(I, base, b, a, kw, node, fr):
    if not a and not kw and isarr(b) and b.args[0].op == "seq" and len(b.args[0].args) == 1:
        return I.mkarr(b.args[0].args[0])
    return mk("squeeze", I.deep(b), *a, *kw.values())


@method("sum")
def _(I, base, b, a, kw, node, fr):
    if I.kind(b) == "dict":
        return None
    ax = a[0] if a else kw.pop("axis", NONE)
    if kw:
        return None
    return npsum(I, I.deep(b), ax)


@method("prod")
def _(I, base, b, a, kw, node, fr):
    return EXT["numpy.prod"](I, [b] + a, kw, fr)


@method("mean")
def _(I, base, b, a, kw, node, fr):
    return EXT["numpy.mean"](I, [b] + a, kw, fr)


@method("max")
def _(I, base, b, a, kw, node, fr):
    return _npm(I, [b] + a, kw, "max")


@method("min")
def _(I, base, b, a, kw, node, fr):
    return _npm(I, [b] + a, kw, "min")


@method("dot")
def _(I, base, b, a, kw, node, fr):
    return I.matmul(ndarr(I.deep(b)), ndarr(I.deep(a[0])))


@method("transpose")
def _(I, base, b, a, kw, node, fr):
    if not a and not kw:
        return I.transpose(I.deep(b))
    p = a[0] if len(a) == 1 else seq(*a)
    if p.op == "seq" and p.args == (ONE, ZERO):
        return I.transpose(I.deep(b))
    return mk("transposeax", I.deep(b), I.deep(p))


@method("conj", "conjugate")
def _(I, base, b, a, kw, node, fr):
    return I.lift1(lambda x: fn("conjugate", x), I.deep(b))


@method("item")
def _(I, base, b, a, kw, node, fr):
    if not a:
        l = leaves_of(b) if isarr(b) else None
        if l is not None and len(l) == 1:
            return l[0]
        return b


@method("fill")
def _(I, base, b, a, kw, node, fr):
    v = I.deep(a[0])
    if b.op == "alloc":
        I.setvalue(base, node, mk("alloc", b.args[0], v), fr)
        return NONE
    if isarr(b):
        I.setvalue(base, node, I.lift1(lambda x: v, b), fr)
        return NONE
    raise Opaque("fill")


@method("format", "join", "strip", "split", "lower", "upper", "startswith", "endswith", "replace")
def _(I, base, b, a, kw, node, fr):
    if b.op in ("str", "fstr"):
        if node is not None and b.op == "str" and all(x.op == "str" for x in a) and not kw:
            pass
        return mk("fstr")

# }}}


# {{{ vocabulary of the reference programs

from .interp import RETKIND
RETKIND.update({"speclib.VEC": "vec", "speclib.SCALAR": "real", "speclib.MAT": "mat", "speclib.NAT": "nat"})


@model("speclib.VEC")
def _(I, a, kw, fr):
    """VEC(label..., nodes): an arbitrary function's values at the nodes, one per node"""
    r = mk("call", mk("ext", "speclib.VEC"), mk("args", *[I.deep(x) for x in a]))
    s = I.shape_of(I.deep(a[-1]))
    n = s.args[-1] if s.op == "seq" else idx(s, NEG1)
    I.symshape[r] = seq(n)
    return r


@model("speclib.MAT")
def _(I, a, kw, fr):
    """MAT(rows, label..., nodes): an arbitrary map of points to points with that many coordinates"""
    r = mk("call", mk("ext", "speclib.MAT"), mk("args", *[I.deep(x) for x in a]))
    s = I.shape_of(I.deep(a[-1]))
    n = s.args[-1] if s.op == "seq" else idx(s, NEG1)
    I.symshape[r] = seq(I.deep(a[0]), n)
    return r


@model("speclib.D")
def _(I, a, kw, fr):
    """exact partial derivative of the first argument with respect to the symbol given second"""
    from . import deriv
    t, x = I.deep(a[0]), I.deep(a[1])
    if x.op != "sym":
        raise Opaque("derivative with respect to an expression")
    try:
        return deriv.d(t, x)
    except deriv.NotDifferentiable as e:
        raise Opaque(f"derivative of {e}")

# }}}


# {{{ multivectors of pymbolic (Euclidean space), written out by blade bitmap

def mv(dim, cs):
    return mk("mv", num(dim), seq(*cs))


def mv_coeffs(t):
    return int(t.args[0].args[0]), list(t.args[1].args)


def mv_lift(dim, x):
    return mv(dim, [x] + [ZERO] * (2 ** dim - 1))


def mv_sign(a, b):
    a >>= 1
    s = 0
    while a:
        s += bin(a & b).count("1")
        a >>= 1
    return -1 if s & 1 else 1


def mv_binop(I, op, a, b):
    """None if not a product of multivectors"""
    if a.op != "mv" and not I.is_scalar(a) or b.op != "mv" and not I.is_scalar(b):
        return None
    dim = mv_coeffs(a if a.op == "mv" else b)[0]
    if isinstance(op, ast.Div):
        if b.op == "mv":
            return None
        return mv(dim, [div(x, b) for x in mv_coeffs(a)[1]])
    x = a if a.op == "mv" else mv_lift(dim, a)
    y = b if b.op == "mv" else mv_lift(dim, b)
    if x.args[0] is not y.args[0]:
        I.raise_(TRUE, "ValueError")
        return opaque("different spaces")
    x, y = mv_coeffs(x)[1], mv_coeffs(y)[1]
    if isinstance(op, (ast.Add, ast.Sub)):
        return mv(dim, [(add if isinstance(op, ast.Add) else sub)(u, v) for u, v in zip(x, y)])
    ok = {ast.BitXor: lambda s, t: not s & t, ast.BitOr: lambda s, t: (s & t) in (s, t), ast.Mult: lambda s, t: True,
          ast.LShift: lambda s, t: (s & t) == s, ast.RShift: lambda s, t: (s & t) == t}.get(type(op))
    if ok is None:
        return None
    out = [[] for _ in range(2 ** dim)]
    for s in range(2 ** dim):
        for t in range(2 ** dim):
            if ok(s, t) and x[s] is not ZERO and y[t] is not ZERO:
                out[s ^ t].append(mul(num(mv_sign(s, t)), x[s], y[t]))
    return mv(dim, [add(*o) if o else ZERO for o in out])


def mv_rev(t):
    d, c = mv_coeffs(t)
    return mv(d, [neg(x) if (g := bin(i).count("1")) * (g - 1) // 2 % 2 else x for i, x in enumerate(c)])


@model("pymbolic.geometric_algebra.MultiVector")
def _(I, a, kw, fr):
    x = I.deref(a[0]) if len(a) == 1 and not kw else None
    l = lit.get(I, x) if x is not None and isarr(x) else None
    if l is None or len(l.shape) != 1 or not 1 <= l.shape[0] <= 4:
        return None
    c = [ZERO] * 2 ** l.shape[0]
    for i, v in enumerate(l.leaves):
        c[2 ** i] = v
    return mv(l.shape[0], c)


def mv_only(f):
    def g(I, base, b, a, kw, node, fr):
        if b.op != "mv" or a or kw:
            return None
        return f(I, b)
    return g


method("rev")(mv_only(lambda I, b: mv_rev(b)))
method("dual")(mv_only(lambda I, b: mv_binop(I, ast.BitOr(), b, mv_rev(mv(mv_coeffs(b)[0], [ZERO] * (2 ** mv_coeffs(b)[0] - 1) + [ONE])))))
method("norm_squared")(mv_only(lambda I, b: add(*[mul(x, x) for x in mv_coeffs(b)[1]])))


@method("as_vector")
def _(I, base, b, a, kw, node, fr):
    if b.op != "mv" or a or kw:
        return None
    d, c = mv_coeffs(b)
    other = [x for i, x in enumerate(c) if bin(i).count("1") != 1 and x is not ZERO]
    if other:
        if not all(x.op == "num" for x in other):
            return None
        I.raise_(TRUE, "ValueError")
        return opaque("not a vector")
    return arr(seq(*[c[2 ** i] for i in range(d)]))

# }}}
