"""numpy's indexing, broadcasting and concatenation on arrays of scalars that are written out in full."""
from __future__ import annotations
import itertools
from . import terms as T
from .terms import *


class Bad(Exception):
    """numpy raises (argument: exception name)"""


class No(Exception):
    """not decidable here"""


class Lit:
    __slots__ = ("shape", "leaves")

    def __init__(self, shape, leaves):
        self.shape, self.leaves = tuple(shape), list(leaves)


def get(I, t, lists=False):
    """literal array (or scalar) or None"""
    if t.op in ("seq", "map", "concat") and not lists:
        return None
    if t.op == "seq" and not t.args:
        return Lit((0,), [])
    s = I.lit_shape(t)
    if s is None:
        return None
    n = 1
    for d in s:
        n *= d
    if n > 20000:
        return None
    return Lit(s, I.lit_leaves(t))


def put(I, l):
    return I.lit_array(l.shape, l.leaves)


def indices(shape):
    return itertools.product(*[range(d) for d in shape])


def strides(shape):
    out, k = [], 1
    for d in reversed(shape):
        out.insert(0, k)
        k *= d
    return out


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(1, n + 1):
        ds = {s[-k] for s in shapes if len(s) >= k}
        ds.discard(1)
        if len(ds) > 1:
            raise Bad("ValueError")
        out.insert(0, ds.pop() if ds else 1)
    return tuple(out)


def bcast(l, shape):
    if len(l.shape) > len(shape):
        raise Bad("ValueError")
    s = (1,) * (len(shape) - len(l.shape)) + l.shape
    if any(d not in (1, e) for d, e in zip(s, shape)):
        raise Bad("ValueError")
    st = [0 if d == 1 else k for d, k in zip(s, strides(s))]
    return Lit(shape, [l.leaves[sum(i * k for i, k in zip(ix, st))] for ix in indices(shape)])


def zip2(f, a, b):
    sh = bshape(a.shape, b.shape)
    return Lit(sh, [f(x, y) for x, y in zip(bcast(a, sh).leaves, bcast(b, sh).leaves)])


def component(I, c):
    """one component of an index expression"""
    if c is NONE:
        return "new"
    if c.op == "ellipsis":
        return Ellipsis
    if c.op == "slice":
        v = [None if a is NONE else int(a.args[0]) if a.op == "num" and a.args[0].denominator == 1 else No for a in c.args]
        if No in v:
            raise No
        return slice(*v)
    if c.op == "num" and c.args[0].denominator == 1:
        return int(c.args[0])
    l = get(I, c, lists=True)
    if l is not None and l.shape:
        if all(x in (TRUE, FALSE) for x in l.leaves) and l.leaves:
            return Lit(l.shape, [x is TRUE for x in l.leaves])
        if all(x.op == "num" and x.args[0].denominator == 1 for x in l.leaves):
            return Lit(l.shape, [int(x.args[0]) for x in l.leaves])
    raise No


def positions(I, shape, i):
    """-> (shape of the selection, flat positions) of index i on an array of this shape"""
    comps = list(i.args) if i.op == "seq" else [i]
    comps = [component(I, c) for c in comps]
    # boolean masks become integer lists, one per masked axis
    out = []
    for c in comps:
        if isinstance(c, Lit) and c.leaves and isinstance(c.leaves[0], bool):
            where = [ix for ix, v in zip(indices(c.shape), c.leaves) if v]
            for k in range(len(c.shape)):
                out.append(("mask", c.shape[k], Lit((len(where),), [w[k] for w in where])))
        else:
            out.append(c)
    comps = out
    used = sum(1 for c in comps if c != "new" and c is not Ellipsis)
    if used > len(shape):
        raise Bad("IndexError")
    if Ellipsis not in [c for c in comps if not isinstance(c, (Lit, tuple))]:
        comps.append(Ellipsis)
    k = [j for j, c in enumerate(comps) if c is Ellipsis]
    if len(k) > 1:
        raise Bad("IndexError")
    comps[k[0]:k[0] + 1] = [slice(None)] * (len(shape) - used)
    # per axis selections
    axes, dims, adv, advpos = [], [], [], None
    ax = 0
    for c in comps:
        if c == "new":
            dims.append(("new", 1))
            continue
        n = shape[ax]
        if isinstance(c, slice):
            dims.append((ax, list(range(n))[c]))
        else:
            if isinstance(c, tuple):
                if c[1] != n:
                    raise Bad("IndexError")
                c = c[2]
            if isinstance(c, int):
                if not -n <= c < n:
                    raise Bad("IndexError")
                dims.append((ax, c % n))
            else:
                if any(not -n <= v < n for v in c.leaves):
                    raise Bad("IndexError")
                dims.append((ax, Lit(c.shape, [v % n for v in c.leaves])))
        ax += 1
    lits = [j for j, (a, d) in enumerate(dims) if isinstance(d, Lit)]
    st = strides(shape)
    if lits:
        # integers count as advanced indices next to lists
        advs = [j for j, (a, d) in enumerate(dims) if isinstance(d, Lit) or a != "new" and isinstance(d, int)]
        if advs != list(range(advs[0], advs[-1] + 1)):
            raise No
        ash = bshape(*[dims[j][1].shape for j in lits])
        pos0 = advs[0]
        rest = [(j, d) for j, d in enumerate(dims) if j not in advs]
        before = [d for j, d in rest if j < pos0]
        after = [d for j, d in rest if j > pos0]
        lists = {j: bcast(dims[j][1], ash).leaves if isinstance(dims[j][1], Lit) else None for j in advs}
        out_shape = [1 if a == "new" else len(d) for a, d in before] + list(ash) + [1 if a == "new" else len(d) for a, d in after]
        flat = []
        nadv = 1
        for d in ash:
            nadv *= d

        def offs(ds):
            for ix in itertools.product(*[[0] if a == "new" else [v * st[a] for v in d] for a, d in ds]):
                yield sum(ix)
        for b in offs(before):
            for q in range(nadv):
                o = sum((lists[j][q] if lists[j] is not None else dims[j][1]) * st[dims[j][0]] for j in advs)
                for c in offs(after):
                    flat.append(b + o + c)
        return tuple(out_shape), flat
    out_shape, sel = [], []
    for a, d in dims:
        if a == "new":
            out_shape.append(1)
            sel.append([0])
        elif isinstance(d, int):
            sel.append([d * st[a]])
        else:
            out_shape.append(len(d))
            sel.append([v * st[a] for v in d])
    return tuple(out_shape), [sum(ix) for ix in itertools.product(*sel)]


def index(I, t, i):
    l = get(I, t)
    if l is None or not l.shape:
        return None
    try:
        sh, pos = positions(I, l.shape, i)
    except No:
        return None
    return put(I, Lit(sh, [l.leaves[p] for p in pos]))


def mask(t):
    """literal array of truth values or None"""
    if t.op != "arr" or t.args[0].op != "seq" or not t.args[0].args:
        return None
    xs = t.args[0].args
    if all(is_bool(x) for x in xs):
        return Lit((len(xs),), xs)
    rows = [mask(x if x.op == "arr" else mk("arr", x)) for x in xs]
    if any(r is None or r.shape != rows[0].shape for r in rows):
        return None
    return Lit((len(xs),) + rows[0].shape, [y for r in rows for y in r.leaves])


def store(I, t, i, v):
    l, w = get(I, t), get(I, v, lists=True)
    if l is None or w is None or not l.shape:
        return None
    m = mask(i)
    if m is not None and not all(x in (TRUE, FALSE) for x in m.leaves) and m.shape == l.shape and len(w.leaves) == 1:
        return put(I, Lit(l.shape, [ite(c, w.leaves[0], x) for c, x in zip(m.leaves, l.leaves)]))
    try:
        sh, pos = positions(I, l.shape, i)
    except No:
        return None
    if 0 in sh and len(w.leaves) == 1:
        return put(I, l)
    while len(w.shape) > len(sh) and w.shape[0] == 1:
        w = Lit(w.shape[1:], w.leaves)
    w = bcast(w, sh)
    ls = list(l.leaves)
    for p, x in zip(pos, w.leaves):
        ls[p] = x
    return put(I, Lit(l.shape, ls))


def concat_(I, ts, axis):
    ls = [get(I, t, lists=True) for t in ts]
    if not ls or any(l is None for l in ls):
        return None
    n = len(ls[0].shape)
    if any(len(l.shape) != n for l in ls) or n == 0 or not -n <= axis < n:
        raise Bad("ValueError")
    axis %= n
    if any(l.shape[:axis] + l.shape[axis + 1:] != ls[0].shape[:axis] + ls[0].shape[axis + 1:] for l in ls):
        raise Bad("ValueError")
    sh = list(ls[0].shape)
    sh[axis] = sum(l.shape[axis] for l in ls)
    out = []
    for ix in indices(sh):
        k = ix[axis]
        for l in ls:
            if k < l.shape[axis]:
                out.append(l.leaves[sum(i * s for i, s in zip(ix[:axis] + (k,) + ix[axis + 1:], strides(l.shape)))])
                break
            k -= l.shape[axis]
    return put(I, Lit(sh, out))


def eigen(x, y, a):
    """A @ V = V @ diag(w) for the eigenvectors V of A"""
    if len(x.shape) != 2 or x.shape != y.shape or y.leaves[0].op != "entry":
        return None
    p, n = y.leaves[0].args[0], x.shape[0]
    if p.op != "proj" or not is_num(p.args[1], 1) or p.args[0].op != "call" or p.args[0].args[0] is not mk("ext", "numpy.linalg.eigh"):
        return None
    if p.args[0].args[1].args[0] is not a or any(e is not mk("entry", p, num(q // n), num(q % n)) for q, e in enumerate(y.leaves)):
        return None
    w = mk("proj", p.args[0], ZERO)
    return Lit(y.shape, [mul(mk("entry", w, num(q % n)), e) for q, e in enumerate(y.leaves)])


def matmul_(I, a, b, limit=40000):
    x, y = get(I, a), get(I, b)
    if x is None or y is None or not x.shape or not y.shape or len(x.shape) > 2 or len(y.shape) > 2:
        return None
    k = x.shape[-1]
    if y.shape[0] != k:
        raise Bad("ValueError")
    m = x.shape[0] if len(x.shape) == 2 else 1
    n = y.shape[1] if len(y.shape) == 2 else 1
    r = eigen(x, y, a)
    if r is not None:
        return put(I, r)
    if m * n * k > limit or k > 4 and not (m * n <= 4 and k <= 12) and not (len(y.shape) == 2 and all(
            y.leaves[i * n + j] is ZERO for i in range(k) for j in range(n) if i != j)):
        return None
    out = [add(*[mul(x.leaves[i * k + q], y.leaves[q * n + j]) for q in range(k)]) if k else ZERO
           for i in range(m) for j in range(n)]
    return put(I, Lit(x.shape[:-1] + y.shape[1:], out))


def transpose_(I, a):
    x = get(I, a)
    if x is None or len(x.shape) < 2:
        return None
    st = strides(x.shape)[::-1]
    sh = x.shape[::-1]
    return put(I, Lit(sh, [x.leaves[sum(i * s for i, s in zip(ix, st))] for ix in indices(sh)]))


def dot_(I, a, b, limit=20000):
    """numpy.dot: the last axis of a with the second last of b (its only one for vectors)"""
    x, y = get(I, a), get(I, b)
    if x is None or y is None or not x.shape or not y.shape or max(len(x.shape), len(y.shape)) <= 2:
        return None
    k, ax = x.shape[-1], max(len(y.shape) - 2, 0)
    if y.shape[ax] != k:
        raise Bad("ValueError")
    sh = x.shape[:-1] + y.shape[:ax] + y.shape[ax + 1:]
    n = 1
    for d in sh:
        n *= d
    if n * k > limit:
        return None
    st, m = strides(y.shape), len(x.shape) - 1
    out = []
    for ix in indices(sh):
        o = sum(i * s for i, s in zip(ix[:m], strides(x.shape)))
        p = sum(i * s for i, s in zip(ix[m:], st[:ax] + st[ax + 1:]))
        out.append(add(*[mul(x.leaves[o + q], y.leaves[p + q * st[ax]]) for q in range(k)]) if k else ZERO)
    return put(I, Lit(sh, out))
