"""Tensor product constructors: one component is itself, nested products are flat, unsupported products are rejected."""
from modepy.shapes import Hypercube, Shape, Simplex, TensorProductShape
from modepy.spaces import PN, QN, FunctionSpace, TensorProductSpace


class Solid(Shape):
    """some shape"""

    def __init__(self, dim, label):
        object.__setattr__(self, "dim", dim)
        object.__setattr__(self, "label", label)

    @property
    def nvertices(self):
        return 1

    @property
    def nfaces(self):
        return 1


class Space(FunctionSpace):
    """some space"""

    def __init__(self, label):
        self.label = label

    @property
    def spatial_dim(self):
        return 1

    @property
    def space_dim(self):
        return 1


def r_single(a: "any", d: "nat"):
    return (type(TensorProductShape((Solid(d, a),))), TensorProductShape((Solid(d, a),)).label,
            type(TensorProductSpace((Space(a),))), TensorProductSpace((Space(a),)).label)


def s_single(a, d):
    return (Solid, a, Space, a)


def r_line(n: "nat"):
    return (type(Hypercube(1)), Hypercube(1).dim, type(QN(1, n)), QN(1, n).order, QN(1, n).spatial_dim,
            type(TensorProductShape((Simplex(1),))), type(TensorProductSpace((PN(1, n),))))


def s_line(n):
    return (Simplex, 1, PN, n, 1, Simplex, PN)


def r_kinds(d: "2..5", n: "nat"):
    return (type(Hypercube(d)), [(type(b), b.dim) for b in Hypercube(d).bases], type(QN(d, n)),
            [(type(b), b.spatial_dim, b.order) for b in QN(d, n).bases])


def s_kinds(d, n):
    return (Hypercube, [(Simplex, 1) for i in range(d)], QN, [(PN, 1, n) for i in range(d)])


def r_single_qn(n: "nat", d: "2..4"):
    """a product of one QN space is that space"""
    q = TensorProductSpace((QN(d, n),))
    return (type(q), len(q.bases), q.bases[0].order)


def s_single_qn(n, d):
    return (QN, d, n)


def r_single_hypercube(d: "2..4"):
    """a product of one hypercube is that hypercube"""
    h = TensorProductShape((Hypercube(d),))
    return (type(h), h.dim, len(h.bases))


def s_single_hypercube(d):
    return (Hypercube, d, d)


def r_spaces(a: "any", b: "any", c: "any", d: "any", e: "any"):
    p = TensorProductSpace
    x, y, z, u, v = Space(a), Space(b), Space(c), Space(d), Space(e)
    ts = [p((x, y, z)), p((p((x, y)), z)), p((x, p((y, z)))), p((p((x, y)), p((z, u)))), p((x, p((y, p((z, u)))), v)),
          p((p((x,)), p((p((y, z)), u)), v))]
    return [(type(t), [s.label for s in t.bases]) for t in ts]


def s_spaces(a, b, c, d, e):
    p = TensorProductSpace
    return [(p, [a, b, c]), (p, [a, b, c]), (p, [a, b, c]), (p, [a, b, c, d]), (p, [a, b, c, d, e]), (p, [a, b, c, d, e])]


def r_shapes(a: "any", b: "any", c: "any", d: "pos|1..3"):
    p = TensorProductShape
    x, y, z = Solid(d, a), Solid(1, b), Solid(1, c)
    ts = [p((x, y, z)), p((p((x, y)), z)), p((y, p((x, z)))), p((p((y, z)), x)), p((p((p((y, z)), x)),))]
    return [(type(t), t.dim, [s.label for s in t.bases]) for t in ts]


def s_shapes(a, b, c, d):
    p = TensorProductShape
    return [(p, d + 2, [a, b, c]), (p, d + 2, [a, b, c]), (p, d + 2, [b, a, c]), (p, d + 2, [b, c, a]), (p, d + 2, [b, c, a])]


def r_cubes(d: "1..3", e: "1..3", k: "2..4"):
    """products of hypercubes"""
    t = TensorProductShape((Hypercube(d), Hypercube(e)))
    u = TensorProductShape((Simplex(k), Hypercube(e)))
    return (t.dim, [b.dim for b in t.bases], [type(b) for b in t.bases], [b.dim for b in u.bases])


def s_cubes(d, e, k):
    return (d + e, [1 for i in range(d + e)], [Simplex for i in range(d + e)], [k] + [1 for i in range(e)])


def r_qns(d: "1..3", e: "1..3", m: "nat", n: "nat"):
    """products of QN spaces"""
    t = TensorProductSpace((QN(d, m), QN(e, n)))
    return (type(t), [(type(b), b.spatial_dim, b.order) for b in t.bases])


def s_qns(d, e, m, n):
    return (TensorProductSpace, [(PN, 1, m) for i in range(d)] + [(PN, 1, n) for i in range(e)])


def r_rejects(d: "2..4", e: "2..4", k: "0..2"):
    seg = tuple([Simplex(1) for i in range(k)])
    return TensorProductShape((Simplex(d),) + seg + (Simplex(e),))


def s_rejects(d, e, k):
    raise NotImplementedError


def r_rejects_nested(d: "2..4", e: "2..4", k: "0..2"):
    return TensorProductShape((Simplex(d), TensorProductShape((Simplex(1), Simplex(e)))))


def s_rejects_nested(d, e, k):
    raise NotImplementedError


def r_rejects_any(d: "nat", e: "nat", f: "nat", a: "any"):
    """symbolic dimensions"""
    return len(TensorProductShape((Solid(d, a), Solid(e, a), Solid(f, a))).bases)


def s_rejects_any(d, e, f, a):
    n = (1 if d != 1 else 0) + (1 if e != 1 else 0) + (1 if f != 1 else 0)
    if n > 1:
        raise NotImplementedError
    return 3
