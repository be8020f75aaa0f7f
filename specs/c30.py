"""Dimensions and counts of shapes and spaces."""
from math import comb

from modepy.shapes import Hypercube, Shape, Simplex, TensorProductShape, unit_vertices_for_shape
from modepy.spaces import PN, QN, FunctionSpace, TensorProductSpace, space_for_shape


class Solid(Shape):
    """a shape with given numbers of vertices and faces"""

    def __init__(self, dim, nv, nf):
        object.__setattr__(self, "dim", dim)
        object.__setattr__(self, "nv", nv)
        object.__setattr__(self, "nf", nf)

    @property
    def nvertices(self):
        return self.nv

    @property
    def nfaces(self):
        return self.nf


class Space(FunctionSpace):
    """a space with given dimensions"""

    def __init__(self, spatial_dim, space_dim, order):
        self._spatial_dim = spatial_dim
        self._space_dim = space_dim
        self._order = order

    @property
    def spatial_dim(self):
        return self._spatial_dim

    @property
    def space_dim(self):
        return self._space_dim

    @property
    def order(self):
        return self._order


class Unordered(FunctionSpace):
    """a space without an order"""

    @property
    def spatial_dim(self):
        return 1

    @property
    def space_dim(self):
        return 1


def r_simplex(d: "nat|0..4"):
    s = Simplex(d)
    return (s.dim, s.nvertices, s.nfaces)


def s_simplex(d):
    return (d, d + 1, d + 1)


def r_hypercube(d: "1..6"):
    s = Hypercube(d)
    return (s.dim, s.nvertices, s.nfaces)


def s_hypercube(d):
    return (d, 2**d, 2*d)


def r_prism(d: "pos|1..4", k: "1..3", first: "lit False,True"):
    """a simplex times segments"""
    seg = tuple([Simplex(1) for i in range(k)])
    s = TensorProductShape((Simplex(d),) + seg if first else seg + (Simplex(d),))
    return (s.dim, s.nvertices, s.nfaces)


def s_prism(d, k, first):
    return (d + k, (d + 1)*2**k, d + 1 + 2*k)


def r_cylinder(d: "2..4", nv: "nat", nf: "nat", k: "1..3", i: "0..3"):
    """any solid times segments"""
    if i > k:
        i = k
    seg = [Simplex(1) for j in range(k)]
    s = TensorProductShape(tuple(seg[:i] + [Solid(d, nv, nf)] + seg[i:]))
    return (s.dim, s.nvertices, s.nfaces)


def s_cylinder(d, nv, nf, k, i):
    return (d + k, nv*2**k, nf + 2*k)


def r_vertices(d: "0..4"):
    return unit_vertices_for_shape(Simplex(d)).shape


def s_vertices(d):
    return (d, d + 1)


def r_cubevertices(d: "1..5"):
    return unit_vertices_for_shape(Hypercube(d)).shape


def s_cubevertices(d):
    return (d, 2**d)


def r_pn(d: "nat|0..4", n: "nat|0..4"):
    s = PN(d, n)
    return (s.spatial_dim, s.order, s.space_dim)


def s_pn(d, n):
    return (d, n, comb(n + d, d))


def r_qn(d: "1..6", n: "nat"):
    s = QN(d, n)
    return (s.spatial_dim, s.order, s.space_dim)


def s_qn(d, n):
    return (d, n, (n + 1)**d)


def r_tp(k: "2..4", a: "tup:4 nat", b: "tup:4 nat", c: "tup:4 nat"):
    s = TensorProductSpace(tuple([Space(a[i], b[i], c[i]) for i in range(k)]))
    p = 1
    for i in range(k):
        p = p*b[i]
    return (s.spatial_dim, s.space_dim, sum([a[i] for i in range(k)]), p)


def s_tp(k, a, b, c):
    p = 1
    for i in range(k):
        p = p*b[i]
    m = sum([a[i] for i in range(k)])
    return (m, p, m, p)


def r_tporder(k: "2..4", c: "tup:4 nat"):
    return TensorProductSpace(tuple([Space(1, 1, c[i]) for i in range(k)])).order


def s_tporder(k, c):
    for i in range(1, k):
        if c[i] != c[0]:
            raise AttributeError
    return c[0]


def r_noorder(k: "lit 0,1,2", n: "nat"):
    s = [Unordered(), TensorProductSpace((Unordered(), Unordered())), TensorProductSpace((PN(1, n), Unordered()))]
    return s[k].order


def s_noorder(k, n):
    raise AttributeError


def r_tppn(m: "nat", n: "nat", d: "nat"):
    """triangles times segments"""
    s = TensorProductSpace((PN(d, m), PN(1, n)))
    return (s.spatial_dim, s.space_dim, s.bases[0].order, s.bases[1].order)


def s_tppn(m, n, d):
    return (d + 1, comb(m + d, d)*(n + 1), m, n)


def r_forsimplex(d: "nat|0..4", n: "nat"):
    s = space_for_shape(Simplex(d), n)
    return (type(s), s.spatial_dim, s.order)


def s_forsimplex(d, n):
    return (PN, d, n)


def r_forcube(d: "2..5", n: "nat"):
    s = space_for_shape(Hypercube(d), n)
    return (type(s), len(s.bases), [(type(b), b.spatial_dim, b.order) for b in s.bases])


def s_forcube(d, n):
    return (TensorProductSpace, d, [(PN, 1, n) for i in range(d)])


def r_fortp(n: "nat", m: "nat", k: "2..3", both: "lit False,True"):
    """one order for all components, or one each"""
    s = space_for_shape(TensorProductShape((Simplex(k), Simplex(1))), (n, m) if both else n)
    return (type(s), [(type(b), b.spatial_dim, b.order) for b in s.bases])


def s_fortp(n, m, k, both):
    return (TensorProductSpace, [(PN, k, n), (PN, 1, m if both else n)])


def r_fortp_reversed(n: "nat", m: "nat", l: "nat"):
    s = space_for_shape(TensorProductShape((Simplex(1), Simplex(3), Simplex(1))), (n, m, l))
    return [(type(b), b.spatial_dim, b.order) for b in s.bases]


def s_fortp_reversed(n, m, l):
    return [(PN, 1, n), (PN, 3, m), (PN, 1, l)]


def r_rejects(n: "nat", m: "nat", k: "lit 0,1,2"):
    shape = [TensorProductShape((Simplex(2), Simplex(1))), Hypercube(3), Hypercube(2)][k]
    return space_for_shape(shape, (n, m, n, m))


def s_rejects(n, m, k):
    raise ValueError


def r_unknown(n: "nat", d: "nat"):
    return space_for_shape(Solid(d, d, d), n)


def s_unknown(n, d):
    raise NotImplementedError
