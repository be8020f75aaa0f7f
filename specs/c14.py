"""All tensor product orderings agree, with the first factor fastest."""
import numpy as np
from modepy.modes import Basis, TensorProductBasis
from modepy.nodes import (
    node_tuples_for_space, tensor_product_nodes, equispaced_nodes_for_space,
    legendre_gauss_tensor_product_nodes, legendre_gauss_lobatto_tensor_product_nodes, edge_clustered_nodes_for_space)
from modepy.quadrature import (
    LegendreGaussLobattoTensorProductQuadrature, LegendreGaussTensorProductQuadrature, Quadrature, TensorProductQuadrature)
from modepy.quadrature.jacobi_gauss import (
    LegendreGaussLobattoQuadrature, LegendreGaussQuadrature, legendre_gauss_lobatto_nodes)
from modepy.shapes import Hypercube, Simplex, TensorProductShape
from modepy.spaces import PN, QN, TensorProductSpace
from modepy.tools import reshape_array_for_tensor_product_space, unreshape_array_for_tensor_product_space
from speclib import VEC


def pairs(*ns):
    """multi-indices below ns, the first entry fastest"""
    if not ns:
        return [()]
    return [(i, *r) for r in pairs(*ns[1:]) for i in range(ns[0])]


def product(*sets):
    """sets of points given as lists of coordinate rows"""
    ix = pairs(*[len(s[0]) for s in sets])
    return np.array([[row[t[f]] for t in ix] for f, s in enumerate(sets) for row in s])


# {{{ nodes

def r_nodes_1(x: "tup:1 tup:3 real"):
    return tensor_product_nodes([np.array(x)])


def s_nodes_1(x):
    return np.array(x)


def r_nodes_2(x: "tup:1 tup:2 real", y: "tup:1 tup:3 real"):
    return tensor_product_nodes([np.array(x), np.array(y)])


def s_nodes_2(x, y):
    return product(x, y)


def r_nodes_flat(x: "tup:3 real", y: "tup:2 real"):
    """one-dimensional factors may be given without the coordinate axis"""
    return tensor_product_nodes([np.array(x), np.array(y)])


def s_nodes_flat(x, y):
    return product([x], [y])


def r_nodes_mixed(x: "tup:2 tup:2 real", y: "tup:1 tup:3 real"):
    return tensor_product_nodes([np.array(x), np.array(y)])


def s_nodes_mixed(x, y):
    return product(x, y)


def r_nodes_mixed2(x: "tup:1 tup:3 real", y: "tup:3 tup:2 real"):
    return tensor_product_nodes([np.array(x), np.array(y)])


def s_nodes_mixed2(x, y):
    return product(x, y)


def r_nodes_3(x: "tup:1 tup:2 real", y: "tup:2 tup:3 real", z: "tup:1 tup:4 real"):
    return tensor_product_nodes([np.array(x), np.array(y), np.array(z)])


def s_nodes_3(x, y, z):
    return product(x, y, z)


def r_nodes_power(dims: "1..3", x: "tup:3 real"):
    return tensor_product_nodes(dims, np.array(x))


def s_nodes_power(dims, x):
    return product(*[[x]] * dims)


def r_nodes_0():
    return tensor_product_nodes([]).shape, tensor_product_nodes(0, np.array([1, 2])).shape


def s_nodes_0():
    return (0, 1), (0, 1)

# }}}


# {{{ node tuples and modes

def simplex(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in simplex(dim - 1, n - i)]


def r_tuples_1(m: "0..3", n: "0..3"):
    return node_tuples_for_space(TensorProductSpace((PN(1, m), PN(1, n))))


def s_tuples_1(m, n):
    return tuple([(i, j) for j in range(n + 1) for i in range(m + 1)])


def r_tuples_2(m: "0..2", n: "0..2", swap: "lit False,True"):
    return node_tuples_for_space(TensorProductSpace((PN(1, m), PN(2, n)) if swap else (PN(2, n), PN(1, m))))


def s_tuples_2(m, n, swap):
    t1, t2 = node_tuples_for_space(PN(1, m)), node_tuples_for_space(PN(2, n))
    if swap:
        return tuple([a + b for b in t2 for a in t1])
    return tuple([a + b for b in t1 for a in t2])


def r_tuples_3(m: "0..2", n: "0..2", k: "0..2"):
    return node_tuples_for_space(TensorProductSpace((PN(1, m), PN(1, n), PN(1, k))))


def s_tuples_3(m, n, k):
    return tuple([(i, j, l) for l in range(k + 1) for j in range(n + 1) for i in range(m + 1)])


def r_tuples_qn(dim: "0..3", n: "0..2"):
    return node_tuples_for_space(QN(dim, n))


def s_tuples_qn(dim, n):
    return tuple(pairs(*[n + 1] * dim))


class Fun:
    def __init__(self, f, k):
        self.f, self.k = f, k

    def __call__(self, x):
        return VEC("f", self.f, self.k, x)


class ABasis(Basis):
    def __init__(self, f, n, dim):
        self.f, self.n, self.dim = f, n, dim

    @property
    def _nmodes(self):
        return self.n

    @property
    def _dim(self):
        return self.dim

    @property
    def mode_ids(self):
        return tuple([(k,) * self.dim for k in range(self.n)])

    @property
    def functions(self):
        return tuple([Fun(self.f, k) for k in range(self.n)])


def r_modes(m: "1..3", n: "1..3", x: "mat 2 q"):
    b = TensorProductBasis((ABasis(0, m, 1), ABasis(1, n, 1)), dims_per_basis=(1, 1))
    return tuple([f(x) for f in b.functions])


def s_modes(m, n, x):
    return tuple([VEC("f", 0, i, x[0:1]) * VEC("f", 1, j, x[1:2]) for j in range(n) for i in range(m)])


def r_mode_ids(m: "1..3", n: "1..3", k: "1..2"):
    b = TensorProductBasis((ABasis(0, m, 1), ABasis(1, n, 2), ABasis(2, k, 1)), dims_per_basis=(1, 2, 1))
    return b.mode_ids


def s_mode_ids(m, n, k):
    return tuple([(i, (j, j), l) for l in range(k) for j in range(n) for i in range(m)])

# }}}


# {{{ quadrature

def r_quad_2(x: "tup:1 tup:2 real", v: "tup:2 real", y: "tup:2 tup:3 real", w: "tup:3 real"):
    q = TensorProductQuadrature([Quadrature(np.array(x), np.array(v)), Quadrature(np.array(y), np.array(w))])
    return q.nodes, q.weights


def s_quad_2(x, v, y, w):
    return product(x, y), np.array([b * a for b in w for a in v])


def r_quad_3(x: "tup:1 tup:2 real", v: "tup:2 real", y: "tup:1 tup:3 real", w: "tup:3 real"):
    p, q = Quadrature(np.array(x), np.array(v)), Quadrature(np.array(y), np.array(w))
    r = TensorProductQuadrature([p, q, p])
    return r.nodes, r.weights


def s_quad_3(x, v, y, w):
    return product(x, y, x), np.array([c * b * a for c in v for b in w for a in v])


def r_quad_0():
    q = TensorProductQuadrature([])
    return q.nodes.shape, q.weights


def s_quad_0():
    return (0, 1), np.array([1])

# }}}


# {{{ arrays

def r_reshape(a: "tup:6 real"):
    return reshape_array_for_tensor_product_space(TensorProductSpace((PN(1, 1), PN(1, 2))), np.array(a))


def s_reshape(a):
    return np.array([[a[i + 2 * j] for j in range(3)] for i in range(2)])


def r_reshape_rows(a: "tup:2 tup:6 real"):
    return reshape_array_for_tensor_product_space(TensorProductSpace((PN(1, 1), PN(2, 1))), np.array(a))


def s_reshape_rows(a):
    return np.array([[[r[i + 2 * j] for j in range(3)] for i in range(2)] for r in a])


def r_reshape_axis0(a: "tup:6 tup:2 real", axis: "0,-2"):
    return reshape_array_for_tensor_product_space(TensorProductSpace((PN(2, 1), PN(1, 1))), np.array(a), axis)


def s_reshape_axis0(a, axis):
    return np.array([[[a[i + 3 * j][c] for c in range(2)] for j in range(2)] for i in range(3)])


def r_unreshape(a: "tup:2 tup:3 real"):
    return unreshape_array_for_tensor_product_space(TensorProductSpace((PN(1, 1), PN(1, 2))), np.array(a))


def s_unreshape(a):
    return np.array([a[i][j] for j in range(3) for i in range(2)])


def r_unreshape_rows(a: "tup:2 tup:2 tup:3 real", axis: "1,-1"):
    return unreshape_array_for_tensor_product_space(TensorProductSpace((PN(1, 1), PN(2, 1))), np.array(a), axis)


def s_unreshape_rows(a, axis):
    return np.array([[r[i][j] for j in range(3) for i in range(2)] for r in a])


def r_unreshape_axis0(a: "tup:3 tup:2 tup:2 real", axis: "0,-2"):
    return unreshape_array_for_tensor_product_space(TensorProductSpace((PN(2, 1), PN(1, 1))), np.array(a), axis)


def s_unreshape_axis0(a, axis):
    return np.array([[a[i][j][c] for c in range(2)] for j in range(2) for i in range(3)])

# }}}
