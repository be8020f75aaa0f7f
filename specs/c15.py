"""Equispaced nodes lie at node tuple / order; order 0 gives the centroid."""
import numpy as np
from modepy.nodes import (
    equidistant_nodes, equispaced_nodes_for_space, edge_clustered_nodes_for_space, node_tuples_for_space,
    warp_and_blend_nodes, tensor_product_nodes)
from modepy.nodes import legendre_gauss_tensor_product_nodes, legendre_gauss_lobatto_tensor_product_nodes
from modepy.quadrature.jacobi_gauss import LegendreGaussQuadrature, legendre_gauss_lobatto_nodes
from modepy.shapes import Hypercube, Simplex, TensorProductShape
from modepy.spaces import PN, QN, TensorProductSpace

KEEP_cluster = ["modepy.nodes.warp_and_blend_nodes", "modepy.nodes.equidistant_nodes"]
HEADS_cluster = ["modepy.nodes.warp_and_blend_nodes", "modepy.nodes.equidistant_nodes"]
KEEP_cluster_tp = ["modepy.nodes.warp_and_blend_nodes", "modepy.nodes.tensor_product_nodes"]
KEEP_equispaced_tp = ["modepy.nodes.tensor_product_nodes"]


def simplex(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in simplex(dim - 1, n - i)]


def lattice(tuples, n):
    return np.array([[2 * t[a] / n - 1 for t in tuples] for a in range(len(tuples[0]))])


def centroid(dim):
    return np.array([[(2 - (dim + 1)) / (dim + 1)] for _ in range(dim)])


# {{{ node tuples

def r_tuples(dim: "0..4", n: "0..4"):
    return node_tuples_for_space(PN(dim, n))


def s_tuples(dim, n):
    return tuple(simplex(dim, n))


# }}}


# {{{ equidistant

def r_equidistant(dim: "1..4", n: "0..4"):
    return equidistant_nodes(dim, n)


def s_equidistant(dim, n):
    if n == 0:
        return centroid(dim)
    return lattice(simplex(dim, n), n)


def r_equidistant_none(dim: "1..4", n: "0..2"):
    return equidistant_nodes(dim, n, None)


def s_equidistant_none(dim, n):
    if n == 0:
        return centroid(dim)
    return lattice(simplex(dim, n), n)


def r_equidistant_tuples(dim: "1..3", n: "0..3"):
    return equidistant_nodes(dim, n, simplex(dim, n)[::-1])


def s_equidistant_tuples(dim, n):
    if n == 0:
        return centroid(dim)
    return lattice(simplex(dim, n)[::-1], n)


def r_equidistant_1d(n: "pos"):
    return equidistant_nodes(1, n)


def s_equidistant_1d(n):
    return np.array([[2 * i / n - 1 for i in range(n + 1)]])


def r_equispaced(dim: "1..4", n: "0..4"):
    return equispaced_nodes_for_space(PN(dim, n), Simplex(dim))


def s_equispaced(dim, n):
    if n == 0:
        return centroid(dim)
    return lattice(simplex(dim, n), n)


def r_equispaced_0d(n: "0..3"):
    return equispaced_nodes_for_space(PN(0, n), Simplex(0)).shape


def s_equispaced_0d(n):
    return (0, 1)

# }}}


# {{{ edge clustered

def r_cluster(dim: "0..6", n: "nat"):
    return edge_clustered_nodes_for_space(PN(dim, n), Simplex(dim))


def s_cluster(dim, n):
    if dim <= 3:
        return warp_and_blend_nodes(dim, n)
    return equidistant_nodes(dim, n)


def r_cluster_tp(m: "nat", n: "nat"):
    return edge_clustered_nodes_for_space(
        TensorProductSpace((PN(1, m), PN(2, n))), TensorProductShape((Simplex(1), Simplex(2))))


def s_cluster_tp(m, n):
    return tensor_product_nodes([warp_and_blend_nodes(1, m), warp_and_blend_nodes(2, n)])


def r_equispaced_tp(m: "1..2", n: "0..2"):
    return equispaced_nodes_for_space(
        TensorProductSpace((PN(1, m), PN(2, n))), TensorProductShape((Simplex(1), Simplex(2))))


def s_equispaced_tp(m, n):
    return tensor_product_nodes([lattice(simplex(1, m), m), centroid(2) if n == 0 else lattice(simplex(2, n), n)])


def r_qn(dim: "0..3", n: "1..2"):
    return equispaced_nodes_for_space(QN(dim, n), Hypercube(dim))


def s_qn(dim, n):
    return tensor_product_nodes([lattice(simplex(1, n), n)] * dim)


def r_zeroth(dim: "1..3"):
    return warp_and_blend_nodes(dim, 0)


def s_zeroth(dim):
    return centroid(dim)

# }}}


# {{{ products of Gauss nodes

KEEP_gauss_product = ["modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes",
                      "modepy.nodes.tensor_product_nodes"]


def r_gauss_product(dims: "1..4", n: "1..4", lobatto: "lit False,True"):
    """the one-dimensional rule has n+1 nodes"""
    return legendre_gauss_lobatto_tensor_product_nodes(dims, n) if lobatto else legendre_gauss_tensor_product_nodes(dims, n)


def s_gauss_product(dims, n, lobatto):
    if lobatto:
        return tensor_product_nodes(dims, legendre_gauss_lobatto_nodes(n, force_dim_axis=True))
    return tensor_product_nodes(dims, LegendreGaussQuadrature(n, force_dim_axis=True).nodes)

# }}}
