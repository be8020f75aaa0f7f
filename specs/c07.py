"""Lookups reject mismatched arguments: wrong kind NotImplementedError, wrong dimension ValueError."""
from speclib import ANY
from modepy.modes import basis_for_space, orthonormal_basis_for_space, monomial_basis_for_space
from modepy.nodes import (equispaced_nodes_for_space, edge_clustered_nodes_for_space, random_nodes_for_shape,
    node_tuples_for_space)
from modepy.quadrature import quadrature_for_space
from modepy.spaces import FunctionSpace, PN, QN, TensorProductSpace, space_for_shape
from modepy.shapes import (Shape, Simplex, Hypercube, TensorProductShape, faces_for_shape, unit_vertices_for_shape,
    submesh_for_shape)

KEEP = ["modepy.nodes.warp_and_blend_nodes", "modepy.nodes.equidistant_nodes", "modepy.nodes.tensor_product_nodes"]
HEADS = ["modepy.nodes.warp_and_blend_nodes", "modepy.nodes.equidistant_nodes", "modepy.nodes.tensor_product_nodes", "call", "T", "alloc", "pytools.generate_nonnegative_integer_tuples_summing_to_at_most"]


class OtherSpace(FunctionSpace):
    """a space type nobody registered"""
    @property
    def order(self):
        return 1

    @property
    def spatial_dim(self):
        return 1

    @property
    def space_dim(self):
        return 2


class OtherShape(Shape):
    """a shape type nobody registered"""
    @property
    def nvertices(self):
        return 2

    @property
    def nfaces(self):
        return 2


def lookup(which, space, shape):
    if which == 0:
        return basis_for_space(space, shape)
    if which == 1:
        return orthonormal_basis_for_space(space, shape)
    if which == 2:
        return monomial_basis_for_space(space, shape)
    if which == 3:
        return equispaced_nodes_for_space(space, shape)
    if which == 4:
        return edge_clustered_nodes_for_space(space, shape)
    return quadrature_for_space(space, shape)


def r_pn_dim(which: "0..5", d: "nat", e: "nat", n: "nat"):
    if d == e:
        return None
    return lookup(which, PN(d, n), Simplex(e))


def s_pn_dim(which, d, e, n):
    if d == e:
        return None
    raise ValueError


def r_pn_on_hypercube(which: "0..5", d: "nat", e: "2,3,0", n: "nat"):
    return lookup(which, PN(d, n), Hypercube(e))


def s_pn_on_hypercube(which, d, e, n):
    raise NotImplementedError


def r_pn_on_prism(which: "0..5", d: "nat", n: "nat"):
    return lookup(which, PN(d, n), TensorProductShape((Simplex(2), Simplex(1))))


def s_pn_on_prism(which, d, n):
    raise NotImplementedError


def r_tp_on_simplex(which: "0..5", d: "2,3,0", e: "nat", n: "nat"):
    return lookup(which, QN(d, n), Simplex(e))


def s_tp_on_simplex(which, d, e, n):
    raise NotImplementedError


def r_prism_on_simplex(which: "0..5", e: "nat", n: "nat"):
    return lookup(which, TensorProductSpace((PN(2, n), PN(1, n))), Simplex(e))


def s_prism_on_simplex(which, e, n):
    raise NotImplementedError


def r_tp_dim(which: "0..5", d: "2..4", e: "2..4", n: "nat"):
    if d == e:
        return None
    return lookup(which, QN(d, n), Hypercube(e))


def s_tp_dim(which, d, e, n):
    if d == e:
        return None
    raise ValueError


def r_tp_factors(which: "0..5", n: "1..2"):
    """same total dimension, components that do not match"""
    return lookup(which, TensorProductSpace((PN(1, n), PN(2, n))), TensorProductShape((Simplex(2), Simplex(1))))


def s_tp_factors(which, n):
    raise ValueError


def r_tp_count(which: "0..5", n: "1..2"):
    return lookup(which, TensorProductSpace((PN(1, n), PN(2, n))), Hypercube(3))


def s_tp_count(which, n):
    raise ValueError


def r_other_space(which: "0..5", kind: "0..2"):
    return lookup(which, OtherSpace(), Simplex(1) if kind == 0 else Hypercube(2) if kind == 1 else OtherShape(1))


def s_other_space(which, kind):
    raise NotImplementedError


def r_other_shape(which: "0..5", n: "nat"):
    return lookup(which, PN(1, n), OtherShape(1))


def s_other_shape(which, n):
    raise NotImplementedError


def r_tp_other_shape(which: "0..5", n: "nat"):
    return lookup(which, QN(2, n), OtherShape(2))


def s_tp_other_shape(which, n):
    raise NotImplementedError


def r_shape_functions(which: "0..4"):
    s = OtherShape(1)
    if which == 0:
        return faces_for_shape(s)
    if which == 1:
        return unit_vertices_for_shape(s)
    if which == 2:
        return submesh_for_shape(s, [(0,), (1,)])
    if which == 3:
        return space_for_shape(s, 1)
    return random_nodes_for_shape(s, 3)


def s_shape_functions(which):
    raise NotImplementedError


def r_node_tuples():
    return node_tuples_for_space(OtherSpace())


def s_node_tuples():
    raise NotImplementedError
