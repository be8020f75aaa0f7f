"""The Lebesgue constant is the largest row sum of the interpolation operator on a fine grid."""
import numpy as np
import numpy.linalg as la
from speclib import ANY

from modepy.matrices import vandermonde
from modepy.modes import basis_for_space
from modepy.nodes import node_tuples_for_space
from modepy.shapes import Hypercube, Shape, Simplex, TensorProductShape
from modepy.spaces import space_for_shape
from modepy.tools import estimate_lebesgue_constant

KEEP = ["modepy.matrices.vandermonde", "modepy.modes.basis_for_space", "modepy.nodes.node_tuples_for_space", "modepy.spaces.space_for_shape"]


def shape_of(kind):
    return [Simplex(1), Simplex(2), Simplex(3), Hypercube(2), Hypercube(3), TensorProductShape((Simplex(2), Simplex(1)))][kind]


def r_constant(n: "pos", kind: "0..5", nodes: "mat d q"):
    """largest row sum of |V_grid V^-1|, the grid being ten (in two dimensions: thirty) times finer than the order"""
    if nodes.shape[0] != shape_of(kind).dim:
        return None
    return estimate_lebesgue_constant(n, nodes, shape_of(kind))


def s_constant(n, kind, nodes):
    shape = shape_of(kind)
    if nodes.shape[0] != shape.dim:
        return None
    fine = [10, 30, 10, 30, 10, 10][kind] * n
    grid = (2 * np.array(node_tuples_for_space(space_for_shape(shape, fine))) / fine - 1).T
    if grid.shape[0] != nodes.shape[0]:
        return ANY
    f = basis_for_space(space_for_shape(shape, n), shape).functions
    return np.max(np.sum(np.abs(vandermonde(f, grid) @ la.inv(vandermonde(f, nodes))), axis=1))


def r_mismatch(n: "pos", kind: "0..5", nodes: "mat d q"):
    """nodes of another dimension are rejected"""
    if nodes.shape[0] == shape_of(kind).dim:
        return None
    return estimate_lebesgue_constant(n, nodes, shape_of(kind))


def s_mismatch(n, kind, nodes):
    if nodes.shape[0] == shape_of(kind).dim:
        return None
    raise ValueError


NOKEEP_written_out = ["modepy.matrices.vandermonde", "modepy.modes.basis_for_space", "modepy.nodes.node_tuples_for_space", "modepy.spaces.space_for_shape"]
FINITE_written_out = True



def simplex(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in simplex(dim - 1, n - i)]


def r_written_out(n: "1..3", nodes: "tup:4 real"):
    """on the interval, every entry written out"""
    return estimate_lebesgue_constant(n, np.array([nodes[:n + 1]]), Simplex(1))


def s_written_out(n, nodes):
    grid = np.array([[2 * i / (10 * n) - 1 for i in range(10 * n + 1)]])
    f = basis_for_space(space_for_shape(Simplex(1), n), Simplex(1)).functions
    x = np.array([nodes[:n + 1]])
    return np.max(np.sum(np.abs(vandermonde(f, grid) @ la.inv(vandermonde(f, x))), axis=1))
