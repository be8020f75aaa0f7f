"""Operators that need unisolvent nodes reject mismatched sizes."""
import numpy as np
from speclib import ANY, VEC
from modepy.matrices import (
    resampling_matrix, differentiation_matrices, diff_matrices,
    nodal_quadrature_test_matrix, nodal_quadrature_bilinear_form_matrix,
    nodal_quad_mass_matrix, nodal_mass_matrix_for_face, nodal_quad_mass_matrix_for_face)
from modepy.modes import Basis
from modepy.nodes import (
    equidistant_nodes, warp_and_blend_nodes, warp_and_blend_nodes_2d, warp_and_blend_nodes_3d, tensor_product_nodes)
from modepy.quadrature import Quadrature
from modepy.shapes import Hypercube, Simplex
from modepy.spaces import PN, QN, TensorProductSpace, space_for_shape
from modepy.tools import reshape_array_for_tensor_product_space, unreshape_array_for_tensor_product_space

KEEP = ["modepy.nodes.warp_factor", "modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes"]


class Fun:
    def __init__(self, k):
        self.k = k

    def __call__(self, nodes):
        return VEC("f", self.k, nodes)


class Grad:
    def __init__(self, k, dim):
        self.k, self.dim = k, dim

    def __call__(self, nodes):
        return tuple([VEC("df", self.k, a, nodes) for a in range(self.dim)])


class ABasis(Basis):
    def __init__(self, n, dim):
        self.n, self.dim = n, dim

    @property
    def functions(self):
        return tuple([Fun(k) for k in range(self.n)])

    @property
    def gradients(self):
        return tuple([Grad(k, self.dim) for k in range(self.n)])


class AFace:
    def map_to_volume(self, nodes):
        return nodes


def funs(n):
    return [Fun(k) for k in range(n)]


# {{{ interpolation operators

def r_resample(n: "1..4", new: "mat d m", old: "mat d n0"):
    return resampling_matrix(funs(n), new, old)


def s_resample(n, new, old):
    if old.shape[1] != n:
        raise Exception
    return ANY


def r_resample_not_lsq(n: "1..4", new: "mat d m", old: "mat d n0"):
    return resampling_matrix(funs(n), new, old)


def s_resample_not_lsq(n, new, old):
    if old.shape[1] != n:
        raise Exception
    return ANY


def r_diff(n: "1..3", dim: "1..3", nodes: "mat d m", src: "mat d n0"):
    return differentiation_matrices(funs(n), [Grad(k, dim) for k in range(n)], nodes, src)


def s_diff(n, dim, nodes, src):
    if src.shape[1] != n:
        raise Exception
    return ANY


def r_diff_default(n: "1..3", dim: "1..3", nodes: "mat d m"):
    return differentiation_matrices(funs(n), [Grad(k, dim) for k in range(n)], nodes)


def s_diff_default(n, dim, nodes):
    if nodes.shape[1] != n:
        raise Exception
    return ANY


def r_diff_basis(n: "1..3", dim: "1..3", nodes: "mat d m", src: "mat d n0"):
    return diff_matrices(ABasis(n, dim), nodes, src)


def s_diff_basis(n, dim, nodes, src):
    if src.shape[1] != n:
        raise Exception
    return ANY

# }}}


# {{{ quadrature operators

def r_test(n: "1..3", qn: "mat d q", w: "vec q", nodes: "mat d m"):
    return nodal_quadrature_test_matrix(Quadrature(qn, w), funs(n), funs(n), nodes)


def s_test(n, qn, w, nodes):
    if nodes.shape[1] != n:
        raise Exception
    return ANY


def r_bilinear(nt: "1..2", nu: "1..3", qn: "mat d q", w: "vec q", inn: "mat d m", out: "mat d k"):
    return nodal_quadrature_bilinear_form_matrix(
        Quadrature(qn, w), funs(nt), funs(nu), funs(nt), funs(nu), inn, out)


def s_bilinear(nt, nu, qn, w, inn, out):
    if inn.shape[1] != nu or out.shape[1] != nt:
        raise Exception
    return ANY


def r_nodal_quad(n: "1..3", qn: "mat d q", w: "vec q", nodes: "mat d m"):
    return nodal_quad_mass_matrix(Quadrature(qn, w), funs(n), nodes)


def s_nodal_quad(n, qn, w, nodes):
    if nodes.shape[1] != n:
        raise Exception
    return ANY


def r_face(nt: "1..2", nu: "1..3", qn: "mat d q", w: "vec q", vol: "mat d m", fn: "mat d k"):
    return nodal_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(nu), funs(nt), vol, fn)


def s_face(nt, nu, qn, w, vol, fn):
    if vol.shape[1] != nt or fn.shape[1] != nu:
        raise Exception
    return ANY


def r_face_quad(n: "1..3", qn: "mat d q", w: "vec q", vol: "mat d m"):
    return nodal_quad_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(n), vol)


def s_face_quad(n, qn, w, vol):
    if vol.shape[1] != n:
        raise Exception
    return ANY

# }}}


# {{{ explicit node tuple lists

def count(dims, n):
    r = 1
    for i in range(dims):
        r = r * (n + 1 + i) // (i + 1)
    return r


def r_equidistant(dims: "1..4", n: "0..3", tuples: "seq"):
    return equidistant_nodes(dims, n, tuples)


def s_equidistant(dims, n, tuples):
    if len(tuples) != count(dims, n):
        raise ValueError
    return ANY


def r_warp_1d(n: "1..3", length: "0..5"):
    return warp_and_blend_nodes(1, n, [(0,)] * length)


def s_warp_1d(n, length):
    if length != n + 1:
        raise ValueError
    return ANY


def r_warp_2d(n: "1..3", tuples: "seq"):
    return warp_and_blend_nodes_2d(n, tuples)


def s_warp_2d(n, tuples):
    if len(tuples) != count(2, n):
        raise ValueError
    return ANY


def r_warp_3d(n: "1..2", tuples: "seq"):
    return warp_and_blend_nodes_3d(n, tuples)


def s_warp_3d(n, tuples):
    if len(tuples) != count(3, n):
        raise ValueError
    return ANY


def r_warp(dims: "2,3", n: "1..2", tuples: "seq"):
    return warp_and_blend_nodes(dims, n, tuples)


def s_warp(dims, n, tuples):
    if len(tuples) != count(dims, n):
        raise ValueError
    return ANY

# }}}


# {{{ axes of tensor product arrays

def r_reshape_axis(m: "1,2", n: "1,2", axis: "-3..3", a: "mat p q"):
    return reshape_array_for_tensor_product_space(TensorProductSpace((PN(1, m), PN(2, n))), a, axis)


def s_reshape_axis(m, n, axis, a):
    k = axis + 2 if axis < 0 else axis
    if k < 0 or k > 1:
        raise ValueError
    if a.shape[k] != (m + 1) * (n + 1) * (n + 2) // 2:
        raise ValueError
    return ANY


def r_unreshape_axis(m: "1,2", n: "1,2", axis: "-3..3", a: "nd p q r"):
    return unreshape_array_for_tensor_product_space(TensorProductSpace((PN(1, m), PN(2, n))), a, axis)


def s_unreshape_axis(m, n, axis, a):
    k = axis + 2 if axis < 0 else axis
    if k < 0 or k > 1:
        raise ValueError
    if a.shape[k] != m + 1 or a.shape[k + 1] != (n + 1) * (n + 2) // 2:
        raise ValueError
    return ANY

# }}}


# {{{ number of orders

def r_orders(dim: "1..4", length: "0..5"):
    return space_for_shape(Hypercube(dim), tuple([2] * length))


def s_orders(dim, length):
    if dim > 1 and length != dim:
        raise ValueError
    return ANY


# }}}


def r_tp_nodes_missing(dims: "0..3"):
    return tensor_product_nodes(dims)


def s_tp_nodes_missing(dims):
    raise ValueError


def r_tp_nodes_extra(x: "mat 1 m", y: "mat 1 n"):
    return tensor_product_nodes([x, y], x)


def s_tp_nodes_extra(x, y):
    raise ValueError


def r_resample_not_lsq_explicit(n: "1..4", new: "mat d m", old: "mat d n0"):
    return resampling_matrix(funs(n), new, old, least_squares_ok=False)


def s_resample_not_lsq_explicit(n, new, old):
    if old.shape[1] != n:
        raise Exception
    return ANY


# the pseudoinverse exists for every matrix
HEADS_resample = HEADS_resample_not_lsq = HEADS_resample_not_lsq_explicit = ["T", "call", "matmul", "pinv"]
