"""Quadrature-based operator matrices represent the integrals they are documented to represent."""
import numpy as np
import numpy.linalg as la
from speclib import ANY, VEC
from modepy.matrices import (
    nodal_quadrature_test_matrix, nodal_quadrature_bilinear_form_matrix, spectral_diag_nodal_mass_matrix,
    modal_quad_mass_matrix, nodal_quad_mass_matrix, modal_mass_matrix_for_face, nodal_mass_matrix_for_face,
    modal_quad_mass_matrix_for_face, nodal_quad_mass_matrix_for_face, mass_matrix, inverse_mass_matrix)
from modepy.modes import Basis
from modepy.quadrature import Quadrature


class Fun:
    def __init__(self, k, tag="f"):
        self.k, self.tag = k, tag

    def __call__(self, nodes):
        return VEC(self.tag, self.k, nodes)


class AFace:
    def map_to_volume(self, nodes):
        return facemap(nodes)


class ABasis(Basis):
    def __init__(self, n):
        self.n = n

    def orthonormality_weight(self):
        return 1

    @property
    def functions(self):
        return tuple([Fun(k) for k in range(self.n)])


def facemap(nodes):
    from speclib import MAT
    return MAT(3, "facemap", nodes)


def nodemap(nodes):
    from speclib import MAT
    return MAT(3, "nodemap", nodes)


def funs(n, tag):
    return [Fun(k, tag) for k in range(n)]


def vander(n, tag, nodes):
    return np.stack([VEC(tag, k, nodes) for k in range(n)], axis=1)


def weighted(n, tag, nodes, w):
    return np.stack([VEC(tag, k, nodes) * w for k in range(n)], axis=0)


# {{{ (psi_i, l_j): sum over quadrature nodes of test function times weight, in the nodal basis of `nodes`

def r_test(n: "1..4", qn: "mat d q", w: "vec q", nodes: "mat d m"):
    return nodal_quadrature_test_matrix(Quadrature(qn, w), funs(n, "t"), funs(n, "f"), nodes)


def s_test(n, qn, w, nodes):
    if nodes.shape[1] != n:
        return ANY
    return la.inv(vander(n, "f", nodes).T) @ weighted(n, "t", qn, w)


def r_test_default(n: "1..4", qn: "mat d q", w: "vec q"):
    return nodal_quadrature_test_matrix(Quadrature(qn, w), funs(n, "t"), funs(n, "f"))


def s_test_default(n, qn, w):
    if qn.shape[1] != n:
        return ANY
    return la.inv(vander(n, "f", qn).T) @ weighted(n, "t", qn, w)


def r_test_mapped(n: "1..4", qn: "mat d q", w: "vec q", nodes: "mat d m"):
    return nodal_quadrature_test_matrix(Quadrature(qn, w), funs(n, "t"), funs(n, "f"), nodes, nodemap)


def s_test_mapped(n, qn, w, nodes):
    if nodes.shape[1] != n:
        return ANY
    return la.inv(vander(n, "f", nodes).T) @ weighted(n, "t", nodemap(qn), w)

# }}}


# {{{ bilinear forms

def r_bilinear(nt: "1..2", nu: "1..3", ni: "1..3", no: "1..2", qn: "mat d q", w: "vec q", inn: "mat d m", out: "mat d k"):
    return nodal_quadrature_bilinear_form_matrix(
        Quadrature(qn, w), funs(nt, "t"), funs(nu, "u"), funs(no, "ft"), funs(ni, "fu"), inn, out)


def s_bilinear(nt, nu, ni, no, qn, w, inn, out):
    if inn.shape[1] != ni or out.shape[1] != no:
        return ANY
    if nt != no or nu != ni:
        return ANY
    modal = weighted(nt, "t", qn, w) @ vander(nu, "u", qn)
    return la.inv(vander(no, "ft", out).T) @ modal @ la.inv(vander(ni, "fu", inn))


def r_bilinear_mapped(nt: "1..2", nu: "1..3", qn: "mat d q", w: "vec q", inn: "mat d m", out: "mat d k"):
    return nodal_quadrature_bilinear_form_matrix(
        Quadrature(qn, w), funs(nt, "t"), funs(nu, "u"), funs(nt, "ft"), funs(nu, "fu"), inn, out, nodemap)


def s_bilinear_mapped(nt, nu, qn, w, inn, out):
    if inn.shape[1] != nu or out.shape[1] != nt:
        return ANY
    modal = weighted(nt, "t", nodemap(qn), w) @ vander(nu, "u", qn)
    return la.inv(vander(nt, "ft", out).T) @ modal @ la.inv(vander(nu, "fu", inn))


def r_bilinear_default(n: "1..3", qn: "mat d q", w: "vec q", inn: "mat d m"):
    return nodal_quadrature_bilinear_form_matrix(
        Quadrature(qn, w), funs(n, "t"), funs(n, "u"), funs(n, "ft"), funs(n, "fu"), inn)


def s_bilinear_default(n, qn, w, inn):
    if inn.shape[1] != n:
        return ANY
    modal = weighted(n, "t", qn, w) @ vander(n, "u", qn)
    return la.inv(vander(n, "ft", inn).T) @ modal @ la.inv(vander(n, "fu", inn))

# }}}


# {{{ deprecated variants

def r_modal_quad(nt: "1..3", qn: "mat d q", w: "vec q"):
    return modal_quad_mass_matrix(Quadrature(qn, w), funs(nt, "t"))


def s_modal_quad(nt, qn, w):
    return weighted(nt, "t", qn, w)


def r_nodal_quad(nt: "1..3", qn: "mat d q", w: "vec q", nodes: "mat d m"):
    return nodal_quad_mass_matrix(Quadrature(qn, w), funs(nt, "t"), nodes)


def s_nodal_quad(nt, qn, w, nodes):
    if nodes.shape[1] != nt:
        return ANY
    return la.inv(vander(nt, "t", nodes).T) @ weighted(nt, "t", qn, w)


def r_nodal_quad_default(nt: "1..3", qn: "mat d q", w: "vec q"):
    return nodal_quad_mass_matrix(Quadrature(qn, w), funs(nt, "t"))


def s_nodal_quad_default(nt, qn, w):
    if qn.shape[1] != nt:
        return ANY
    return la.inv(vander(nt, "t", qn).T) @ weighted(nt, "t", qn, w)


def face_modal(nt, nu, qn, w):
    return np.array([[VEC("t", i, facemap(qn)) * VEC("u", j, qn) @ w for j in range(nu)] for i in range(nt)])


def r_face_modal(nt: "1..3", nu: "1..2", qn: "mat d q", w: "vec q"):
    return modal_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(nu, "u"), funs(nt, "t"))


def s_face_modal(nt, nu, qn, w):
    return face_modal(nt, nu, qn, w)


def r_face_nodal(nt: "1..3", nu: "1..2", qn: "mat d q", w: "vec q", vol: "mat d m", fn: "mat d k"):
    return nodal_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(nu, "u"), funs(nt, "t"), vol, fn)


def s_face_nodal(nt, nu, qn, w, vol, fn):
    if vol.shape[1] != nt or fn.shape[1] != nu:
        return ANY
    return la.inv(vander(nt, "t", vol).T) @ face_modal(nt, nu, qn, w) @ la.inv(vander(nu, "u", fn))


def r_face_modal_quad(nt: "1..3", qn: "mat d q", w: "vec q"):
    return modal_quad_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(nt, "t"))


def s_face_modal_quad(nt, qn, w):
    return weighted(nt, "t", facemap(qn), w)


def r_face_nodal_quad(nt: "1..3", qn: "mat d q", w: "vec q", vol: "mat d m"):
    return nodal_quad_mass_matrix_for_face(AFace(), Quadrature(qn, w), funs(nt, "t"), vol)


def s_face_nodal_quad(nt, qn, w, vol):
    if vol.shape[1] != nt:
        return ANY
    return la.inv(vander(nt, "t", vol).T) @ weighted(nt, "t", facemap(qn), w)

# }}}


# {{{ mass matrices of an orthonormal basis: (V V^T)^-1

def r_inverse_mass(n: "1..4", nodes: "mat d m"):
    return inverse_mass_matrix(ABasis(n), nodes)


def s_inverse_mass(n, nodes):
    return vander(n, "f", nodes) @ vander(n, "f", nodes).T


def r_mass(n: "1..4", nodes: "mat d m"):
    return mass_matrix(ABasis(n), nodes)


def s_mass(n, nodes):
    return la.inv(vander(n, "f", nodes) @ vander(n, "f", nodes).T)

# }}}


# {{{ spectral mass matrix

from modepy.matrices import spectral_diag_nodal_mass_matrix
from modepy.quadrature import TensorProductQuadrature


def r_spectral(x: "mat 1 m", w: "vec m", y: "mat 1 n", v: "vec n"):
    return spectral_diag_nodal_mass_matrix(TensorProductQuadrature([Quadrature(x, w), Quadrature(y, v)]))


def s_spectral(x, w, y, v):
    return TensorProductQuadrature([Quadrature(x, w), Quadrature(y, v)]).weights


def r_spectral_not_1d(x: "mat 2 m", w: "vec m", y: "mat 1 n", v: "vec n", swap: "lit False,True"):
    if swap:
        return spectral_diag_nodal_mass_matrix(TensorProductQuadrature([Quadrature(y, v), Quadrature(x, w)]))
    return spectral_diag_nodal_mass_matrix(TensorProductQuadrature([Quadrature(x, w), Quadrature(y, v)]))


HEADS_spectral_not_1d = ["numpy.prod", "reshape", "update", "alloc", "attr:shape", "call", "kw:axis"]


def s_spectral_not_1d(x, w, y, v, swap):
    raise ValueError


def r_spectral_not_tp(x: "mat 1 m", w: "vec m"):
    return spectral_diag_nodal_mass_matrix(Quadrature(x, w))


def s_spectral_not_tp(x, w):
    raise ValueError

# }}}
