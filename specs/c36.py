"""Degree vectors and the rows of the interpolation error estimator."""
import numpy as np
import numpy.linalg as la
from speclib import ANY, VEC

from modepy.modal_decay import degree_vector, interp_error_coefficient_estimator_matrix, simplex_interp_error_coefficient_estimator_matrix
from modepy.modes import Basis, SimplexBasis, TensorProductBasis, basis_for_space, monomial_basis_for_space, orthonormal_basis_for_space
from modepy.shapes import Hypercube, Simplex, TensorProductShape
from modepy.spaces import PN, QN, TensorProductSpace, space_for_shape


class Fun:
    def __init__(self, k):
        self.k = k

    def __call__(self, nodes):
        return VEC("f", self.k, nodes)


class ASimplexBasis(SimplexBasis):
    """a client's simplex basis with modes in any order"""

    def __init__(self, ids):
        self.ids = ids

    def orthonormality_weight(self):
        return 1

    @property
    def mode_ids(self):
        return self.ids

    @property
    def functions(self):
        return tuple([Fun(k) for k in range(len(self.ids))])

    @property
    def gradients(self):
        return ()


class ABasis(Basis):
    """neither a simplex basis nor a tensor product"""

    def orthonormality_weight(self):
        return 1

    @property
    def mode_ids(self):
        return ((0,), (1,))

    @property
    def functions(self):
        return (Fun(0), Fun(1))

    @property
    def gradients(self):
        return ()


IDS = [((0,), (1,), (2,)),
       ((0, 0), (1, 0), (0, 1)),
       ((0, 0), (0, 1), (1, 0), (0, 2), (1, 1), (2, 0)),
       ((2,), (0,), (1,)),
       ((0, 1, 0), (0, 0, 0), (2, 0, 1), (1, 1, 1), (0, 0, 2), (3, 0, 0)),
       ((0, 0, 0),),
       ((5, 0), (0, 1), (2, 2))]


# {{{ degree vectors

def r_symbolic(e: "tup:3 tup:2 nat"):
    """the total degree of each mode of a simplex basis, in mode order"""
    return list(degree_vector(ASimplexBasis(e)))


def s_symbolic(e):
    return [e[0][0] + e[0][1], e[1][0] + e[1][1], e[2][0] + e[2][1]]


def r_simplex(d: "1..3", n: "0..4", kind: "0..2"):
    """bases of the library"""
    f = [orthonormal_basis_for_space, monomial_basis_for_space, basis_for_space][kind]
    return list(degree_vector(f(PN(d, n), Simplex(d))))


def s_simplex(d, n, kind):
    f = [orthonormal_basis_for_space, monomial_basis_for_space, basis_for_space][kind]
    return [sum(m) for m in f(PN(d, n), Simplex(d)).mode_ids]


def r_product(i: "0..6", j: "0..6"):
    """the maximum of the component degrees, first factor fastest"""
    return list(degree_vector(TensorProductBasis([ASimplexBasis(IDS[i]), ASimplexBasis(IDS[j])], dims_per_basis=(len(IDS[i][0]), len(IDS[j][0])))))


def s_product(i, j):
    return [max(sum(a), sum(b)) for b in IDS[j] for a in IDS[i]]


def r_product3(i: "0..3"):
    bs = [ASimplexBasis(IDS[i]), ASimplexBasis(IDS[3]), ASimplexBasis(IDS[0])]
    return list(degree_vector(TensorProductBasis(bs, dims_per_basis=(len(IDS[i][0]), 1, 1))))


def s_product3(i):
    return [max(sum(a), sum(b), sum(c)) for c in IDS[0] for b in IDS[3] for a in IDS[i]]


def r_nested(i: "0..3", j: "0..3"):
    """a factor that is a product itself"""
    inner = TensorProductBasis([ASimplexBasis(IDS[i]), ASimplexBasis(IDS[j])], dims_per_basis=(len(IDS[i][0]), len(IDS[j][0])))
    return list(degree_vector(TensorProductBasis([ASimplexBasis(IDS[3]), inner], dims_per_basis=(1, len(IDS[i][0]) + len(IDS[j][0])))))


def s_nested(i, j):
    return [max(sum(c), sum(a), sum(b)) for b in IDS[j] for a in IDS[i] for c in IDS[3]]


def r_cube(d: "2..3", n: "0..2"):
    return list(degree_vector(basis_for_space(QN(d, n), Hypercube(d))))


def s_cube(d, n):
    b = basis_for_space(QN(d, n), Hypercube(d))
    return [max(m) for m in b.mode_ids]


def r_uneven(m: "0..2", n: "0..2"):
    """different orders, the first factor two-dimensional"""
    return list(degree_vector(basis_for_space(TensorProductSpace((PN(2, m), PN(1, n))), TensorProductShape((Simplex(2), Simplex(1))))))


def s_uneven(m, n):
    return [max(a, b) for b in range(n + 1) for a in [sum(t) for t in monomial_basis_for_space(PN(2, m), Simplex(2)).mode_ids]]


def r_unsupported():
    return degree_vector(ABasis())


def s_unsupported():
    raise TypeError


def r_unsupported_factor():
    return degree_vector(TensorProductBasis([ASimplexBasis(IDS[0]), ABasis()], dims_per_basis=(1, 1)))


def s_unsupported_factor():
    raise TypeError

# }}}


# {{{ estimators

def inverse(n, nodes):
    return la.inv(np.stack([VEC("f", k, nodes) for k in range(n)], axis=1))


def r_rows(i: "0..6", tail: "0..6", nodes: "mat d n"):
    """the rows of the inverse Vandermonde matrix of the highest orders, in order"""
    if nodes.shape[1] != len(IDS[i]):
        return None
    return interp_error_coefficient_estimator_matrix(nodes, tail, ASimplexBasis(IDS[i]))


def s_rows(i, tail, nodes):
    n = len(IDS[i])
    if nodes.shape[1] != n:
        return None
    top = max([sum(m) for m in IDS[i]])
    return inverse(n, nodes)[[k for k in range(n) if sum(IDS[i][k]) > top - tail]]


class ATensorProductBasis(TensorProductBasis):
    """product modes with arbitrary functions"""

    @property
    def functions(self):
        return tuple([Fun(k) for k in range(len(self.mode_ids))])


def r_rows_product(i: "0..3", j: "0..3", tail: "0..4", nodes: "mat d n"):
    """products, whose order is the maximum"""
    if nodes.shape[1] != len(IDS[i]) * len(IDS[j]):
        return None
    return interp_error_coefficient_estimator_matrix(
        nodes, tail, ATensorProductBasis([ASimplexBasis(IDS[i]), ASimplexBasis(IDS[j])], dims_per_basis=(len(IDS[i][0]), len(IDS[j][0]))))


def s_rows_product(i, j, tail, nodes):
    ds = [max(sum(a), sum(b)) for b in IDS[j] for a in IDS[i]]
    if nodes.shape[1] != len(ds):
        return None
    return inverse(len(ds), nodes)[[k for k in range(len(ds)) if ds[k] > max(ds) - tail]]


KEEP_deprecated = ["modepy.modal_decay.interp_error_coefficient_estimator_matrix", "modepy.modes.orthonormal_basis_for_space"]


def r_deprecated(n: "nat", tail: "nat", nodes: "mat d m"):
    """the deprecated entry point for simplices uses the orthonormal basis of the given order"""
    return simplex_interp_error_coefficient_estimator_matrix(nodes, n, tail)


def s_deprecated(n, tail, nodes):
    s = Simplex(nodes.shape[0])
    return interp_error_coefficient_estimator_matrix(nodes, tail, orthonormal_basis_for_space(PN(nodes.shape[0], n), s))

# }}}
