"""Interpolation and differentiation matrices solve the right systems."""
import numpy as np
import numpy.linalg as la
from speclib import ANY, VEC
from modepy.matrices import resampling_matrix, differentiation_matrices, diff_matrices, vandermonde, multi_vandermonde
from modepy.modes import Basis


class Fun:
    def __init__(self, k):
        self.k = k

    def __call__(self, nodes):
        return VEC("f", self.k, nodes)


class Grad:
    def __init__(self, k, dim):
        self.k, self.dim = k, dim

    def __call__(self, nodes):
        return tuple([VEC("df", self.k, a, nodes) for a in range(self.dim)])


class ABasis(Basis):
    def __init__(self, n, dim):
        self.n, self.dim = n, dim

    def orthonormality_weight(self):
        return 1

    @property
    def mode_ids(self):
        return tuple(range(self.n))

    @property
    def functions(self):
        return tuple([Fun(k) for k in range(self.n)])

    @property
    def gradients(self):
        return tuple([Grad(k, self.dim) for k in range(self.n)])


def vander(n, nodes):
    return np.stack([VEC("f", k, nodes) for k in range(n)], axis=1)


def dvander(n, axis, nodes):
    return np.stack([VEC("df", k, axis, nodes) for k in range(n)], axis=1)


def r_square(n: "1..4", lsq: "lit False,True", new: "mat d m", old: "mat d n0"):
    b = [Fun(k) for k in range(n)]
    return resampling_matrix(b, new, old, lsq)


def s_square(n, lsq, new, old):
    if old.shape[1] != n:
        return ANY
    return vander(n, new) @ la.inv(vander(n, old))


def r_lsq(n: "1..4", new: "mat d m", old: "mat d n0"):
    b = [Fun(k) for k in range(n)]
    return resampling_matrix(b, new, old, least_squares_ok=True)


def s_lsq(n, new, old):
    if old.shape[1] == n:
        return ANY
    return vander(n, new) @ la.pinv(vander(n, old))


def r_diff(n: "1..3", dim: "1..3", nodes: "mat d m", src: "mat d n0"):
    return differentiation_matrices([Fun(k) for k in range(n)], [Grad(k, dim) for k in range(n)], nodes, src)


def s_diff(n, dim, nodes, src):
    if src.shape[1] != n:
        return ANY
    v = la.inv(vander(n, src))
    return tuple([dvander(n, a, nodes) @ v for a in range(dim)])


def r_diff_default(n: "1..3", dim: "1..3", nodes: "mat d m"):
    return (differentiation_matrices([Fun(k) for k in range(n)], [Grad(k, dim) for k in range(n)], nodes),
            differentiation_matrices([Fun(k) for k in range(n)], [Grad(k, dim) for k in range(n)], nodes, None))


def s_diff_default(n, dim, nodes):
    if nodes.shape[1] != n:
        return ANY
    v = la.inv(vander(n, nodes))
    r = tuple([dvander(n, a, nodes) @ v for a in range(dim)])
    return (r, r)


def r_diff_basis(n: "1..3", dim: "1..3", nodes: "mat d m", src: "mat d n0"):
    return diff_matrices(ABasis(n, dim), nodes, src)


def s_diff_basis(n, dim, nodes, src):
    if src.shape[1] != n:
        return ANY
    v = la.inv(vander(n, src))
    return tuple([dvander(n, a, nodes) @ v for a in range(dim)])


def r_diff_basis_default(n: "1..3", dim: "1..3", nodes: "mat d m"):
    return (diff_matrices(ABasis(n, dim), nodes), diff_matrices(ABasis(n, dim), nodes, from_nodes=None))


def s_diff_basis_default(n, dim, nodes):
    if nodes.shape[1] != n:
        return ANY
    v = la.inv(vander(n, nodes))
    r = tuple([dvander(n, a, nodes) @ v for a in range(dim)])
    return (r, r)
