"""Mass matrices are only formed from bases declared orthonormal."""
import numpy as np
import numpy.linalg as la
from speclib import ANY
from modepy.modes import (Basis, BasisNotOrthonormal, TensorProductBasis, orthonormal_basis_for_space, basis_for_space,
    monomial_basis_for_space)
from modepy.matrices import mass_matrix, inverse_mass_matrix, vandermonde
from modepy.spaces import PN, QN, TensorProductSpace
from modepy.shapes import Simplex, Hypercube, TensorProductShape


class WeightedBasis(Basis):
    """a client's basis with an arbitrary declared weight"""
    def __init__(self, w, functions):
        self.w = w
        self._functions = functions

    def orthonormality_weight(self):
        return self.w

    @property
    def mode_ids(self):
        return tuple(range(len(self._functions)))

    @property
    def functions(self):
        return self._functions

    @property
    def gradients(self):
        return ()


class Fun:
    """an arbitrary function, given by its values at the nodes"""
    def __init__(self, values):
        self.values = values

    def __call__(self, nodes):
        return self.values


class NoWeightBasis(WeightedBasis):
    def orthonormality_weight(self):
        raise BasisNotOrthonormal


def vander(functions, nodes):
    return np.stack([f(nodes) for f in functions], axis=-1)


def r_inverse_any(w: "real", f: "vec n", g: "vec n", nodes: "mat d n"):
    return inverse_mass_matrix(WeightedBasis(w, (Fun(f), Fun(g))), nodes)


def s_inverse_any(w, f, g, nodes):
    if w != 1:
        raise NotImplementedError
    v = vander([Fun(f), Fun(g)], nodes)
    return v @ v.T


def r_mass_any(w: "real", f: "vec n", g: "vec n", nodes: "mat d n"):
    return mass_matrix(WeightedBasis(w, (Fun(f), Fun(g))), nodes)


def s_mass_any(w, f, g, nodes):
    if w != 1:
        raise NotImplementedError
    v = vander([Fun(f), Fun(g)], nodes)
    return la.inv(v @ v.T)


def r_declared_not(f: "any", nodes: "mat d n"):
    return inverse_mass_matrix(NoWeightBasis(1, (f,)), nodes)


def s_declared_not(f, nodes):
    raise NotImplementedError


def r_declared_not_mass(f: "any", nodes: "mat d n"):
    return mass_matrix(NoWeightBasis(1, (f,)), nodes)


def s_declared_not_mass(f, nodes):
    raise NotImplementedError


def r_monomial_weight(d: "nat", n: "nat"):
    return monomial_basis_for_space(PN(d, n), Simplex(d)).orthonormality_weight()


def s_monomial_weight(d, n):
    raise BasisNotOrthonormal


def r_monomial(kind: "0..1", d: "nat", n: "nat", nodes: "mat d m"):
    b = monomial_basis_for_space(PN(d, n), Simplex(d))
    return mass_matrix(b, nodes) if kind else inverse_mass_matrix(b, nodes)


def s_monomial(kind, d, n, nodes):
    raise NotImplementedError


def mixed(where):
    on = orthonormal_basis_for_space(PN(1, 2), Simplex(1))
    mo = monomial_basis_for_space(PN(1, 2), Simplex(1))
    return TensorProductBasis([mo if i == where else on for i in range(3)], (1, 1, 1))


def r_product_with_monomial(kind: "0..1", where: "0..2", nodes: "mat 3 m"):
    return mass_matrix(mixed(where), nodes) if kind else inverse_mass_matrix(mixed(where), nodes)


def s_product_with_monomial(kind, where, nodes):
    raise NotImplementedError


def r_product_weight(where: "0..2"):
    return mixed(where).orthonormality_weight()


def s_product_weight(where):
    raise BasisNotOrthonormal


def r_orthonormal_weight(d: "0..4", n: "nat"):
    return orthonormal_basis_for_space(PN(d, n), Simplex(d)).orthonormality_weight()


def s_orthonormal_weight(d, n):
    return 1


def r_tp_weight(d: "2..3", n: "nat"):
    return orthonormal_basis_for_space(QN(d, n), Hypercube(d)).orthonormality_weight()


def s_tp_weight(d, n):
    return 1


def r_high_dim(d: "4..6", n: "nat", nodes: "mat d m"):
    # basis_for_space falls back to monomials above three dimensions
    return mass_matrix(basis_for_space(PN(d, n), Simplex(d)), nodes)


def s_high_dim(d, n, nodes):
    raise NotImplementedError


def r_weighted_product(u: "real", w: "real", f: "vec k", nodes: "mat 2 m"):
    return inverse_mass_matrix(TensorProductBasis([WeightedBasis(u, (Fun(f),)), WeightedBasis(w, (Fun(f),))], (1, 1)), nodes)


def s_weighted_product(u, w, f, nodes):
    if u*w != 1:
        raise NotImplementedError
    return ANY
HEADS_weighted_product = ["T", "call", "matmul", "max", "min"]
