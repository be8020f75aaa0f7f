"""Simplex basis functions equal the Proriol-Koornwinder-Dubiner polynomials / coordinate powers named by their mode."""
from math import sqrt
import numpy as np
from modepy.modes import jacobi, pkdo_2d, pkdo_3d, monomial, basis_for_space, orthonormal_basis_for_space, monomial_basis_for_space
from modepy.spaces import PN
from modepy.shapes import Simplex

KEEP_lookup_1d = KEEP_pkdo_2d = KEEP_pkdo_3d = ["modepy.modes.jacobi"]


def collapse(num, den):
    return np.where(den == 0, -1, 2*num/np.where(den == 0, 1, den) - 1)


def pkdo(order, x):
    if len(order) == 0:
        return 1 + 0*np.ones(x.shape[1:])
    if len(order) == 1:
        return jacobi(0, 0, order[0], x[0])
    if len(order) == 2:
        i, j = order
        r, s = x
        a = collapse(1 + r, 1 - s)
        return sqrt(2) * jacobi(0, 0, i, a) * jacobi(2*i + 1, 0, j, s) * (1 - s)**i
    i, j, k = order
    r, s, t = x
    a = collapse(1 + r, -s - t)
    b = collapse(1 + s, 1 - t)
    return (2 * sqrt(2) * jacobi(0, 0, i, a) * jacobi(2*i + 1, 0, j, b) * (1 - b)**i
            * jacobi(2*(i + j) + 2, 0, k, t) * (1 - t)**(i + j))


def r_pkdo_2d(i: "nat|0..4", j: "nat|0..3", x: "arr:2 vec"):
    return pkdo_2d((i, j), x)


def s_pkdo_2d(i, j, x):
    return pkdo((i, j), x)


def r_pkdo_3d(i: "nat|0..2", j: "nat|0..2", k: "nat|0..2", x: "arr:3 vec"):
    return pkdo_3d((i, j, k), x)


def s_pkdo_3d(i, j, k, x):
    return pkdo((i, j, k), x)


def r_onb_1d(n: "0..6", x: "arr:1 vec"):
    b = orthonormal_basis_for_space(PN(1, n), Simplex(1))
    return [f(x) for f in b.functions]


def s_onb_1d(n, x):
    b = orthonormal_basis_for_space(PN(1, n), Simplex(1))
    return [pkdo(mid, x) for mid in b.mode_ids]


def r_onb_2d(n: "0..4", x: "arr:2 vec"):
    b = orthonormal_basis_for_space(PN(2, n), Simplex(2))
    return [f(x) for f in b.functions]


def s_onb_2d(n, x):
    b = orthonormal_basis_for_space(PN(2, n), Simplex(2))
    return [pkdo(mid, x) for mid in b.mode_ids]


def r_onb_3d(n: "0..3", x: "arr:3 vec"):
    b = orthonormal_basis_for_space(PN(3, n), Simplex(3))
    return [f(x) for f in b.functions]


def s_onb_3d(n, x):
    b = orthonormal_basis_for_space(PN(3, n), Simplex(3))
    return [pkdo(mid, x) for mid in b.mode_ids]


def r_onb_0d(n: "0..3", x: "mat 0 m"):
    b = orthonormal_basis_for_space(PN(0, n), Simplex(0))
    return [f(x) for f in b.functions]


def s_onb_0d(n, x):
    return [np.ones(x.shape[1:])]


def modes(dim, n):
    return [t for t in np.ndindex((n + 1,)*dim) if sum(t) <= n]


def r_mode_sets(dim: "0..3", n: "0..4"):
    sp, sh = PN(dim, n), Simplex(dim)
    return (sorted(orthonormal_basis_for_space(sp, sh).mode_ids), sorted(monomial_basis_for_space(sp, sh).mode_ids),
            sorted(basis_for_space(sp, sh).mode_ids))


def s_mode_sets(dim, n):
    m = modes(dim, n)
    return (m, m, m)


def power_product(mid, x):
    r = 1
    for i in range(len(mid)):
        r = r * x[i]**mid[i]
    return r


def r_monomial(dim: "0..4", n: "0..3", x: "arr:4 vec"):
    b = monomial_basis_for_space(PN(dim, n), Simplex(dim))
    return [f(x[:dim]) for f in b.functions]


def s_monomial(dim, n, x):
    return [power_product(mid, x) for mid in monomial_basis_for_space(PN(dim, n), Simplex(dim)).mode_ids]


def r_monomial_any(i: "nat", j: "nat", k: "nat", x: "arr:3 vec"):
    return monomial((i, j, k), x)


def s_monomial_any(i, j, k, x):
    return x[0]**i * x[1]**j * x[2]**k
