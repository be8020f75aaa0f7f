"""Gradients and axis derivatives are the exact partial derivatives of the basis functions."""
from math import sqrt
import numpy as np
from speclib import ANY, D
from modepy.modes import (jacobi, grad_jacobi, pkdo_2d, pkdo_3d, grad_pkdo_2d, grad_pkdo_3d, monomial, grad_monomial,
    diff_monomial, basis_for_space, orthonormal_basis_for_space, monomial_basis_for_space)
from modepy.spaces import PN, QN, TensorProductSpace
from modepy.shapes import Simplex, Hypercube, TensorProductShape

KEEP_pkdo_2d = KEEP_pkdo_3d = ["modepy.modes.jacobi"]




def grad(f, x, dim):
    v = f(x)
    return [D(v, x[k]) for k in range(dim)]


# regular points: derivative of the formula ------------------------------------------------------------

def r_pkdo_2d(i: "nat|0..3", j: "nat|0..3", x: "arr:2 real"):
    return list(grad_pkdo_2d((i, j), x))


def s_pkdo_2d(i, j, x):
    if x[1] == 1:
        return ANY
    v = pkdo_2d((i, j), x)
    return [D(v, x[0]), D(v, x[1])]


def r_pkdo_3d(i: "nat|0..2", j: "nat|0..2", k: "nat|0..2", x: "arr:3 real"):
    return list(grad_pkdo_3d((i, j, k), x))


def s_pkdo_3d(i, j, k, x):
    if x[1] + x[2] == 0 or x[2] == 1:
        return ANY
    v = pkdo_3d((i, j, k), x)
    return [D(v, x[0]), D(v, x[1]), D(v, x[2])]


def r_grad_jacobi(alpha: "jac", beta: "jac", n: "0..6", x: "real"):
    return grad_jacobi(alpha, beta, n, x)


def s_grad_jacobi(alpha, beta, n, x):
    return D(jacobi(alpha, beta, n, x), x)


def regular(x, dim):
    if dim == 2:
        return x[1] != 1
    if dim == 3:
        return x[1] + x[2] != 0 and x[2] != 1
    return True


def r_onb(dim: "1..3", n: "0..3", x: "arr:3 real"):
    b = orthonormal_basis_for_space(PN(dim, n), Simplex(dim))
    return [list(g(x[:dim])) for g in b.gradients]


def s_onb(dim, n, x):
    if not regular(x, dim):
        return ANY
    b = orthonormal_basis_for_space(PN(dim, n), Simplex(dim))
    return [grad(f, x[:dim], dim) for f in b.functions]


def r_onb_derivatives(dim: "1..3", n: "0..2", axis: "0..2", x: "arr:3 real"):
    if axis >= dim:
        return None
    b = orthonormal_basis_for_space(PN(dim, n), Simplex(dim))
    return [d(x[:dim]) for d in b.derivatives(axis)]


def s_onb_derivatives(dim, n, axis, x):
    if axis >= dim:
        return None
    if not regular(x, dim):
        return ANY
    b = orthonormal_basis_for_space(PN(dim, n), Simplex(dim))
    return [D(f(x[:dim]), x[axis]) for f in b.functions]


def r_monomial(dim: "1..4", n: "0..3", x: "arr:4 real"):
    b = monomial_basis_for_space(PN(dim, n), Simplex(dim))
    return ([list(g(x[:dim])) for g in b.gradients], [[d(x[:dim]) for d in b.derivatives(a)] for a in range(dim)])


def s_monomial(dim, n, x):
    b = monomial_basis_for_space(PN(dim, n), Simplex(dim))
    return ([grad(f, x[:dim], dim) for f in b.functions],
            [[D(f(x[:dim]), x[a]) for f in b.functions] for a in range(dim)])


def r_monomial_any(i: "nat", j: "nat", k: "nat", x: "arr:3 real"):
    m = (i, j, k)
    return (list(grad_monomial(m, x)), [diff_monomial(m, a, x) for a in range(3)])


def s_monomial_any(i, j, k, x):
    v = monomial((i, j, k), x)
    g = [D(v, x[a]) for a in range(3)]
    return (g, g)


# tensor products --------------------------------------------------------------------------------------

def spaces(kind, n):
    if kind == 0:
        return QN(2, n), Hypercube(2)
    if kind == 1:
        return QN(3, n), Hypercube(3)
    if kind == 2:
        return (TensorProductSpace((PN(2, n), PN(1, n + 1))), TensorProductShape((Simplex(2), Simplex(1))))
    if kind == 3:
        return (TensorProductSpace((PN(1, n), PN(2, n))), TensorProductShape((Simplex(1), Simplex(2))))
    return (TensorProductSpace((PN(1, n), PN(3, 1))), TensorProductShape((Simplex(1), Simplex(3))))


def tp_regular(kind, x):
    if kind == 2:
        return x[1] != 1
    if kind == 3:
        return x[2] != 1
    if kind == 4:
        return x[2] + x[3] != 0 and x[3] != 1
    return True


def r_tp(kind: "0..4", n: "0..2", x: "arr:4 real"):
    sp, sh = spaces(kind, n)
    dim = sp.spatial_dim
    b = basis_for_space(sp, sh)
    return ([list(g(x[:dim])) for g in b.gradients],
            [[d(x[:dim]) for d in b.derivatives(a)] for a in range(dim)])


def s_tp(kind, n, x):
    if not tp_regular(kind, x):
        return ANY
    sp, sh = spaces(kind, n)
    dim = sp.spatial_dim
    b = basis_for_space(sp, sh)
    return ([grad(f, x[:dim], dim) for f in b.functions],
            [[D(f(x[:dim]), x[a]) for f in b.functions] for a in range(dim)])


def r_tp_monomial(kind: "0..4", n: "0..2", x: "arr:4 real"):
    sp, sh = spaces(kind, n)
    dim = sp.spatial_dim
    b = monomial_basis_for_space(sp, sh)
    return ([list(g(x[:dim])) for g in b.gradients],
            [[d(x[:dim]) for d in b.derivatives(a)] for a in range(dim)])


def s_tp_monomial(kind, n, x):
    sp, sh = spaces(kind, n)
    dim = sp.spatial_dim
    b = monomial_basis_for_space(sp, sh)
    return ([grad(f, x[:dim], dim) for f in b.functions],
            [[D(f(x[:dim]), x[a]) for f in b.functions] for a in range(dim)])


def mixed(kind):
    if kind == 0:
        return (TensorProductSpace((PN(1, 1), PN(2, 1), PN(1, 0))),
                TensorProductShape((Simplex(1), Simplex(2), Hypercube(1))))
    return (TensorProductSpace((PN(1, 1), PN(1, 1), PN(2, 1))),
            TensorProductShape((Hypercube(1), Simplex(1), Simplex(2))))


def r_tp_mixed(kind: "0..1", ortho: "lit False,True", x: "arr:4 real"):
    sp, sh = mixed(kind)
    b = basis_for_space(sp, sh) if ortho else monomial_basis_for_space(sp, sh)
    return ([list(g(x)) for g in b.gradients], [[d(x) for d in b.derivatives(a)] for a in range(4)])


def s_tp_mixed(kind, ortho, x):
    if ortho and x[2 if kind == 0 else 3] == 1:
        return ANY
    sp, sh = mixed(kind)
    b = basis_for_space(sp, sh) if ortho else monomial_basis_for_space(sp, sh)
    return ([grad(f, x, 4) for f in b.functions], [[D(f(x), x[a]) for f in b.functions] for a in range(4)])


# singular points of the collapsed coordinates: the derivative of the polynomial ------------------------

def coef(n, al, m):
    from math import gamma, factorial
    norm2 = (2**(al + 1) / (2*n + al + 1) * gamma(n + al + 1) * gamma(n + 1) / (gamma(n + al + 1) * factorial(n)))
    r = 1
    for i in range(m):
        r = r * (n + al + 1 + i)
    return gamma(n + al + 1) * r / (factorial(m) * factorial(n - m) * gamma(al + m + 1)) / sqrt(norm2)


def homog(n, al, u, v):
    # v^n P_n^(al,0)(2 u/v - 1) written without division
    return sum(coef(n, al, m) * (u - v)**m * v**(n - m) for m in range(n + 1))


def poly_2d(i, j, r, s):
    return sqrt(2) * homog(i, 0, 1 + r, 1 - s) * homog(j, 2*i + 1, 1 + s, 2)/2**j


def poly_3d(i, j, k, r, s, t):
    return (2*sqrt(2) * 2**i * homog(i, 0, 1 + r, -s - t) * homog(j, 2*i + 1, 1 + s, 1 - t)
            * homog(k, 2*(i + j) + 2, 1 + t, 2)/2**k)


def r_singular_2d(i: "0..4", j: "0..3", x: "arr:2 real"):
    return (pkdo_2d((i, j), x), list(grad_pkdo_2d((i, j), x)))


def s_singular_2d(i, j, x):
    if x[1] == 1 and x[0] == -1:
        v = poly_2d(i, j, x[0], x[1])
        return (v, [D(v, x[0]), D(v, x[1])])
    return ANY


def r_singular_3d(i: "0..3", j: "0..2", k: "0..2", x: "arr:3 real"):
    return (pkdo_3d((i, j, k), x), list(grad_pkdo_3d((i, j, k), x)))


def s_singular_3d(i, j, k, x):
    if (x[2] == 1 and x[1] == -1 or x[1] + x[2] == 0) and x[0] == -1:
        v = poly_3d(i, j, k, x[0], x[1], x[2])
        return (v, [D(v, x[0]), D(v, x[1]), D(v, x[2])])
    return ANY
