"""Gauss-Jacobi rules come from the recurrence of the Jacobi polynomials (Golub-Welsch)."""
from math import gamma, pi, sqrt
import numpy as np
import numpy.linalg as la
from modepy.quadrature.jacobi_gauss import (ChebyshevGaussQuadrature, GaussGegenbauerQuadrature, JacobiGaussQuadrature,
                                            LegendreGaussQuadrature)
from scipy.special import roots_jacobi
from speclib import ANY

KEEP_rule = KEEP_legendre = KEEP_chebyshev = KEEP_gegenbauer = KEEP_attributes = KEEP_backend = [
    "modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]


def special(alpha, beta):
    """the cases the built-in back end treats apart, up to the rounding it allows for"""
    return (abs(alpha + 0.5) < 1.0e-14 and abs(beta + 0.5) < 1.0e-14) or abs(alpha + beta + 1.0) < 1.0e-14


def recurrence(n, a, b):
    """x p_k = o_k p_(k-1) + d_k p_k + o_(k+1) p_(k+1) for the orthonormal Jacobi polynomials"""
    d = [(b - a) / (a + b + 2)]
    for k in range(1, n + 1):
        d.append((b**2 - a**2) / ((2 * k + a + b) * (2 * k + a + b + 2)))
    o = [0]
    for k in range(1, n + 1):
        if k == 1:
            o.append(2 / (2 + a + b) * np.sqrt((1 + a) * (1 + b) / (3 + a + b)))
        else:
            o.append(2 / (2 * k + a + b) * np.sqrt(k * (k + a + b) * (k + a) * (k + b) / ((2 * k + a + b - 1) * (2 * k + a + b + 1))))
    t = np.zeros((n + 1, n + 1))
    for k in range(n + 1):
        t[k, k] = d[k]
        if k:
            t[k, k - 1] = o[k]
            t[k - 1, k] = o[k]
    return t


def mass(a, b):
    return 2**(a + b + 1) * gamma(a + 1) * gamma(b + 1) / (gamma(a + b + 1) * (a + b + 1))


# {{{ Golub-Welsch

def r_nodes(n: "0..6", alpha: "jac", beta: "jac"):
    if special(alpha, beta):
        return 0
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, alpha, beta)[0]


def s_nodes(n, alpha, beta):
    if special(alpha, beta):
        return 0
    return la.eigh(recurrence(n, alpha, beta))[0]


def r_weights(n: "0..6", alpha: "jac", beta: "jac"):
    if special(alpha, beta):
        return 0
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, alpha, beta)[1]


def s_weights(n, alpha, beta):
    if special(alpha, beta):
        return 0
    v = la.eigh(recurrence(n, alpha, beta))[1]
    return np.array([v[0, i]**2 * mass(alpha, beta) for i in range(n + 1)])


def r_legendre_nodes(n: "0..8"):
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, 0, 0)


def s_legendre_nodes(n):
    t = np.zeros((n + 1, n + 1))
    for k in range(1, n + 1):
        t[k, k - 1] = k / sqrt(4 * k**2 - 1)
    e, v = la.eigh(t)
    return e, np.array([2 * v[0, i]**2 for i in range(n + 1)])


def r_chebyshev_first(n: "0..8"):
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, -0.5, -0.5)


def s_chebyshev_first(n):
    return (np.array([-np.cos(pi * (2 * k + 1) / (2 * n + 2)) for k in range(n + 1)]), np.array([pi / (n + 1) for k in range(n + 1)]))


def r_excluded(n: "0..3", alpha: "jac", beta: "jac"):
    if abs(alpha + beta + 1.0) >= 1.0e-14 or abs(alpha + 0.5) < 1.0e-14 and abs(beta + 0.5) < 1.0e-14:
        raise ValueError
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, alpha, beta)


def s_excluded(n, alpha, beta):
    raise ValueError

# }}}


# {{{ the rules

HEADS_rule = HEADS_legendre = HEADS_chebyshev = HEADS_gegenbauer = HEADS_product = [
    "modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes", "scipy.special.roots_jacobi", "call", "proj"]


def backend_rule(n, alpha, beta, backend):
    if backend == "scipy":
        return roots_jacobi(n + 1, alpha, beta)
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, alpha, beta)


def r_rule(n: "0..4", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", force_dim_axis: "lit False,True"):
    q = JacobiGaussQuadrature(alpha, beta, n, backend, force_dim_axis)
    return (q.nodes.shape, q.nodes[0] if force_dim_axis else q.nodes, q.weights)


def s_rule(n, alpha, beta, backend, force_dim_axis):
    x, w = backend_rule(n, alpha, beta, backend)
    return ((1, n + 1) if force_dim_axis else (n + 1,), x, w)


def r_legendre(n: "0..4", backend: "lit None,'builtin','scipy'"):
    q = LegendreGaussQuadrature(n, backend=backend, force_dim_axis=True)
    return (q.nodes[0], q.weights)


def s_legendre(n, backend):
    return backend_rule(n, 0, 0, backend)


def r_chebyshev(n: "0..4", kind: "1..2", backend: "lit None,'builtin','scipy'"):
    q = ChebyshevGaussQuadrature(n, kind, backend=backend, force_dim_axis=True)
    return (q.nodes[0], q.weights)


def s_chebyshev(n, kind, backend):
    a = -1 / 2 if kind == 1 else 1 / 2
    return backend_rule(n, a, a, backend)


def r_chebyshev_kind(n: "0..2", kind: "-1,0,3,4"):
    return ChebyshevGaussQuadrature(n, kind, force_dim_axis=True)


def s_chebyshev_kind(n, kind):
    raise ValueError


def r_gegenbauer(n: "0..4", alpha: "jac", backend: "lit None,'builtin','scipy'"):
    q = GaussGegenbauerQuadrature(alpha, n, backend=backend, force_dim_axis=True)
    return (q.nodes[0], q.weights)


def s_gegenbauer(n, alpha, backend):
    return backend_rule(n, alpha, alpha, backend)


def r_attributes(n: "0..2", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'"):
    q = JacobiGaussQuadrature(alpha, beta, n, backend, True)
    return (q.alpha, q.beta)


def s_attributes(n, alpha, beta, backend):
    return (alpha, beta)


def r_backend(n: "0..2", backend: "lit 'other','Builtin',''"):
    return LegendreGaussQuadrature(n, backend=backend, force_dim_axis=True)


def s_backend(n, backend):
    raise NotImplementedError

# }}}


# {{{ tensor product rules

from modepy.quadrature import LegendreGaussTensorProductQuadrature, LegendreGaussLobattoTensorProductQuadrature
from modepy.quadrature.jacobi_gauss import LegendreGaussLobattoQuadrature

KEEP_product = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]


def r_product(n: "1..3", dims: "1..2", backend: "lit None,'builtin','scipy'"):
    q = LegendreGaussTensorProductQuadrature(n, dims, backend)
    return [(p.nodes[0], p.weights) for p in q.quadratures]


def s_product(n, dims, backend):
    x, w = backend_rule(n, 0, 0, backend)
    return [(x, w) for _ in range(dims)]


def r_product_lobatto(n: "2..3", dims: "1..2", backend: "lit None,'builtin','scipy'"):
    q = LegendreGaussLobattoTensorProductQuadrature(n, dims, backend)
    return [p.nodes[0] for p in q.quadratures]


KEEP_product_lobatto = KEEP_product


def s_product_lobatto(n, dims, backend):
    x = LegendreGaussLobattoQuadrature(n, backend=backend, force_dim_axis=True).nodes[0]
    return [x for _ in range(dims)]

# }}}

HEADS_product = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes", "scipy.special.roots_jacobi"]
HEADS_product_lobatto = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes", "scipy.special.roots_jacobi", "numpy.linalg.eigh"]
