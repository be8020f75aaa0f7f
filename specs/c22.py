"""Gauss-Lobatto rules have endpoint nodes and the exact Lobatto weights.

Gauss-Jacobi nodes are interpreted as the roots of the Jacobi polynomial (over a prime field), so that the moments of the
rules can be compared with the moments of the weight, however the weights are written."""
from math import gamma
import numpy as np
from modepy.quadrature.jacobi_gauss import (JacobiGaussLobattoQuadrature, JacobiGaussQuadrature, LegendreGaussLobattoQuadrature,
                                            jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes)
from scipy.special import roots_jacobi

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]
HEADS = ["proj", "call", "entry", "modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]
GAUSS_moments = GAUSS_legendre_moments = GAUSS_gegenbauer_moments = GAUSS_edges = ["on"]


def inner(n, alpha, beta, backend):
    if backend == "scipy":
        return roots_jacobi(n + 1, alpha, beta)[0]
    return JacobiGaussQuadrature.compute_weights_and_nodes(n, alpha, beta)[0]


# {{{ nodes

def r_nodes(n: "1..5", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", force_dim_axis: "lit False,True"):
    x = jacobi_gauss_lobatto_nodes(alpha, beta, n, backend, force_dim_axis)
    return (x.shape, list(x[0]) if force_dim_axis else list(x))


def s_nodes(n, alpha, beta, backend, force_dim_axis):
    x = [-1]
    if n > 1:
        x = x + [np.real(y) for y in inner(n - 2, alpha + 1, beta + 1, backend)]
    return ((1, n + 1) if force_dim_axis else (n + 1,), x + [1])


def r_single(alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'"):
    x = jacobi_gauss_lobatto_nodes(alpha, beta, 0, backend)
    return (x.shape, x[0])


def s_single(alpha, beta, backend):
    return ((1,), 0)


def r_legendre_nodes(n: "0..5", backend: "lit None,'builtin','scipy'"):
    return list(legendre_gauss_lobatto_nodes(n, backend))


def s_legendre_nodes(n, backend):
    return list(jacobi_gauss_lobatto_nodes(0, 0, n, backend))


def r_rule_nodes(n: "1..5", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", force_dim_axis: "lit False,True"):
    q = JacobiGaussLobattoQuadrature(alpha, beta, n, backend=backend, force_dim_axis=force_dim_axis)
    return (q.nodes.shape, q.nodes[0] if force_dim_axis else q.nodes, q.weights.shape)


def s_rule_nodes(n, alpha, beta, backend, force_dim_axis):
    return ((1, n + 1) if force_dim_axis else (n + 1,), jacobi_gauss_lobatto_nodes(alpha, beta, n, backend), (n + 1,))

# }}}


# {{{ weights

def moment(a, b, k):
    """integral of (1+x)^k (1-x)^a (1+x)^b"""
    return 2**(a + b + k + 1) * gamma(a + 1) * gamma(b + k + 1) / gamma(a + b + k + 2)


def r_moments(n: "1..3", alpha: "jac", beta: "jac", k: "0..5"):
    if k > 2 * n - 1 or alpha + beta + 1 == 0:
        return 0
    q = JacobiGaussLobattoQuadrature(alpha, beta, n, force_dim_axis=True)
    return sum([q.weights[i] * (1 + np.real(q.nodes[0, i]))**k for i in range(n + 1)])


def s_moments(n, alpha, beta, k):
    if k > 2 * n - 1 or alpha + beta + 1 == 0:
        return 0
    return moment(alpha, beta, k)


def r_gegenbauer_moments(n: "1..4", alpha: "jac", k: "0..7"):
    if k > 2 * n - 1 or 2 * alpha + 1 == 0:
        return 0
    q = JacobiGaussLobattoQuadrature(alpha, alpha, n, force_dim_axis=True)
    return sum([q.weights[i] * (1 + np.real(q.nodes[0, i]))**k for i in range(n + 1)])


def s_gegenbauer_moments(n, alpha, k):
    if k > 2 * n - 1 or 2 * alpha + 1 == 0:
        return 0
    return moment(alpha, alpha, k)


def r_legendre_moments(n: "1..4", k: "0..7"):
    if k > 2 * n - 1:
        return 0
    q = LegendreGaussLobattoQuadrature(n, force_dim_axis=True)
    return sum([q.weights[i] * (1 + np.real(q.nodes[0, i]))**k for i in range(n + 1)])


def s_legendre_moments(n, k):
    if k > 2 * n - 1:
        return 0
    return 2**(k + 1) / (k + 1)


def r_edges(n: "1..3", alpha: "jac", beta: "jac"):
    """the weights of the end points are those of the mirrored rule"""
    if alpha + beta + 1 == 0:
        return 0
    q = JacobiGaussLobattoQuadrature(alpha, beta, n, force_dim_axis=True)
    return (q.weights[0], q.weights[n])


def s_edges(n, alpha, beta):
    if alpha + beta + 1 == 0:
        return 0
    q = JacobiGaussLobattoQuadrature(beta, alpha, n, force_dim_axis=True)
    return (q.weights[n], q.weights[0])


def r_too_few(alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", force_dim_axis: "lit False,True"):
    return JacobiGaussLobattoQuadrature(alpha, beta, 0, backend=backend, force_dim_axis=force_dim_axis)


def s_too_few(alpha, beta, backend, force_dim_axis):
    raise ValueError


def r_legendre_rule(n: "1..4", backend: "lit None,'builtin','scipy'", force_dim_axis: "lit False,True"):
    q = LegendreGaussLobattoQuadrature(n, backend=backend, force_dim_axis=force_dim_axis)
    return (q.nodes, q.weights)


def s_legendre_rule(n, backend, force_dim_axis):
    q = JacobiGaussLobattoQuadrature(0, 0, n, backend=backend, force_dim_axis=force_dim_axis)
    return (q.nodes, q.weights)

# }}}
