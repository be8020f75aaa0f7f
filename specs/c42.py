"""One-dimensional rules honour the requested layout of the node array."""
import numpy as np
from modepy.quadrature import Quadrature, Transformed1DQuadrature
from modepy.quadrature.clenshaw_curtis import ClenshawCurtisQuadrature, FejerQuadrature
from modepy.quadrature.jacobi_gauss import (ChebyshevGaussQuadrature, GaussGegenbauerQuadrature, JacobiGaussLobattoQuadrature,
                                            JacobiGaussQuadrature, LegendreGaussLobattoQuadrature, LegendreGaussQuadrature,
                                            jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes)
from modepy.quadrature.transplanted import map_identity, transplanted_1d_quadrature, transplanted_legendre_gauss_quadrature

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]


def layout(q, flat):
    """shapes and whether the node values agree with those of the other layout"""
    return (q.nodes.shape, q.weights.shape, q.dim, list(q.nodes) if flat else list(q.nodes[0]), list(q.weights))


def required(flat, other):
    """the layout, with the values of the rule in the other layout"""
    n = len(other.weights)
    return ((n,) if flat else (1, n), (n,), 1, list(other.nodes[0]) if flat else list(other.nodes), list(other.weights))


def r_jacobi(n: "0..4", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(JacobiGaussQuadrature(alpha, beta, n, backend, not flat), flat)


def s_jacobi(n, alpha, beta, backend, flat):
    return required(flat, JacobiGaussQuadrature(alpha, beta, n, backend, flat))


def r_legendre(n: "0..4", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(LegendreGaussQuadrature(n, backend=backend, force_dim_axis=not flat), flat)


def s_legendre(n, backend, flat):
    return required(flat, LegendreGaussQuadrature(n, backend=backend, force_dim_axis=flat))


def r_chebyshev(n: "0..4", kind: "1..2", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(ChebyshevGaussQuadrature(n, kind, backend=backend, force_dim_axis=not flat), flat)


def s_chebyshev(n, kind, backend, flat):
    return required(flat, ChebyshevGaussQuadrature(n, kind, backend=backend, force_dim_axis=flat))


def r_gegenbauer(n: "0..4", alpha: "jac", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(GaussGegenbauerQuadrature(alpha, n, backend=backend, force_dim_axis=not flat), flat)


def s_gegenbauer(n, alpha, backend, flat):
    return required(flat, GaussGegenbauerQuadrature(alpha, n, backend=backend, force_dim_axis=flat))


def r_lobatto(n: "1..4", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(JacobiGaussLobattoQuadrature(0, 0, n, backend=backend, force_dim_axis=not flat), flat)


def s_lobatto(n, backend, flat):
    return required(flat, JacobiGaussLobattoQuadrature(0, 0, n, backend=backend, force_dim_axis=flat))


def r_legendre_lobatto(n: "1..4", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    return layout(LegendreGaussLobattoQuadrature(n, backend=backend, force_dim_axis=not flat), flat)


def s_legendre_lobatto(n, backend, flat):
    return required(flat, LegendreGaussLobattoQuadrature(n, backend=backend, force_dim_axis=flat))


def r_lobatto_nodes(n: "0..4", alpha: "jac", beta: "jac", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    x = jacobi_gauss_lobatto_nodes(alpha, beta, n, backend, force_dim_axis=not flat)
    return (x.shape, list(x) if flat else list(x[0]))


def s_lobatto_nodes(n, alpha, beta, backend, flat):
    x = jacobi_gauss_lobatto_nodes(alpha, beta, n, backend, force_dim_axis=flat)
    return ((n + 1,) if flat else (1, n + 1), list(x[0]) if flat else list(x))


def r_legendre_lobatto_nodes(n: "0..4", backend: "lit None,'builtin','scipy'", flat: "lit False,True"):
    x = legendre_gauss_lobatto_nodes(n, backend, force_dim_axis=not flat)
    return (x.shape, list(x) if flat else list(x[0]))


def s_legendre_lobatto_nodes(n, backend, flat):
    x = legendre_gauss_lobatto_nodes(n, backend, force_dim_axis=flat)
    return ((n + 1,) if flat else (1, n + 1), list(x[0]) if flat else list(x))


def r_clenshaw_curtis(n: "1..6", flat: "lit False,True"):
    return layout(ClenshawCurtisQuadrature(n, force_dim_axis=not flat), flat)


def s_clenshaw_curtis(n, flat):
    return required(flat, ClenshawCurtisQuadrature(n, force_dim_axis=flat))


def r_fejer(n: "2..6", kind: "1..2", flat: "lit False,True"):
    return layout(FejerQuadrature(n, kind, force_dim_axis=not flat), flat)


def s_fejer(n, kind, flat):
    return required(flat, FejerQuadrature(n, kind, force_dim_axis=flat))


def r_transplanted(n: "0..3", flat: "lit False,True"):
    return layout(transplanted_legendre_gauss_quadrature(n, map_identity, force_dim_axis=not flat), flat)


def s_transplanted(n, flat):
    return required(flat, transplanted_legendre_gauss_quadrature(n, map_identity, force_dim_axis=flat))


def r_transformed(x: "tup:3 real", w: "tup:3 real", flat: "lit False,True"):
    x = np.array(x)
    return layout(Transformed1DQuadrature(Quadrature(x if flat else x.reshape(1, -1), np.array(w)), -1, 3), flat)


def s_transformed(x, w, flat):
    x = np.array(x)
    return required(flat, Transformed1DQuadrature(Quadrature(x.reshape(1, -1) if flat else x, np.array(w)), -1, 3))
