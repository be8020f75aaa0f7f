"""Declared exactness and node counts of the rules are those of their family."""
import numpy as np
from modepy.quadrature import (Quadrature, ZeroDimensionalQuadrature, Transformed1DQuadrature, TensorProductQuadrature,
                               LegendreGaussTensorProductQuadrature, LegendreGaussLobattoTensorProductQuadrature, inf)
from modepy.quadrature.jacobi_gauss import (JacobiGaussQuadrature, LegendreGaussQuadrature, ChebyshevGaussQuadrature,
                                            GaussGegenbauerQuadrature, JacobiGaussLobattoQuadrature,
                                            LegendreGaussLobattoQuadrature)
from modepy.quadrature.clenshaw_curtis import ClenshawCurtisQuadrature, FejerQuadrature
from modepy.quadrature.grundmann_moeller import GrundmannMoellerSimplexQuadrature
from modepy.quadrature.kronrod import make_kronrod_quadrature
from modepy.quadrature.transplanted import (map_identity, map_sausage, transplanted_1d_quadrature,
                                            transplanted_legendre_gauss_quadrature)
from modepy.quadrature.xiao_gimbutas import XiaoGimbutasSimplexQuadrature
from modepy.quadrature.vioreanu_rokhlin import VioreanuRokhlinSimplexQuadrature
from modepy.quadrature.witherden_vincent import WitherdenVincentQuadrature
from modepy.quadrature.jaskowiec_sukumar import JaskowiecSukumarQuadrature
from speclib import ANY

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]
KEEP_kronrod = ["modepy.quadrature.kronrod.kronrod"]


class Fun:
    def __call__(self, s):
        return s * 2, s * 3


# {{{ one dimension

def r_gauss(alpha: "jac", beta: "jac", n: "nat", backend: "lit None,'builtin','scipy'"):
    return JacobiGaussQuadrature(alpha, beta, n, backend, force_dim_axis=True).exact_to


def s_gauss(alpha, beta, n, backend):
    return 2 * n + 1


def r_legendre(n: "nat", backend: "lit None,'builtin','scipy'"):
    return LegendreGaussQuadrature(n, backend=backend, force_dim_axis=True).exact_to


def s_legendre(n, backend):
    return 2 * n + 1


def r_chebyshev(n: "nat", kind: "1..2", backend: "lit None,'builtin','scipy'"):
    return ChebyshevGaussQuadrature(n, kind, backend=backend, force_dim_axis=True).exact_to


def s_chebyshev(n, kind, backend):
    return 2 * n + 1


def r_gegenbauer(alpha: "jac", n: "nat", backend: "lit None,'builtin','scipy'"):
    return GaussGegenbauerQuadrature(alpha, n, backend=backend, force_dim_axis=True).exact_to


def s_gegenbauer(alpha, n, backend):
    return 2 * n + 1


def r_lobatto(alpha: "jac", beta: "jac", n: "pos|1..3", backend: "lit None,'builtin','scipy'"):
    return JacobiGaussLobattoQuadrature(alpha, beta, n, backend=backend, force_dim_axis=True).exact_to


def s_lobatto(alpha, beta, n, backend):
    return 2 * n - 1


def r_legendre_lobatto(n: "pos|1..3", backend: "lit None,'builtin','scipy'"):
    return LegendreGaussLobattoQuadrature(n, backend=backend, force_dim_axis=True).exact_to


def s_legendre_lobatto(n, backend):
    return 2 * n - 1


def r_clenshaw_curtis(n: "pos|1..4"):
    return ClenshawCurtisQuadrature(n, force_dim_axis=True).exact_to


def s_clenshaw_curtis(n):
    return n


def r_fejer(n: "2..6", kind: "1..2"):
    return FejerQuadrature(n, kind, force_dim_axis=True).exact_to


def s_fejer(n, kind):
    raise AttributeError


def r_kronrod(n: "1..8"):
    q = make_kronrod_quadrature(n)
    return (q.exact_to, q.gauss_quadrature.exact_to, q.nodes.shape, q.weights.shape, q.weights_at_gauss_nodes.shape,
            q.gauss_quadrature.nodes.shape, q.gauss_quadrature.weights.shape, q.dim)


def s_kronrod(n):
    return (3 * n + 1, 2 * n - 1, (n + 1,), (n + 1,), (n,), (n,), (n,), 1)

# }}}


# {{{ any dimension

def r_plain(x: "vec n", w: "vec n", d: "nat"):
    return (Quadrature(x, w, d).exact_to, Quadrature(x, w, exact_to=d).exact_to, Quadrature(x, w, d).dim)


def s_plain(x, w, d):
    return (d, d, 1)


def r_plain_nd(x: "mat m n", w: "vec n", d: "nat"):
    return (Quadrature(x, w, d).exact_to, Quadrature(x, w, d).dim)


def s_plain_nd(x, w, d):
    return (d, x.shape[0])


def r_undefined(x: "vec n", w: "vec n"):
    return Quadrature(x, w).exact_to


def s_undefined(x, w):
    raise AttributeError


def r_zero():
    q = ZeroDimensionalQuadrature()
    return (q.exact_to, q.dim, q.nodes.shape, q.weights.shape, q.weights[0])


def s_zero():
    return (inf, 0, (0, 1), (1,), 1)


def r_grundmann(s: "0..3", n: "1..3"):
    q = GrundmannMoellerSimplexQuadrature(s, n)
    return (q.exact_to, q.dim)


def s_grundmann(s, n):
    return (2 * s + 1, n)


def r_grundmann_zero(s: "nat"):
    q = GrundmannMoellerSimplexQuadrature(s, 0)
    return (q.exact_to, q.dim, q.nodes.shape, q.weights[0])


def s_grundmann_zero(s):
    return (inf, 0, (0, 1), 1)

# }}}


# {{{ derived rules

def r_transformed(x: "vec n", w: "vec n", d: "nat", a: "real", b: "real"):
    return Transformed1DQuadrature(Quadrature(x, w, d), a, b).exact_to


def s_transformed(x, w, d, a, b):
    if b <= a:
        raise ValueError
    return d


def r_transformed_undefined(x: "vec n", w: "vec n", a: "real", b: "real"):
    return Transformed1DQuadrature(Quadrature(x, w), a, b).exact_to


def s_transformed_undefined(x, w, a, b):
    if b <= a:
        raise ValueError
    raise AttributeError


def rules(k, x, w, d):
    return [Quadrature(x[i], w[i], d[i]) for i in range(k)]


def r_tensor(k: "1..3", x: "tup:3 vec 2", w: "tup:3 vec 2", d: "tup:3 nat"):
    return TensorProductQuadrature(rules(k, x, w, d)).exact_to


def s_tensor(k, x, w, d):
    return min(d[:k])


def r_tensor_undefined(k: "1..3", j: "0..2", x: "tup:3 vec 2", w: "tup:3 vec 2", d: "tup:3 nat"):
    qs = [Quadrature(x[i], w[i]) if i == j else Quadrature(x[i], w[i], d[i]) for i in range(k)]
    return TensorProductQuadrature(qs).exact_to


def s_tensor_undefined(k, j, x, w, d):
    if j < k:
        raise AttributeError
    return min(d[:k])


def r_tensor_empty():
    q = TensorProductQuadrature([])
    return (q.exact_to, q.dim)


def s_tensor_empty():
    return (inf, 0)


def r_tensor_zero(x: "vec 2", w: "vec 2", d: "nat", first: "lit False,True"):
    z, q = TensorProductQuadrature([]), Quadrature(x, w, d)
    return TensorProductQuadrature([z, q] if first else [q, z]).exact_to


def s_tensor_zero(x, w, d, first):
    return d


def r_tensor_zeros(first: "lit False,True"):
    z, e = ZeroDimensionalQuadrature(), TensorProductQuadrature([])
    return TensorProductQuadrature([z, e] if first else [e, z]).exact_to


def s_tensor_zeros(first):
    return inf


def r_transplanted(x: "vec n", w: "vec n", d: "nat"):
    return transplanted_1d_quadrature(Quadrature(x, w, d), map_identity).exact_to


def s_transplanted(x, w, d):
    return d


def r_transplanted_undefined(x: "vec n", w: "vec n"):
    return transplanted_1d_quadrature(Quadrature(x, w), map_identity).exact_to


def s_transplanted_undefined(x, w):
    raise AttributeError


def r_transplanted_other(x: "vec n", w: "vec n", d: "nat"):
    return transplanted_1d_quadrature(Quadrature(x, w, d), Fun()).exact_to


def s_transplanted_other(x, w, d):
    raise AttributeError

# }}}
