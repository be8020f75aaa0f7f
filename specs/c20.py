"""quadrature_for_space returns a rule on the shape that is at least as exact as the order of the space."""
from modepy.quadrature import (Quadrature, QuadratureRuleUnavailable, TensorProductQuadrature, ZeroDimensionalQuadrature,
                               isinf, quadrature_for_space)
from modepy.quadrature.grundmann_moeller import GrundmannMoellerSimplexQuadrature
from modepy.quadrature.jacobi_gauss import LegendreGaussQuadrature
from modepy.quadrature.xiao_gimbutas import XiaoGimbutasSimplexQuadrature
from modepy.shapes import Face, Hypercube, Simplex, TensorProductShape
from modepy.spaces import PN, QN, FunctionSpace, TensorProductSpace, space_for_shape

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]


def exact(q, n):
    return isinf(q.exact_to) or q.exact_to >= n


# {{{ simplices

def r_point(n: "nat"):
    q = quadrature_for_space(PN(0, n), Simplex(0))
    return (isinf(q.exact_to), q.dim, q.nodes.shape, q.weights.shape, q.weights[0])


def s_point(n):
    return (True, 0, (0, 1), (1,), 1)


def r_segment(n: "nat"):
    q = quadrature_for_space(PN(1, n), Simplex(1))
    return (exact(q, n), q.dim, q.nodes.ndim, q.nodes.shape[0])


def s_segment(n):
    return (True, 1, 2, 1)


def r_segment_rule(n: "nat"):
    q = quadrature_for_space(PN(1, n), Simplex(1))
    if isinstance(q, LegendreGaussQuadrature):
        return (q.alpha, q.beta)
    return (0, 0)


def s_segment_rule(n):
    return (0, 0)


def r_triangle(n: "0..52"):
    return exact(quadrature_for_space(PN(2, n), Simplex(2)), n)


def s_triangle(n):
    return True


def r_triangle_rule(n: "0..52"):
    q = quadrature_for_space(PN(2, n), Simplex(2))
    try:
        XiaoGimbutasSimplexQuadrature(n, 2)
        ok = True
    except QuadratureRuleUnavailable:
        ok = isinstance(q, GrundmannMoellerSimplexQuadrature)
    return ok


def s_triangle_rule(n):
    return True


def r_tetrahedron(n: "0..20"):
    return exact(quadrature_for_space(PN(3, n), Simplex(3)), n)


def s_tetrahedron(n):
    return True


def r_tetrahedron_rule(n: "0..20"):
    q = quadrature_for_space(PN(3, n), Simplex(3))
    try:
        XiaoGimbutasSimplexQuadrature(n, 3)
        ok = True
    except QuadratureRuleUnavailable:
        ok = isinstance(q, GrundmannMoellerSimplexQuadrature)
    return ok


def s_tetrahedron_rule(n):
    return True


def r_higher(dim: "4..5", n: "0..7"):
    q = quadrature_for_space(PN(dim, n), Simplex(dim))
    return (exact(q, n), q.dim, isinstance(q, GrundmannMoellerSimplexQuadrature))


def s_higher(dim, n):
    return (True, dim, True)


def r_kinds(dim: "2..3", n: "1..3"):
    q = quadrature_for_space(PN(dim, n), Simplex(dim))
    return isinstance(q, Quadrature)


def s_kinds(dim, n):
    return True

# }}}


# {{{ tensor products

def factors(q, k):
    return list(q.quadratures) if isinstance(q, TensorProductQuadrature) else [q] * k


def r_square(m: "0..6", n: "0..6"):
    q = quadrature_for_space(TensorProductSpace((PN(1, m), PN(1, n))), Hypercube(2))
    return (q.dim, exact(q.quadratures[0], m), exact(q.quadratures[1], n), len(q.quadratures))


def s_square(m, n):
    return (2, True, True, 2)


def r_cube(l: "0..3", m: "0..3", n: "0..3"):
    q = quadrature_for_space(TensorProductSpace((PN(1, l), PN(1, m), PN(1, n))), Hypercube(3))
    return (q.dim, exact(q.quadratures[0], l), exact(q.quadratures[1], m), exact(q.quadratures[2], n), len(q.quadratures))


def s_cube(l, m, n):
    return (3, True, True, True, 3)


def r_qn(dim: "0..4", n: "0..6"):
    q = quadrature_for_space(QN(dim, n), Hypercube(dim))
    return (q.dim, exact(q, n))


def s_qn(dim, n):
    return (dim, True)


def r_qn_point(n: "nat"):
    q = quadrature_for_space(QN(0, n), Hypercube(0))
    return (isinf(q.exact_to), q.dim, q.nodes.shape, q.weights.shape, q.weights[0])


def s_qn_point(n):
    return (True, 0, (0, 1), (1,), 1)


def r_prism(m: "0..4", n: "0..4", dim: "2..3", first: "lit False,True"):
    spaces, shapes = (PN(dim, m), PN(1, n)), (Simplex(dim), Simplex(1))
    if first:
        spaces, shapes = spaces[::-1], shapes[::-1]
    q = quadrature_for_space(TensorProductSpace(spaces), TensorProductShape(shapes))
    a, b = q.quadratures
    return (exact(a, n if first else m), exact(b, m if first else n))


def s_prism(m, n, dim, first):
    return (True, True)

# }}}


# {{{ dispatch and rejection

def r_space_for_shape(dim: "1..3", n: "0..4", simplex: "lit False,True"):
    shape = Simplex(dim) if simplex else Hypercube(dim)
    return exact(quadrature_for_space(space_for_shape(shape, n), shape), n)


def s_space_for_shape(dim, n, simplex):
    return True


def r_mismatch(a: "0..5", b: "0..5", n: "0..2"):
    if a == b:
        raise ValueError
    return quadrature_for_space(PN(a, n), Simplex(b))


def s_mismatch(a, b, n):
    raise ValueError

# }}}
