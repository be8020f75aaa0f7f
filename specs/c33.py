"""Coordinate systems of the simplex, and affine maps."""
import math

import numpy as np
import numpy.linalg as la
from speclib import ANY, MAT

from modepy.shapes import Simplex, unit_vertices_for_shape
from modepy.tools import (EQUILATERAL_TO_UNIT_MAP, EQUILATERAL_VERTICES, AffineMap, barycentric_to_equilateral, barycentric_to_unit,
                          equilateral_to_unit, unit_to_barycentric)


# {{{ affine maps

def r_apply_batch(a: "tup:2 tup:2 real", b: "tup:2 real", x: "tup:2 tup:3 real"):
    """A x + b for a batch"""
    return AffineMap(np.array(a), np.array(b))(np.array(x))


def s_apply_batch(a, b, x):
    return np.array([[a[i][0] * x[0][k] + a[i][1] * x[1][k] + b[i] for k in range(3)] for i in range(2)])


def r_apply_square(a: "tup:2 tup:2 real", b: "tup:2 real", x: "tup:2 tup:2 real"):
    """as many points as dimensions"""
    return AffineMap(np.array(a), np.array(b))(np.array(x))


def s_apply_square(a, b, x):
    return np.array([[a[i][0] * x[0][k] + a[i][1] * x[1][k] + b[i] for k in range(2)] for i in range(2)])


def r_apply_point(a: "tup:3 tup:3 real", b: "tup:3 real", x: "tup:3 real"):
    """A x + b for a single point"""
    return AffineMap(np.array(a), np.array(b))(np.array(x))


def s_apply_point(a, b, x):
    return np.array([a[i][0] * x[0] + a[i][1] * x[1] + a[i][2] * x[2] + b[i] for i in range(3)])


def r_apply_lists(a: "tup:2 tup:2 real", b: "tup:2 real", x: "tup:2 real"):
    """maps given by lists"""
    return AffineMap([list(r) for r in a], list(b))(np.array(x))


def s_apply_lists(a, b, x):
    return np.array([a[i][0] * x[0] + a[i][1] * x[1] + b[i] for i in range(2)])


def r_apply_embed(a: "tup:3 tup:2 real", b: "tup:3 real", x: "tup:2 tup:2 real"):
    """maps into a larger space"""
    return AffineMap(np.array(a), np.array(b))(np.array(x))


def s_apply_embed(a, b, x):
    return np.array([[a[i][0] * x[0][k] + a[i][1] * x[1][k] + b[i] for k in range(2)] for i in range(3)])


def r_jacobian(a: "mat d d", b: "vec d"):
    return AffineMap(a, b).jacobian


def s_jacobian(a, b):
    return la.det(a)


def r_jacobian2(a: "tup:2 tup:2 real", b: "tup:2 real"):
    m = AffineMap(np.array(a), np.array(b))
    return m.jacobian, m.jacobian


def s_jacobian2(a, b):
    return la.det(np.array(a)), la.det(np.array(a))


def r_inverse(a: "mat d d", b: "vec d"):
    """the inverse map has matrix A^-1 and offset -A^-1 b"""
    m = AffineMap(a, b).inverse
    return m.a, m.b


def s_inverse(a, b):
    return la.inv(a), -(la.inv(a) @ b)


def r_inverse_applied(a: "mat d d", b: "vec d", x: "vec d"):
    """the inverse undoes the map"""
    m = AffineMap(a, b)
    return m.inverse(x)


def s_inverse_applied(a, b, x):
    return la.inv(a) @ x - la.inv(a) @ b


def r_inverse_jacobian(a: "mat d d", b: "vec d"):
    return AffineMap(a, b).inverse.jacobian


def s_inverse_jacobian(a, b):
    return la.det(la.inv(a))

# }}}


# {{{ simplex coordinates

def r_vertices(d: "1..3"):
    """the equilateral vertices go to the unit vertices, in order"""
    return equilateral_to_unit(EQUILATERAL_VERTICES[d].T)


def s_vertices(d):
    return np.array([[1 if k == i + 1 else -1 for k in range(d + 1)] for i in range(d)])


def r_equilateral(d: "1..3"):
    """all edges of the equilateral simplex have length two, and its vertices add up to zero"""
    v = EQUILATERAL_VERTICES[d]
    return [sum((v[i, k] - v[j, k])**2 for k in range(d)) for i in range(d + 1) for j in range(d + 1)], [sum(v[i, k] for i in range(d + 1)) for k in range(d)]


def s_equilateral(d):
    return [0 if i == j else 4 for i in range(d + 1) for j in range(d + 1)], [0 for k in range(d)]


def r_tables(d: "1..3"):
    """the tables cover dimensions one to three"""
    return EQUILATERAL_TO_UNIT_MAP[d].a.shape, EQUILATERAL_TO_UNIT_MAP[d].b.shape, EQUILATERAL_VERTICES[d].shape


def s_tables(d):
    return (d, d), (d,), (d + 1, d)


def point(d, l, n):
    """barycentric coordinates of n points"""
    return np.array([l[0][:n], l[1][:n], l[2][:n], l[3][:n]][:d + 1])


def r_bary_unit(d: "1..3", l: "tup:4 tup:2 real"):
    """the combination of the unit vertices, the first coordinate belonging to (-1, ..., -1)"""
    return barycentric_to_unit(point(d, l, 2))


def s_bary_unit(d, l):
    return np.array([[sum((1 if v == i + 1 else -1) * l[v][k] for v in range(d + 1)) for k in range(2)] for i in range(d)])


def r_bary_equi(d: "1..3", l: "tup:4 tup:2 real"):
    """the combination of the equilateral vertices"""
    return barycentric_to_equilateral(point(d, l, 2))


def s_bary_equi(d, l):
    s3, s6 = math.sqrt(3), math.sqrt(6)
    v = [[[-1], [1]],
         [[-1, -1/s3], [1, -1/s3], [0, 2/s3]],
         [[-1, -1/s3, -1/s6], [1, -1/s3, -1/s6], [0, 2/s3, -1/s6], [0, 0, 3/s6]]][d - 1]
    return np.array([[sum(v[j][i] * l[j][k] for j in range(d + 1)) for k in range(2)] for i in range(d)])


def r_unit_bary(d: "1..3", x: "tup:3 tup:2 real"):
    """unit to barycentric: (1 + x_i)/2, and the first coordinate completes the sum to one"""
    return unit_to_barycentric(np.array([x[0], x[1], x[2]][:d]))


def s_unit_bary(d, x):
    y = [[(1 + x[i][k]) / 2 for k in range(2)] for i in range(d)]
    return np.array([[1 - sum(y[i][k] for i in range(d)) for k in range(2)]] + y)


def r_round(d: "1..3", x: "tup:3 tup:2 real"):
    """unit to barycentric and back"""
    return barycentric_to_unit(unit_to_barycentric(np.array([x[0], x[1], x[2]][:d])))


def s_round(d, x):
    return np.array([x[0], x[1], x[2]][:d])


def r_triangle(d: "1..3", x: "tup:3 tup:2 real"):
    """unit to barycentric to equilateral to unit"""
    return equilateral_to_unit(barycentric_to_equilateral(unit_to_barycentric(np.array([x[0], x[1], x[2]][:d]))))


def s_triangle(d, x):
    return np.array([x[0], x[1], x[2]][:d])


def r_unit_vertices(d: "1..3"):
    """the unit vertices are the corners of barycentric coordinates"""
    return unit_to_barycentric(unit_vertices_for_shape(Simplex(d)))


def s_unit_vertices(d):
    return np.array([[1 if i == j else 0 for j in range(d + 1)] for i in range(d + 1)])

# }}}
