"""Warp-and-blend nodes follow Warburton's construction in tuple order."""
import math
import numpy as np
import numpy.linalg as la
from modepy.modes import jacobi
from modepy.nodes import warp_and_blend_nodes, warp_and_blend_nodes_2d, warp_and_blend_nodes_3d, warp_factor
from modepy.quadrature.jacobi_gauss import legendre_gauss_lobatto_nodes

KEEP = ["modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes", "modepy.modes.jacobi"]
KEEP_two = ["modepy.nodes.warp_factor"]
KEEP_two_tuples = ["modepy.nodes.warp_factor"]
KEEP_three = ["modepy.nodes.warp_factor"]
KEEP_three_general = ["modepy.nodes.warp_factor"]
KEEP_three_9_11 = ["modepy.nodes.warp_factor"]
KEEP_three_12_13 = ["modepy.nodes.warp_factor"]
KEEP_three_14 = ["modepy.nodes.warp_factor"]
KEEP_three_15 = ["modepy.nodes.warp_factor"]
KEEP_three_16 = ["modepy.nodes.warp_factor"]
KEEP_three_tuples = ["modepy.nodes.warp_factor"]

# blending parameters of Warburton, "An explicit construction for interpolation nodes on the simplex" (2006)
ALPHA_2D = [0, 0, 1.4152, 0.1001, 0.2751, 0.98, 1.0999, 1.2832, 1.3648, 1.4773, 1.4959, 1.5743, 1.577, 1.6223, 1.6258]
ALPHA_3D = [0, 0, 0, 0.1002, 1.1332, 1.5608, 1.3413, 1.2577, 1.1603, 1.10153, 0.608, 0.4523, 0.8856, 0.8717, 0.9655]


def simplex(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in simplex(dim - 1, n - i)]


# {{{ one dimension

def vander(n, x):
    return np.stack([jacobi(0, 0, k, x) for k in range(n + 1)], axis=1)


def r_warp_raw(n: "1..4", x: "vec q"):
    return warp_factor(n, x, scaled=False)


def s_warp_raw(n, x):
    gll = legendre_gauss_lobatto_nodes(n, force_dim_axis=True).squeeze()
    equi = np.array([2 * i / n - 1 for i in range(n + 1)])
    return vander(n, x) @ la.inv(vander(n, equi)) @ (gll - equi)


def r_warp(n: "1..4", x: "vec q"):
    return warp_factor(n, x)


def s_warp(n, x):
    gll = legendre_gauss_lobatto_nodes(n, force_dim_axis=True).squeeze()
    equi = np.array([2 * i / n - 1 for i in range(n + 1)])
    w = vander(n, x) @ la.inv(vander(n, equi)) @ (gll - equi)
    return np.where(np.abs(x) < 1 - 1e-10, w / (1 - x**2), 0)


def r_one(n: "pos"):
    return warp_and_blend_nodes(1, n)


def s_one(n):
    return legendre_gauss_lobatto_nodes(n, force_dim_axis=True)


def reordered(tuples, order):
    """as they are, reversed, or beginning with the second"""
    if order == 1:
        return tuples[::-1]
    if order == 2:
        return [*tuples[1:], tuples[0]]
    return tuples


def r_one_tuples(n: "1..4", order: "0..2"):
    return warp_and_blend_nodes(1, n, reordered(simplex(1, n), order))


def s_one_tuples(n, order):
    x = legendre_gauss_lobatto_nodes(n, force_dim_axis=True)
    return np.stack([x[:, i] for i, in reordered(simplex(1, n), order)], axis=1)


def r_zero(n: "pos"):
    return warp_and_blend_nodes(0, n).shape


def s_zero(n):
    return (0, 1)


def r_high(dim: "4..6", n: "pos"):
    return warp_and_blend_nodes(dim, n)


def s_high(dim, n):
    raise NotImplementedError

# }}}


# {{{ two dimensions

def equilateral_2d(l):
    """point with barycentric coordinates l in the equilateral triangle with edge length 2 centered at the origin"""
    v = [(-1, -1 / math.sqrt(3)), (1, -1 / math.sqrt(3)), (0, 2 / math.sqrt(3))]
    return [sum([l[i] * v[i][a] for i in range(3)]) for a in range(2)]


def unit_2d(x):
    """affine map of that triangle to the unit triangle"""
    return [x[0] - x[1] / math.sqrt(3) - 1 / 3, 2 * x[1] / math.sqrt(3) - 1 / 3]


def shift_2d(n, l, alpha):
    s = math.sqrt(3)
    # per edge: opposite vertex, edge end points, unit tangent from the second to the first
    edges = [(0, 1, 2, (1 / 2, -s / 2)), (1, 0, 2, (-1 / 2, -s / 2)), (2, 0, 1, (-1, 0))]
    out = [0, 0]
    for o, i, j, t in edges:
        w = 4 * l[i] * l[j] * warp_factor(n, l[i] - l[j]) * (1 + (alpha * l[o])**2)
        out = [out[0] + w * t[0], out[1] + w * t[1]]
    return out


def nodes_2d(n, tuples):
    alpha = ALPHA_2D[n - 1] if n <= 15 else 5 / 3
    cols = []
    for t in tuples:
        a, b = t[0] / n, t[1] / n
        l = [1 - a - b, a, b]
        e, s = equilateral_2d(l), shift_2d(n, l, alpha)
        cols.append(unit_2d([e[0] + s[0], e[1] + s[1]]))
    return np.array([[c[a] for c in cols] for a in range(2)])


def r_two(n: "1..17", general: "lit False,True"):
    return warp_and_blend_nodes(2, n) if general else warp_and_blend_nodes_2d(n)


def s_two(n, general):
    return nodes_2d(n, simplex(2, n))


def r_two_tuples(n: "1..4", general: "lit False,True", order: "1..2"):
    t = reordered(simplex(2, n), order)
    return warp_and_blend_nodes(2, n, t) if general else warp_and_blend_nodes_2d(n, node_tuples=t)


def s_two_tuples(n, general, order):
    return nodes_2d(n, reordered(simplex(2, n), order))

# }}}


# {{{ three dimensions

def equilateral_vertices_3d():
    a, b = 1 / math.sqrt(3), 1 / math.sqrt(6)
    return [(-1, -a, -b), (1, -a, -b), (0, 2 * a, -b), (0, 0, 3 * b)]


def combine(cs, vs):
    return [sum([c * v[a] for c, v in zip(cs, vs)]) for a in range(3)]


def unit_3d(x):
    a, b = 1 / math.sqrt(3), 1 / math.sqrt(6)
    return [x[0] - a * x[1] - b * x[2] - 1 / 2, 2 * a * x[1] - b * x[2] - 1 / 2, math.sqrt(6) / 2 * x[2] - 1 / 2]


def unit(v):
    n = math.sqrt(v[0]**2 + v[1]**2 + v[2]**2)
    return [c / n for c in v]


def shift_3d(n, l, alpha):
    vs = equilateral_vertices_3d()
    total = [0, 0, 0]
    for i1, i2, i3, i4 in [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)]:
        # vertices of the face, in the frame the in-face shift refers to
        k2, k3, k4 = (i1 - 1) % 4, (i1 - 2) % 4, (i1 - 3) % 4
        t1 = unit([p - q for p, q in zip(vs[k3], vs[k4])])
        d = [p - q for p, q in zip(vs[k2], vs[k3])]
        proj = sum([p * q for p, q in zip(d, t1)])
        t2 = unit([p - proj * q for p, q in zip(d, t1)])
        w1, w2 = shift_2d(n, [l[i2], l[i3], l[i4]], alpha)
        if l[i1] < 1e-8 and (l[i2] > 1e-8 or l[i3] > 1e-8 or l[i4] > 1e-8):
            total = [w1 * p + w2 * q for p, q in zip(t1, t2)]
        else:
            blend = l[i2] * l[i3] * l[i4]
            denom = (l[i2] + l[i1] / 2) * (l[i3] + l[i1] / 2) * (l[i4] + l[i1] / 2)
            if denom > 1e-8:
                blend = (1 + (alpha * l[i1])**2) * blend / denom
            total = [s + blend * (w1 * p + w2 * q) for s, p, q in zip(total, t1, t2)]
    return total


def nodes_3d(n, tuples):
    alpha = ALPHA_3D[n - 1] if n <= 15 else 1
    cols = []
    for t in tuples:
        a, b, c = t[0] / n, t[1] / n, t[2] / n
        l = [1 - a - b - c, a, b, c]
        e, s = combine(l, equilateral_vertices_3d()), shift_3d(n, l, alpha)
        cols.append(unit_3d([x + y for x, y in zip(e, s)]))
    return np.array([[c[a] for c in cols] for a in range(3)])


def r_three(n: "1..8"):
    return warp_and_blend_nodes_3d(n)


def s_three(n):
    return nodes_3d(n, simplex(3, n))


def r_three_general(n: "1..3"):
    return warp_and_blend_nodes(3, n)


def s_three_general(n):
    return nodes_3d(n, simplex(3, n))


def r_three_9_11(n: "9..11"):
    return warp_and_blend_nodes_3d(n)


def s_three_9_11(n):
    return nodes_3d(n, simplex(3, n))


def r_three_12_13(n: "12..13"):
    return warp_and_blend_nodes_3d(n)


def s_three_12_13(n):
    return nodes_3d(n, simplex(3, n))


def r_three_14(n: "14..14"):
    return warp_and_blend_nodes_3d(n)


def s_three_14(n):
    return nodes_3d(n, simplex(3, n))


def r_three_15(n: "15..15"):
    return warp_and_blend_nodes_3d(n)


def s_three_15(n):
    return nodes_3d(n, simplex(3, n))


def r_three_16(n: "16..16"):
    return warp_and_blend_nodes_3d(n)


def s_three_16(n):
    return nodes_3d(n, simplex(3, n))


def r_three_tuples(n: "1..2"):
    return warp_and_blend_nodes_3d(n, node_tuples=simplex(3, n)[::-1])


def s_three_tuples(n):
    return nodes_3d(n, simplex(3, n)[::-1])

# }}}
