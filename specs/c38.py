"""Quadrature residuals, their derivatives, and Gauss-Newton increments."""
import numpy as np
import numpy.linalg as la
from speclib import ANY, VEC

from modepy.quadrature.construction import QuadratureResidualJacobian, quad_gauss_newton_increment, quad_residual_and_jacobian


class Fun:
    def __init__(self, k, tag="f"):
        self.k, self.tag = k, tag

    def __call__(self, nodes):
        return VEC(self.tag, self.k, nodes)


class Der:
    def __init__(self, k, axis):
        self.k, self.axis = k, axis

    def __call__(self, nodes):
        return VEC("df", self.k, self.axis, nodes)


class Given:
    """a function given by its values at the nodes at hand"""

    def __init__(self, values):
        self.values = values

    def __call__(self, nodes):
        return self.values


# {{{ symbolic numbers of nodes

def funs(m):
    return [Fun(k) for k in range(m)]


def r_residual(m: "1..4", d: "1..3", nodes: "mat d0 q", w: "vec q", ints: "vec i"):
    """residual: sum of weighted values minus integral, one entry per integrand"""
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return quad_residual_and_jacobian(nodes, w, funs(m), [[Der(k, a) for k in range(m)] for a in range(d)], ints).residual


def s_residual(m, d, nodes, w, ints):
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return np.stack([VEC("f", k, nodes) for k in range(m)], axis=0) @ w - ints


def r_dweights(m: "1..4", d: "1..3", nodes: "mat d0 q", w: "vec q", ints: "vec i"):
    """derivative with respect to the weights: the values"""
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return quad_residual_and_jacobian(nodes, w, funs(m), [[Der(k, a) for k in range(m)] for a in range(d)], ints).dresid_dweights


def s_dweights(m, d, nodes, w, ints):
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return np.stack([VEC("f", k, nodes) for k in range(m)], axis=0)


def r_dnodes(m: "1..4", d: "1..3", nodes: "mat d0 q", w: "vec q", ints: "vec i"):
    """derivative with respect to the nodes: weighted derivatives, axis by axis"""
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return quad_residual_and_jacobian(nodes, w, funs(m), [[Der(k, a) for k in range(m)] for a in range(d)], ints).dresid_dnodes


def s_dnodes(m, d, nodes, w, ints):
    if nodes.shape[0] != d or len(ints) != m:
        return None
    return np.concatenate([np.stack([VEC("df", k, a, nodes) * w for k in range(m)], axis=0) for a in range(d)], axis=1)



def r_flat(m: "1..4", nodes: "vec q", w: "vec q", ints: "vec i"):
    """one-dimensional nodes without an axis for the dimension"""
    if len(ints) != m:
        return None
    r = quad_residual_and_jacobian(nodes, w, funs(m), [[Der(k, 0) for k in range(m)]], ints)
    return r.residual, r.dresid_dweights, r.dresid_dnodes


def s_flat(m, nodes, w, ints):
    if len(ints) != m:
        return None
    v = np.stack([VEC("f", k, nodes) for k in range(m)], axis=0)
    return v @ w - ints, v, np.stack([VEC("df", k, 0, nodes) * w for k in range(m)], axis=0)

# }}}


# {{{ entry by entry

def r_entries(m: "1..3", d: "1..3", f: "tup:3 tup:2 real", df: "tup:3 tup:3 tup:2 real", w: "tup:2 real", ints: "tup:3 real", x: "tup:3 tup:2 real"):
    r = quad_residual_and_jacobian(
        np.array(x[:d]), np.array(w), [Given(np.array(f[k])) for k in range(m)],
        [[Given(np.array(df[a][k])) for k in range(m)] for a in range(d)], np.array(ints[:m]))
    return r.residual, r.dresid_dweights, r.dresid_dnodes


def s_entries(m, d, f, df, w, ints, x):
    return (np.array([f[k][0] * w[0] + f[k][1] * w[1] - ints[k] for k in range(m)]),
            np.array([[f[k][0], f[k][1]] for k in range(m)]),
            np.array([[df[a][k][j] * w[j] for a in range(d) for j in range(2)] for k in range(m)]))


HEADS_wrong_axes = ["T", "call", "matmul", "numpy.hstack", "alloc", "concatenate", "stack", "func", "update"]


def r_wrong_axes(x: "tup:2 tup:2 real", w: "tup:2 real", n: "1,3,4", ints: "tup:2 real"):
    """derivatives for another number of axes are rejected"""
    return quad_residual_and_jacobian(np.array(x), np.array(w), funs(2), [[Der(k, a) for k in range(2)] for a in range(n)], np.array(ints))


def s_wrong_axes(x, w, n, ints):
    raise ValueError


def r_wrong_count(x: "tup:2 tup:2 real", w: "tup:2 real", n: "0,1,3", a: "0..1", ints: "tup:2 real"):
    """another number of derivatives along some axis is rejected"""
    return quad_residual_and_jacobian(np.array(x), np.array(w), funs(2), [[Der(k, b) for k in range(n if b == a else 2)] for b in range(2)], np.array(ints))


def s_wrong_count(x, w, n, a, ints):
    raise ValueError

# }}}


# {{{ increments

def r_increment(res: "vec m", dw: "mat m n", dx: "mat m k"):
    """least-squares solution of the linearised system"""
    a, b = quad_gauss_newton_increment(QuadratureResidualJacobian(res, dw, dx))
    return a


def s_increment(res, dw, dx):
    return (-la.lstsq(np.concatenate([dw, dx], axis=1), res)[0])[:dw.shape[1]]


class Jac:
    """literal sizes"""


def jac(res, dw, dx):
    return QuadratureResidualJacobian(np.array(res), np.array(dw), np.array(dx))


def r_split(res: "tup:4 real", dw: "tup:4 tup:2 real", dx: "tup:4 tup:4 real"):
    """the increment of the weights, and that of the nodes with one row per axis"""
    return quad_gauss_newton_increment(jac(res, dw, dx))


def s_split(res, dw, dx):
    z = -la.lstsq(np.concatenate([np.array(dw), np.array(dx)], axis=1), np.array(res))[0]
    return np.array([z[0], z[1]]), np.array([[z[2], z[3]], [z[4], z[5]]])


def r_split_uneven(res: "tup:2 real", dw: "tup:2 tup:2 real", dx: "tup:2 tup:6 real"):
    """three axes, two nodes"""
    return quad_gauss_newton_increment(jac(res, dw, dx))


def s_split_uneven(res, dw, dx):
    z = -la.lstsq(np.concatenate([np.array(dw), np.array(dx)], axis=1), np.array(res))[0]
    return np.array([z[0], z[1]]), np.array([[z[2], z[3]], [z[4], z[5]], [z[6], z[7]]])

# }}}
