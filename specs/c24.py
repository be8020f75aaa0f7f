"""Applying, transforming and multiplying rules."""
import numpy as np
from modepy.quadrature import (LegendreGaussLobattoTensorProductQuadrature, LegendreGaussTensorProductQuadrature, Quadrature,
                               TensorProductQuadrature, Transformed1DQuadrature, ZeroDimensionalQuadrature)
from modepy.quadrature.jacobi_gauss import LegendreGaussLobattoQuadrature, LegendreGaussQuadrature
from speclib import SCALAR

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes"]


def f(x, y=0):
    return np.exp(x + 2 * y)


def g(x, y=0):
    return np.sin(x + 3 * y)


# {{{ application

def r_apply(x: "mat d n", w: "vec n", c: "vec n"):
    return Quadrature(x, w)(lambda y: c * y[0])


def s_apply(x, w, c):
    return np.sum(w * c * x[0])


def r_apply_small(x: "tup:2 tup:4 real", w: "tup:4 real"):
    x = np.array(x)
    return Quadrature(x, np.array(w))(lambda y: np.array([f(y[0, i], y[1, i]) for i in range(4)]))


def s_apply_small(x, w):
    x = np.array(x)
    return (w[0] * f(x[0, 0], x[1, 0]) + w[1] * f(x[0, 1], x[1, 1]) + w[2] * f(x[0, 2], x[1, 2]) + w[3] * f(x[0, 3], x[1, 3]))


def r_apply_1d(x: "tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    w = np.array(w)
    return Quadrature(x, w)(lambda y: np.array([f(y[i]) for i in range(3)]))


def s_apply_1d(x, w):
    x = np.array(x)
    w = np.array(w)
    return w[0] * f(x[0]) + w[1] * f(x[1]) + w[2] * f(x[2])


def r_apply_vector(x: "tup:2 tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    w = np.array(w)
    v = Quadrature(x, w)(lambda y: np.array([[f(y[0, i], y[1, i]) for i in range(3)], [g(y[0, i], y[1, i]) for i in range(3)]]))
    return (v.shape, v[0], v[1])


def s_apply_vector(x, w):
    x = np.array(x)
    w = np.array(w)
    return ((2,), w[0] * f(x[0, 0], x[1, 0]) + w[1] * f(x[0, 1], x[1, 1]) + w[2] * f(x[0, 2], x[1, 2]),
            w[0] * g(x[0, 0], x[1, 0]) + w[1] * g(x[0, 1], x[1, 1]) + w[2] * g(x[0, 2], x[1, 2]))


def r_apply_matrix(x: "tup:1 tup:2 real", w: "tup:2 real", v: "tup:2 tup:3 tup:2 real"):
    x = np.array(x)
    w = np.array(w)
    v = np.array(v)
    t = Quadrature(x, w)(lambda y: v)
    return (t.shape, [[t[i, j] for j in range(3)] for i in range(2)])


def s_apply_matrix(x, w, v):
    x = np.array(x)
    w = np.array(w)
    v = np.array(v)
    return ((2, 3), [[w[0] * v[i, j, 0] + w[1] * v[i, j, 1] for j in range(3)] for i in range(2)])


def r_apply_zero():
    return ZeroDimensionalQuadrature()(lambda y: np.array([f(y.shape[0], y.shape[1])]))


def s_apply_zero():
    return f(0, 1)

# }}}


# {{{ intervals

def r_transformed_nodes(x: "vec n", w: "vec n", a: "real", b: "real"):
    if a >= b:
        return x
    return Transformed1DQuadrature(Quadrature(x, w), a, b).nodes


def s_transformed_nodes(x, w, a, b):
    if a >= b:
        return x
    return a + (x + 1) * (b - a) / 2


def r_transformed_weights(x: "vec n", w: "vec n", a: "real", b: "real"):
    if a >= b:
        return w
    return Transformed1DQuadrature(Quadrature(x, w), a, b).weights


def s_transformed_weights(x, w, a, b):
    if a >= b:
        return w
    return w * (b - a) / 2


def r_transformed_axis(x: "mat 1 n", w: "vec n", a: "real", b: "real"):
    if a >= b:
        return x
    return Transformed1DQuadrature(Quadrature(x, w), a, b).nodes


def s_transformed_axis(x, w, a, b):
    if a >= b:
        return x
    return a + (x + 1) * (b - a) / 2


def r_transformed_ends(x: "vec n", w: "vec n", a: "real", b: "real"):
    if a >= b:
        return (a, b)
    q = Transformed1DQuadrature(Quadrature(x, w), a, b)
    return (q.left, q.right)


def s_transformed_ends(x, w, a, b):
    return (a, b)


def r_transformed_empty(x: "vec n", w: "vec n", a: "real", b: "real"):
    if a < b:
        raise ValueError
    return Transformed1DQuadrature(Quadrature(x, w), a, b).nodes


def s_transformed_empty(x, w, a, b):
    raise ValueError


def r_transformed_integral(x: "tup:3 real", w: "tup:3 real", a: "real", b: "real"):
    x = np.array(x)
    w = np.array(w)
    if a >= b:
        return 0
    return Transformed1DQuadrature(Quadrature(x, w), a, b)(lambda y: np.array([f(y[i]) for i in range(3)]))


def s_transformed_integral(x, w, a, b):
    x = np.array(x)
    w = np.array(w)
    if a >= b:
        return 0
    h = (b - a) / 2
    return w[0] * h * f(a + h * (x[0] + 1)) + w[1] * h * f(a + h * (x[1] + 1)) + w[2] * h * f(a + h * (x[2] + 1))

# }}}


# {{{ products

def r_pair(x: "tup:1 tup:2 real", v: "tup:2 real", y: "tup:1 tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, v), Quadrature(y, w)])
    return (q.nodes.shape, q.weights.shape,
            sorted_pairs([(q.nodes[0, i], q.nodes[1, i], q.weights[i]) for i in range(6)]))


def sorted_pairs(t):
    return t


def s_pair(x, v, y, w):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    return ((2, 6), (6,), [(x[0, i], y[0, j], v[i] * w[j]) for j in range(3) for i in range(2)])


def r_pair_flat(x: "tup:2 real", v: "tup:2 real", y: "tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, v), Quadrature(y, w)])
    return (q.nodes.shape, q.weights.shape, [(q.nodes[0, i], q.nodes[1, i], q.weights[i]) for i in range(6)])


def s_pair_flat(x, v, y, w):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    return ((2, 6), (6,), [(x[i], y[j], v[i] * w[j]) for j in range(3) for i in range(2)])


def r_prism(x: "tup:2 tup:2 real", v: "tup:2 real", y: "tup:1 tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, v), Quadrature(y, w)])
    return (q.nodes.shape, q.weights.shape, [(q.nodes[0, i], q.nodes[1, i], q.nodes[2, i], q.weights[i]) for i in range(6)])


def s_prism(x, v, y, w):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    return ((3, 6), (6,), [(x[0, i], x[1, i], y[0, j], v[i] * w[j]) for j in range(3) for i in range(2)])


def r_triple(x: "tup:1 tup:2 real", u: "tup:2 real", y: "tup:1 tup:3 real", v: "tup:3 real", z: "tup:1 tup:2 real", w: "tup:2 real"):
    x = np.array(x)
    u = np.array(u)
    y = np.array(y)
    v = np.array(v)
    z = np.array(z)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, u), Quadrature(y, v), Quadrature(z, w)])
    return (q.nodes.shape, q.weights.shape, [(q.nodes[0, i], q.nodes[1, i], q.nodes[2, i], q.weights[i]) for i in range(12)])


def s_triple(x, u, y, v, z, w):
    x = np.array(x)
    u = np.array(u)
    y = np.array(y)
    v = np.array(v)
    z = np.array(z)
    w = np.array(w)
    return ((3, 12), (12,), [(x[0, i], y[0, j], z[0, k], u[i] * v[j] * w[k]) for k in range(2) for j in range(3) for i in range(2)])


def r_single(x: "tup:1 tup:3 real", w: "tup:3 real"):
    x = np.array(x)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, w)])
    return (q.nodes.shape, q.weights.shape, [(q.nodes[0, i], q.weights[i]) for i in range(3)])


def s_single(x, w):
    x = np.array(x)
    w = np.array(w)
    return ((1, 3), (3,), [(x[0, i], w[i]) for i in range(3)])


def r_product_integral(x: "tup:1 tup:2 real", v: "tup:2 real", y: "tup:1 tup:2 real", w: "tup:2 real"):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    q = TensorProductQuadrature([Quadrature(x, v), Quadrature(y, w)])
    return q(lambda z: np.array([f(z[0, i]) * g(z[1, i]) for i in range(4)]))


def s_product_integral(x, v, y, w):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    return (v[0] * f(x[0, 0]) + v[1] * f(x[0, 1])) * (w[0] * g(y[0, 0]) + w[1] * g(y[0, 1]))


def r_generator(x: "tup:1 tup:2 real", v: "tup:2 real", y: "tup:1 tup:2 real", w: "tup:2 real"):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    qs = [Quadrature(x, v), Quadrature(y, w)]
    q = TensorProductQuadrature(iter(qs))
    return (len(q.quadratures), [q.weights[i] for i in range(4)])


def s_generator(x, v, y, w):
    x = np.array(x)
    v = np.array(v)
    y = np.array(y)
    w = np.array(w)
    return (2, [v[i] * w[j] for j in range(2) for i in range(2)])


def r_gauss(n: "0..3", dims: "1..3"):
    q = LegendreGaussTensorProductQuadrature(n, dims)
    g = LegendreGaussQuadrature(n, force_dim_axis=True)
    k = len(q.quadratures)
    return (k, q.nodes.shape, [(q.quadratures[i].nodes, q.quadratures[i].weights) for i in range(dims)], q.weights[1 if n else 0])


def s_gauss(n, dims):
    g = LegendreGaussQuadrature(n, force_dim_axis=True)
    w = g.weights[1 if n else 0]
    for _ in range(dims - 1):
        w = w * g.weights[0]
    return (dims, (dims, (n + 1)**dims), [(g.nodes, g.weights) for i in range(dims)], w)


def r_gauss_lobatto(n: "1..3", dims: "1..3"):
    q = LegendreGaussLobattoTensorProductQuadrature(n, dims)
    k = len(q.quadratures)
    return (k, q.nodes.shape, [(q.quadratures[i].nodes, q.quadratures[i].weights) for i in range(dims)], q.weights[1])


def s_gauss_lobatto(n, dims):
    g = LegendreGaussLobattoQuadrature(n, force_dim_axis=True)
    w = g.weights[1]
    for _ in range(dims - 1):
        w = w * g.weights[0]
    return (dims, (dims, (n + 1)**dims), [(g.nodes, g.weights) for i in range(dims)], w)

# }}}
