"""Basis evaluation is pointwise; symbolic evaluation is numerical evaluation of the same formula."""
import numpy as np
from modepy.modes import (grad_jacobi, jacobi, scaled_jacobi, monomial_basis_for_space, orthonormal_basis_for_space, symbolicize_function)
from modepy.shapes import Hypercube, Simplex, TensorProductShape
from modepy.spaces import PN, QN, TensorProductSpace
from speclib import EVAL


def onb(dim):
    return orthonormal_basis_for_space(PN(dim, 4 - dim if dim > 1 else 3), Simplex(dim))


def mono(dim):
    return monomial_basis_for_space(PN(dim, 2), Simplex(dim))


def square(dim):
    return orthonormal_basis_for_space(QN(dim, 2 if dim < 3 else 1), Hypercube(dim))


def square_mono(dim):
    return monomial_basis_for_space(QN(dim, 2 if dim < 3 else 1), Hypercube(dim))


def prism():
    return orthonormal_basis_for_space(TensorProductSpace((PN(2, 1), PN(1, 1))), TensorProductShape((Simplex(2), Simplex(1))))


def prism_shifted():
    return orthonormal_basis_for_space(TensorProductSpace((PN(1, 1), PN(2, 1))), TensorProductShape((Simplex(1), Simplex(2))))


def at(v, k):
    """the entry of point k of a function's or a gradient's values"""
    return tuple([x[k] for x in v]) if isinstance(v, tuple) else v[k]


def batch(f, p, q):
    v = f(np.array([[p[a], q[a]] for a in range(len(p))]))
    return (at(v, 0), at(v, 1))


def single(f, p, q):
    """each point by itself, without and with the axis of the points"""
    v = f(np.array([[q[a]] for a in range(len(q))]))
    return (f(np.array(list(p))), at(v, 0))


def r_values_onb_1(i: "0..3", p: "tup:1 real", q: "tup:1 real"):
    return batch(onb(1).functions[i], p, q)


def s_values_onb_1(i, p, q):
    return single(onb(1).functions[i], p, q)


def r_symbolic_values_onb_1(i: "0..3", p: "tup:1 real"):
    return EVAL(symbolicize_function(onb(1).functions[i], 1), p)


def s_symbolic_values_onb_1(i, p):
    return onb(1).functions[i](np.array(list(p)))


def r_gradients_onb_1(i: "0..3", p: "tup:1 real", q: "tup:1 real"):
    return batch(onb(1).gradients[i], p, q)


def s_gradients_onb_1(i, p, q):
    return single(onb(1).gradients[i], p, q)


def r_symbolic_gradients_onb_1(i: "0..3", p: "tup:1 real"):
    return EVAL(symbolicize_function(onb(1).gradients[i], 1), p)


def s_symbolic_gradients_onb_1(i, p):
    return onb(1).gradients[i](np.array(list(p)))


def r_values_onb_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    return batch(onb(2).functions[i], p, q)


def s_values_onb_2(i, p, q):
    return single(onb(2).functions[i], p, q)


def r_symbolic_values_onb_2(i: "0..5", p: "tup:2 real"):
    return EVAL(symbolicize_function(onb(2).functions[i], 2), p)


def s_symbolic_values_onb_2(i, p):
    return onb(2).functions[i](np.array(list(p)))


def r_gradients_onb_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    return batch(onb(2).gradients[i], p, q)


def s_gradients_onb_2(i, p, q):
    return single(onb(2).gradients[i], p, q)


def r_symbolic_gradients_onb_2(i: "0..5", p: "tup:2 real"):
    return EVAL(symbolicize_function(onb(2).gradients[i], 2), p)


def s_symbolic_gradients_onb_2(i, p):
    return onb(2).gradients[i](np.array(list(p)))


def r_values_onb_3(i: "0..3", p: "tup:3 real", q: "tup:3 real"):
    return batch(onb(3).functions[i], p, q)


def s_values_onb_3(i, p, q):
    return single(onb(3).functions[i], p, q)


def r_symbolic_values_onb_3(i: "0..3", p: "tup:3 real"):
    return EVAL(symbolicize_function(onb(3).functions[i], 3), p)


def s_symbolic_values_onb_3(i, p):
    return onb(3).functions[i](np.array(list(p)))


def r_gradients_onb_3(i: "0..3", p: "tup:3 real", q: "tup:3 real"):
    return batch(onb(3).gradients[i], p, q)


def s_gradients_onb_3(i, p, q):
    return single(onb(3).gradients[i], p, q)


def r_symbolic_gradients_onb_3(i: "0..3", p: "tup:3 real"):
    return EVAL(symbolicize_function(onb(3).gradients[i], 3), p)


def s_symbolic_gradients_onb_3(i, p):
    return onb(3).gradients[i](np.array(list(p)))


def r_values_monomial_1(i: "0..2", p: "tup:1 real", q: "tup:1 real"):
    return batch(mono(1).functions[i], p, q)


def s_values_monomial_1(i, p, q):
    return single(mono(1).functions[i], p, q)


def r_symbolic_values_monomial_1(i: "0..2", p: "tup:1 real"):
    return EVAL(symbolicize_function(mono(1).functions[i], 1), p)


def s_symbolic_values_monomial_1(i, p):
    return mono(1).functions[i](np.array(list(p)))


def r_gradients_monomial_1(i: "0..2", p: "tup:1 real", q: "tup:1 real"):
    return batch(mono(1).gradients[i], p, q)


def s_gradients_monomial_1(i, p, q):
    return single(mono(1).gradients[i], p, q)


def r_symbolic_gradients_monomial_1(i: "0..2", p: "tup:1 real"):
    return EVAL(symbolicize_function(mono(1).gradients[i], 1), p)


def s_symbolic_gradients_monomial_1(i, p):
    return mono(1).gradients[i](np.array(list(p)))


def r_values_monomial_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    return batch(mono(2).functions[i], p, q)


def s_values_monomial_2(i, p, q):
    return single(mono(2).functions[i], p, q)


def r_symbolic_values_monomial_2(i: "0..5", p: "tup:2 real"):
    return EVAL(symbolicize_function(mono(2).functions[i], 2), p)


def s_symbolic_values_monomial_2(i, p):
    return mono(2).functions[i](np.array(list(p)))


def r_gradients_monomial_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    return batch(mono(2).gradients[i], p, q)


def s_gradients_monomial_2(i, p, q):
    return single(mono(2).gradients[i], p, q)


def r_symbolic_gradients_monomial_2(i: "0..5", p: "tup:2 real"):
    return EVAL(symbolicize_function(mono(2).gradients[i], 2), p)


def s_symbolic_gradients_monomial_2(i, p):
    return mono(2).gradients[i](np.array(list(p)))


def r_values_monomial_3(i: "0..9", p: "tup:3 real", q: "tup:3 real"):
    return batch(mono(3).functions[i], p, q)


def s_values_monomial_3(i, p, q):
    return single(mono(3).functions[i], p, q)


def r_symbolic_values_monomial_3(i: "0..9", p: "tup:3 real"):
    return EVAL(symbolicize_function(mono(3).functions[i], 3), p)


def s_symbolic_values_monomial_3(i, p):
    return mono(3).functions[i](np.array(list(p)))


def r_gradients_monomial_3(i: "0..9", p: "tup:3 real", q: "tup:3 real"):
    return batch(mono(3).gradients[i], p, q)


def s_gradients_monomial_3(i, p, q):
    return single(mono(3).gradients[i], p, q)


def r_symbolic_gradients_monomial_3(i: "0..9", p: "tup:3 real"):
    return EVAL(symbolicize_function(mono(3).gradients[i], 3), p)


def s_symbolic_gradients_monomial_3(i, p):
    return mono(3).gradients[i](np.array(list(p)))


def r_values_square_1(i: "0..2", p: "tup:1 real", q: "tup:1 real"):
    return batch(square(1).functions[i], p, q)


def s_values_square_1(i, p, q):
    return single(square(1).functions[i], p, q)


def r_symbolic_values_square_1(i: "0..2", p: "tup:1 real"):
    return EVAL(symbolicize_function(square(1).functions[i], 1), p)


def s_symbolic_values_square_1(i, p):
    return square(1).functions[i](np.array(list(p)))


def r_gradients_square_1(i: "0..2", p: "tup:1 real", q: "tup:1 real"):
    return batch(square(1).gradients[i], p, q)


def s_gradients_square_1(i, p, q):
    return single(square(1).gradients[i], p, q)


def r_symbolic_gradients_square_1(i: "0..2", p: "tup:1 real"):
    return EVAL(symbolicize_function(square(1).gradients[i], 1), p)


def s_symbolic_gradients_square_1(i, p):
    return square(1).gradients[i](np.array(list(p)))


def r_values_square_2(i: "0..8", p: "tup:2 real", q: "tup:2 real"):
    return batch(square(2).functions[i], p, q)


def s_values_square_2(i, p, q):
    return single(square(2).functions[i], p, q)


def r_symbolic_values_square_2(i: "0..8", p: "tup:2 real"):
    return EVAL(symbolicize_function(square(2).functions[i], 2), p)


def s_symbolic_values_square_2(i, p):
    return square(2).functions[i](np.array(list(p)))


def r_gradients_square_2(i: "0..8", p: "tup:2 real", q: "tup:2 real"):
    return batch(square(2).gradients[i], p, q)


def s_gradients_square_2(i, p, q):
    return single(square(2).gradients[i], p, q)


def r_symbolic_gradients_square_2(i: "0..8", p: "tup:2 real"):
    return EVAL(symbolicize_function(square(2).gradients[i], 2), p)


def s_symbolic_gradients_square_2(i, p):
    return square(2).gradients[i](np.array(list(p)))


def r_values_square_3(i: "0..7", p: "tup:3 real", q: "tup:3 real"):
    return batch(square(3).functions[i], p, q)


def s_values_square_3(i, p, q):
    return single(square(3).functions[i], p, q)


def r_symbolic_values_square_3(i: "0..7", p: "tup:3 real"):
    return EVAL(symbolicize_function(square(3).functions[i], 3), p)


def s_symbolic_values_square_3(i, p):
    return square(3).functions[i](np.array(list(p)))


def r_gradients_square_3(i: "0..7", p: "tup:3 real", q: "tup:3 real"):
    return batch(square(3).gradients[i], p, q)


def s_gradients_square_3(i, p, q):
    return single(square(3).gradients[i], p, q)


def r_symbolic_gradients_square_3(i: "0..7", p: "tup:3 real"):
    return EVAL(symbolicize_function(square(3).gradients[i], 3), p)


def s_symbolic_gradients_square_3(i, p):
    return square(3).gradients[i](np.array(list(p)))


def r_values_square_monomial_2(i: "0..8", p: "tup:2 real", q: "tup:2 real"):
    return batch(square_mono(2).functions[i], p, q)


def s_values_square_monomial_2(i, p, q):
    return single(square_mono(2).functions[i], p, q)


def r_symbolic_values_square_monomial_2(i: "0..8", p: "tup:2 real"):
    return EVAL(symbolicize_function(square_mono(2).functions[i], 2), p)


def s_symbolic_values_square_monomial_2(i, p):
    return square_mono(2).functions[i](np.array(list(p)))


def r_gradients_square_monomial_2(i: "0..8", p: "tup:2 real", q: "tup:2 real"):
    return batch(square_mono(2).gradients[i], p, q)


def s_gradients_square_monomial_2(i, p, q):
    return single(square_mono(2).gradients[i], p, q)


def r_symbolic_gradients_square_monomial_2(i: "0..8", p: "tup:2 real"):
    return EVAL(symbolicize_function(square_mono(2).gradients[i], 2), p)


def s_symbolic_gradients_square_monomial_2(i, p):
    return square_mono(2).gradients[i](np.array(list(p)))


def r_values_prism(i: "0..5", p: "tup:3 real", q: "tup:3 real"):
    return batch(prism().functions[i], p, q)


def s_values_prism(i, p, q):
    return single(prism().functions[i], p, q)


def r_symbolic_values_prism(i: "0..5", p: "tup:3 real"):
    return EVAL(symbolicize_function(prism().functions[i], 3), p)


def s_symbolic_values_prism(i, p):
    return prism().functions[i](np.array(list(p)))


def r_gradients_prism(i: "0..5", p: "tup:3 real", q: "tup:3 real"):
    return batch(prism().gradients[i], p, q)


def s_gradients_prism(i, p, q):
    return single(prism().gradients[i], p, q)


def r_symbolic_gradients_prism(i: "0..5", p: "tup:3 real"):
    return EVAL(symbolicize_function(prism().gradients[i], 3), p)


def s_symbolic_gradients_prism(i, p):
    return prism().gradients[i](np.array(list(p)))


def r_values_prism_shifted(i: "0..5", p: "tup:3 real", q: "tup:3 real"):
    return batch(prism_shifted().functions[i], p, q)


def s_values_prism_shifted(i, p, q):
    return single(prism_shifted().functions[i], p, q)


def r_symbolic_values_prism_shifted(i: "0..5", p: "tup:3 real"):
    return EVAL(symbolicize_function(prism_shifted().functions[i], 3), p)


def s_symbolic_values_prism_shifted(i, p):
    return prism_shifted().functions[i](np.array(list(p)))


def r_gradients_prism_shifted(i: "0..5", p: "tup:3 real", q: "tup:3 real"):
    return batch(prism_shifted().gradients[i], p, q)


def s_gradients_prism_shifted(i, p, q):
    return single(prism_shifted().gradients[i], p, q)


def r_symbolic_gradients_prism_shifted(i: "0..5", p: "tup:3 real"):
    return EVAL(symbolicize_function(prism_shifted().gradients[i], 3), p)


def s_symbolic_gradients_prism_shifted(i, p):
    return prism_shifted().gradients[i](np.array(list(p)))



def r_values_jacobi(n: "0..5", alpha: "jac", beta: "jac", x: "real", y: "real"):
    return jacobi(alpha, beta, n, np.array([x, y]))


def s_values_jacobi(n, alpha, beta, x, y):
    return np.array([jacobi(alpha, beta, n, x), jacobi(alpha, beta, n, y)])


def r_gradients_jacobi(n: "0..5", alpha: "jac", beta: "jac", x: "real", y: "real"):
    return grad_jacobi(alpha, beta, n, np.array([x, y]))


def s_gradients_jacobi(n, alpha, beta, x, y):
    return np.array([grad_jacobi(alpha, beta, n, x), grad_jacobi(alpha, beta, n, y)])


def r_values_scaled_jacobi(n: "0..5", alpha: "jac", beta: "jac", x: "real", y: "real"):
    return scaled_jacobi(alpha, beta, n, np.array([x, y]))


def s_values_scaled_jacobi(n, alpha, beta, x, y):
    return np.array([scaled_jacobi(alpha, beta, n, x), scaled_jacobi(alpha, beta, n, y)])


def r_symbolic_jacobi(n: "0..5", alpha: "jac", beta: "jac", x: "real"):
    return EVAL(symbolicize_function(lambda r: jacobi(alpha, beta, n, r[0]), 1, "xi"), (x,), "xi")


def s_symbolic_jacobi(n, alpha, beta, x):
    return jacobi(alpha, beta, n, x)


def r_symbolic_grad_jacobi(n: "0..5", alpha: "jac", beta: "jac", x: "real"):
    return EVAL(symbolicize_function(lambda r: grad_jacobi(alpha, beta, n, r[0]), 1), (x,))


def s_symbolic_grad_jacobi(n, alpha, beta, x):
    return grad_jacobi(alpha, beta, n, x)


def r_shapes_onb_1(i: "0..3", p: "tup:1 real", q: "tup:1 real"):
    x = np.array([[p[0], q[0], p[0]]])
    g = onb(1).gradients[i](x)
    return (onb(1).functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_onb_1(i, p, q):
    return ((3,), [(3,)])


def r_shapes_onb_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    x = np.array([[p[0], q[0], p[0]], [p[1], q[1], p[1]]])
    g = onb(2).gradients[i](x)
    return (onb(2).functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_onb_2(i, p, q):
    return ((3,), [(3,), (3,)])


def r_shapes_onb_3(i: "0..3", p: "tup:3 real", q: "tup:3 real"):
    x = np.array([[p[0], q[0], p[0]], [p[1], q[1], p[1]], [p[2], q[2], p[2]]])
    g = onb(3).gradients[i](x)
    return (onb(3).functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_onb_3(i, p, q):
    return ((3,), [(3,), (3,), (3,)])


def r_shapes_monomial_2(i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    x = np.array([[p[0], q[0], p[0]], [p[1], q[1], p[1]]])
    g = mono(2).gradients[i](x)
    return (mono(2).functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_monomial_2(i, p, q):
    return ((3,), [(3,), (3,)])


def r_shapes_square_2(i: "0..8", p: "tup:2 real", q: "tup:2 real"):
    x = np.array([[p[0], q[0], p[0]], [p[1], q[1], p[1]]])
    g = square(2).gradients[i](x)
    return (square(2).functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_square_2(i, p, q):
    return ((3,), [(3,), (3,)])


def r_shapes_prism(i: "0..5", p: "tup:3 real", q: "tup:3 real"):
    x = np.array([[p[0], q[0], p[0]], [p[1], q[1], p[1]], [p[2], q[2], p[2]]])
    g = prism().gradients[i](x)
    return (prism().functions[i](x).shape, [y.shape for y in (g if isinstance(g, tuple) else (g,))])


def s_shapes_prism(i, p, q):
    return ((3,), [(3,), (3,), (3,)])
