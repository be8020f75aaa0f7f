"""Jacobi polynomials: orthonormal under (1-x)^a (1+x)^b, by the classical recurrence and normalisation."""
from math import gamma, sqrt, factorial
import numpy as np
from modepy.modes import jacobi, grad_jacobi, scaled_jacobi


def norm2(a, b, n):
    # h_n; for n = 0 the factor (a+b+1) Gamma(a+b+1) is written Gamma(a+b+2), which covers a + b = -1
    if n == 0:
        return 2**(a + b + 1) * gamma(a + 1) * gamma(b + 1) / gamma(a + b + 2)
    return (2**(a + b + 1) / (2*n + a + b + 1)
            * gamma(n + a + 1) * gamma(n + b + 1) / (gamma(n + a + b + 1) * factorial(n)))


def classical(a, b, n, x):
    # classical (unnormalised) Jacobi polynomial as the terminating hypergeometric sum, free of removable singularities
    return sum(
        gamma(n + a + 1) * prod_shift(n + a + b + 1, m) / (factorial(m) * factorial(n - m) * gamma(a + m + 1))
        * ((x - 1)/2)**m for m in range(n + 1))


def prod_shift(z, m):
    r = 1
    for i in range(m):
        r = r * (z + i)
    return r


def r_jacobi(alpha: "jac", beta: "jac", n: "0..16", x: "real"):
    return jacobi(alpha, beta, n, x)


def s_jacobi(alpha, beta, n, x):
    return classical(alpha, beta, n, x) / sqrt(norm2(alpha, beta, n))


def r_grad_jacobi(alpha: "jac", beta: "jac", n: "0..16", x: "real"):
    return grad_jacobi(alpha, beta, n, x)


def s_grad_jacobi(alpha, beta, n, x):
    if n == 0:
        return 0
    return (n + alpha + beta + 1)/2 * classical(alpha + 1, beta + 1, n - 1, x) / sqrt(norm2(alpha, beta, n))


def r_scaled_jacobi(alpha: "jac", beta: "jac", n: "0..16", x: "real"):
    return scaled_jacobi(alpha, beta, n, x)


def s_scaled_jacobi(alpha, beta, n, x):
    return classical(alpha, beta, n, x)
