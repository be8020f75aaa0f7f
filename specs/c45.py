"""The infinite degree of exactness behaves as the largest element of the numbers."""
FINITE = True
from modepy.quadrature import Quadrature, ZeroDimensionalQuadrature, inf, isinf


def r_finite(x: "real|0,1,-3"):
    return (inf > x, inf >= x, inf < x, inf <= x, inf == x, inf != x)


def s_finite(x):
    return (True, True, False, False, False, True)


def r_reflected(x: "real|0,1,-3"):
    return (x < inf, x <= inf, x > inf, x >= inf, x == inf, x != inf)


def s_reflected(x):
    return (True, True, False, False, False, True)


def r_itself():
    q = ZeroDimensionalQuadrature().exact_to
    return (q == inf, q != inf, q > inf, q >= inf, q < inf, q <= inf, isinf(q))


def s_itself():
    return (True, False, False, True, False, True, True)


def r_numbers(n: "int|0,1,7"):
    return (isinf(n), n == inf)


def s_numbers(n):
    return (False, False)


def r_sum(x: "real|0,1,-3"):
    return isinf(inf + x)


def s_sum(x):
    return True


def r_smallest(n: "nat", m: "nat"):
    return (min(n, inf), min(inf, n), min(inf, n, m), min([n, inf, m]))


def s_smallest(n, m):
    return (n, n, min(n, m), min(n, m))


def r_index():
    return [5, 6][inf]


def s_index():
    raise Exception


def r_integers(n: "int"):
    return (inf > n, inf >= n, inf < n, inf <= n, inf == n, n < inf, n <= inf, n > inf, n >= inf, n == inf, isinf(inf + n))


def s_integers(n):
    return (True, True, False, False, False, True, True, False, False, False, True)
