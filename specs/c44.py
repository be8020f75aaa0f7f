"""Decay of modal coefficients: skyline, least-squares line in logarithms, relative residual of the expansion."""
import numpy as np
import numpy.linalg as la
from math import exp, log, sqrt
from modepy.modal_decay import (create_decay_baseline, estimate_relative_expansion_residual, fit_modal_decay, get_decay_fit_matrix,
                                make_mode_number_vector, skyline_pessimize)
from pytools import generate_nonnegative_integer_tuples_summing_to_at_most as gnitstam


def r_skyline(k: "2..5", a: "tup:5 real", b: "tup:5 real"):
    return skyline_pessimize(np.array([a[:k], b[:k]]))


def s_skyline(k, a, b):
    return np.array([[max(x[min(j, k - 2):k]) for j in range(k)] for x in (a, b)])


def r_mode_numbers(dims: "1..3", n: "0..4", ignored: "0..2"):
    return make_mode_number_vector(tuple(gnitstam(n, dims)), ignored)


def s_mode_numbers(dims, n, ignored):
    return np.array([sum(t) for t in list(gnitstam(n, dims))[ignored:]])


def baseline(ks, n):
    v = [1 if k == 0 else 1 / k**n for k in ks]
    return [x / sqrt(sum([y**2 for y in v])) for x in v]


def r_baseline(dims: "1..3", n: "0..3", ignored: "0..1"):
    return create_decay_baseline(make_mode_number_vector(tuple(gnitstam(n, dims)), ignored), n)


def s_baseline(dims, n, ignored):
    return np.array(baseline([sum(t) for t in list(gnitstam(n, dims))[ignored:]], n))


def line(c, dims, n, ignored):
    """slope and exp(intercept) of the least-squares line through one element's points"""
    sq = [x**2 for x in c]
    sky = [max(sq[min(j, len(sq) - 2):]) for j in range(len(sq))]
    total = sum(sky)
    ks = [sum(t) for t in list(gnitstam(n, dims))[ignored:]]
    base = baseline(ks, n)
    y = [log(sky[ignored + j] + (base[j] * total)**2) / 2 for j in range(len(ks))]
    x = [0 if k == 0 else log(k) for k in ks]
    m = len(ks)
    sx, sy = sum(x), sum(y)
    sxx, sxy = sum([u * u for u in x]), sum([u * v for u, v in zip(x, y)])
    d = m * sxx - sx * sx
    slope = (m * sxy - sx * sy) / d
    return slope, exp((sy - slope * sx) / m)


def r_fit_1(n: "2..3", ignored: "0..1", a: "tup:4 real", b: "tup:4 real"):
    e, c = fit_modal_decay(np.array([a[:n+1], b[:n+1]]), 1, n, ignored)
    return e[0], e[1], c[0], c[1]


def s_fit_1(n, ignored, a, b):
    p, q = line(a[:n+1], 1, n, ignored), line(b[:n+1], 1, n, ignored)
    return p[0], q[0], p[1], q[1]


def r_fit_2(n: "2..2", a: "tup:6 real", b: "tup:6 real"):
    k = (n + 1) * (n + 2) // 2
    e, c = fit_modal_decay(np.array([a[:k], b[:k]]), 2, n, 0)
    return e[0], e[1], c[0], c[1]


def s_fit_2(n, a, b):
    k = (n + 1) * (n + 2) // 2
    p, q = line(a[:k], 2, n, 0), line(b[:k], 2, n, 0)
    return p[0], q[0], p[1], q[1]


def r_fit_default(n: "2..2", a: "tup:6 real", b: "tup:6 real"):
    e, c = fit_modal_decay(np.array([a, b]), 2, n)
    return e[0], e[1], c[0], c[1]


def s_fit_default(n, a, b):
    p, q = line(a, 2, n, 1), line(b, 2, n, 1)
    return p[0], q[0], p[1], q[1]


def r_shapes(n: "2..3", a: "tup:4 real", b: "tup:4 real", c: "tup:4 real"):
    u = np.array([a[:n+1], b[:n+1], c[:n+1]])
    e, k = fit_modal_decay(u, 1, n)
    return e.shape, k.shape, estimate_relative_expansion_residual(u, 1, n).shape


def s_shapes(n, a, b, c):
    return (3,), (3,), (3,)


def residual(c, dims, n, ignored):
    e, k = line(c, dims, n, ignored)
    r = k * sqrt(-(n + 1)**(2 * e + 1) / (2 * e + 1)) / sqrt(sum([x**2 for x in c]))
    return 0 if r > 1 else r


def r_residual_1(n: "2..3", ignored: "0..1", a: "tup:4 real", b: "tup:4 real"):
    r = estimate_relative_expansion_residual(np.array([a[:n+1], b[:n+1]]), 1, n, ignored)
    return r[0], r[1]


def s_residual_1(n, ignored, a, b):
    return residual(a[:n+1], 1, n, ignored), residual(b[:n+1], 1, n, ignored)


def r_residual_2(n: "2..2", a: "tup:6 real", b: "tup:6 real"):
    k = (n + 1) * (n + 2) // 2
    r = estimate_relative_expansion_residual(np.array([a[:k], b[:k]]), 2, n, 0)
    return r[0], r[1]


def s_residual_2(n, a, b):
    k = (n + 1) * (n + 2) // 2
    return residual(a[:k], 2, n, 0), residual(b[:k], 2, n, 0)
