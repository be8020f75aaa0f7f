"""Grundmann-Moeller rules follow the published formula."""
from math import factorial
import numpy as np
from modepy.quadrature.grundmann_moeller import GrundmannMoellerSimplexQuadrature


def tuples(n, k):
    """all k-tuples of nonnegative integers with sum n"""
    if k == 1:
        return [(n,)]
    return [(i, *r) for i in range(n + 1) for r in tuples(n - i, k - 1)]


def rule(s, n):
    """point (reference coordinates) -> weight"""
    w = {}
    d = 2 * s + 1
    for i in range(s + 1):
        q = d + n - 2 * i
        for b in tuples(s - i, n + 1):
            # the first barycentric coordinate belongs to the vertex (-1, ..., -1)
            p = tuple([2 * (2 * b[j + 1] + 1) / q - 1 for j in range(n)])
            w[p] = w.get(p, 0) + 2**n * (-1)**i * q**d / (4**s * factorial(i) * factorial(d + n - i))
    return w


def table(q, n):
    """the same from a rule, also if a point is listed more than once"""
    w = {}
    for k in range(q.nodes.shape[1]):
        p = tuple([q.nodes[j, k] for j in range(n)])
        w[p] = w.get(p, 0) + q.weights[k]
    return w


def order(w, s, n):
    """in the order of a reference list of points; None where there is none"""
    return [w.get(p) for p in rule(s, n)]


def r_line(s: "0..9"):
    q = GrundmannMoellerSimplexQuadrature(s, 1)
    w = table(q, 1)
    return (order(w, s, 1), len(w))


def s_line(s):
    w = rule(s, 1)
    return (order(w, s, 1), len(w))


def r_triangle(s: "0..5"):
    q = GrundmannMoellerSimplexQuadrature(s, 2)
    w = table(q, 2)
    return (order(w, s, 2), len(w))


def s_triangle(s):
    w = rule(s, 2)
    return (order(w, s, 2), len(w))


def r_tetrahedron(s: "0..4"):
    q = GrundmannMoellerSimplexQuadrature(s, 3)
    w = table(q, 3)
    return (order(w, s, 3), len(w))


def s_tetrahedron(s):
    w = rule(s, 3)
    return (order(w, s, 3), len(w))


def r_higher(n: "4..7", s: "0..1"):
    q = GrundmannMoellerSimplexQuadrature(s, n)
    w = table(q, n)
    return (order(w, s, n), len(w))


def s_higher(n, s):
    w = rule(s, n)
    return (order(w, s, n), len(w))


def r_merged(n: "1..3", s: "0..3"):
    """no point is listed twice"""
    q = GrundmannMoellerSimplexQuadrature(s, n)
    return (q.nodes.shape, q.weights.shape)


def s_merged(n, s):
    k = len(rule(s, n))
    return ((n, k), (k,))


def r_zero(s: "0..4"):
    q = GrundmannMoellerSimplexQuadrature(s, 0)
    return (q.nodes.shape, q.weights.shape, q.weights[0])


def s_zero(s):
    return ((0, 1), (1,), 1)


def r_volume(n: "1..7", s: "0..1"):
    q = GrundmannMoellerSimplexQuadrature(s, n)
    return np.sum(q.weights)


def s_volume(n, s):
    return 2**n / factorial(n)


def r_volume_more(n: "1..4", s: "2..3"):
    q = GrundmannMoellerSimplexQuadrature(s, n)
    return np.sum(q.weights)


def s_volume_more(n, s):
    return 2**n / factorial(n)


def powers(n, d):
    """exponents of total degree at most d"""
    if n == 0:
        return [()]
    return [(i, *r) for i in range(d + 1) for r in powers(n - 1, d - i)]


def product(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def r_exact(n: "1..3", s: "0..2"):
    """integrals of all monomials of degree up to 2s+1 in (1+x)/2"""
    q = GrundmannMoellerSimplexQuadrature(s, n)
    return [sum([q.weights[k] * product([((1 + q.nodes[j, k]) / 2)**a[j] for j in range(n)]) for k in range(q.nodes.shape[1])])
            for a in powers(n, 2 * s + 1)]


def s_exact(n, s):
    return [2**n * product([factorial(b) for b in a]) / factorial(sum(a) + n) for a in powers(n, 2 * s + 1)]
