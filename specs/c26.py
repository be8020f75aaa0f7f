"""Kronrod rules and adaptive integration."""
import numpy as np
from speclib import ANY, D, SCALAR

from modepy.quadrature.kronrod import _eignewt, _eigpoly, _eigvec1, gauss, kronrod, make_kronrod_quadrature, quadgk

FINITE = ["on"]
EXPAND = ["modepy.quadrature.kronrod._do_quadgk"]
KEEP = ["modepy.quadrature.kronrod.kronrod"]


def F(x):
    return SCALAR("f", x)


class Fun:
    def __call__(self, x):
        return np.array([SCALAR("f", y) for y in x])


# {{{ the rule

def sides(n):
    """the tabulated half: (node, Kronrod weight, Gauss weight or None) of the nodes left of zero, and of zero"""
    x, w, g = kronrod(n)
    return [(x[i], w[i], g[i // 2] if i % 2 == 1 else None) for i in range(n)], (w[n], g[n // 2] if n % 2 == 1 else None)


def full(n):
    left, mid = sides(n)
    return left + [(0, mid[0], mid[1])] + [(-x, w, g) for x, w, g in left]


def r_kronrod_sum(n: "1..9"):
    """each node carries its own Kronrod weight"""
    return make_kronrod_quadrature(n)(Fun())


def s_kronrod_sum(n):
    return sum(w * F(x) for x, w, g in full(n))


def r_gauss_sum(n: "1..9"):
    """each Gauss node carries its own Gauss weight"""
    return make_kronrod_quadrature(n).gauss_quadrature(Fun())


def s_gauss_sum(n):
    return sum(g * F(x) for x, w, g in full(n) if g is not None)


def r_counts(n: "1..9"):
    """n Gauss nodes and n+1 further nodes, one-dimensional, with their declared exactness"""
    r = make_kronrod_quadrature(n)
    g = r.gauss_quadrature
    return len(g.nodes), len(g.weights), len(r.nodes), len(r.weights), len(r.weights_at_gauss_nodes), r.exact_to, g.exact_to, r.dim, g.dim


def s_counts(n):
    return n, n, n + 1, n + 1, n, 3 * n + 1, 2 * n - 1, 1, 1


def r_symmetric(n: "1..9"):
    """nodes come in mirrored pairs, in order"""
    r = make_kronrod_quadrature(n)
    a, b = r.gauss_quadrature.nodes, r.nodes
    return [a[i] + a[n - 1 - i] for i in range(n)], [b[i] + b[n - i] for i in range(n + 1)]


def s_symmetric(n):
    return [0 for i in range(n)], [0 for i in range(n + 1)]


def r_ascending(n: "1..9"):
    """the Gauss nodes and the further nodes interlace: every other one of the tabulated nodes"""
    r = make_kronrod_quadrature(n)
    a, b = r.gauss_quadrature.nodes, r.nodes
    return [a[i] for i in range(n // 2)], [b[i] for i in range((n + 1) // 2)]


def s_ascending(n):
    x = kronrod(n)[0]
    return [x[2 * i + 1] for i in range(n // 2)], [x[2 * i] for i in range((n + 1) // 2)]


NOKEEP_too_small = ["modepy.quadrature.kronrod.kronrod"]


def r_too_small(n: "-1..0"):
    """rules need a positive order"""
    return quadgk(F, 0, 1, order=n)


def s_too_small(n):
    raise ValueError

# }}}


# {{{ the tabulated numbers: eigenvalues and eigenvectors of the Jacobi-Kronrod matrix

# squared off-diagonal entries of the Jacobi-Kronrod matrices that are not Legendre's (verified: the moments of the matrices
# with these entries are those of the weight 1 up to degree 3n+1, and their characteristic polynomials are divisible by the
# Legendre polynomial)
JK = [
    [],
    [(1, 3)],
    [(172, 495)],
    [(2273, 8580), (143, 420)],
    [(86805, 321776), (57763, 170352)],
    [(39683491, 155131200), (56383440236063, 209652084734400), (8656875, 25677553)],
    [(3531120, 13672879), (8710129258159, 32405713027545), (18339112, 54511665)],
    [(3023374003, 11951121600), (2612099145425316233, 10117158898596894144), (644845980356539742629560720, 2403542110728779232101853691), (114353570981372723, 340708584185910813)],
    [(148461125125, 583516921988), (314742178660156636369, 1218788556457539839772), (76661932928595339180678009715612, 285969105165265389773752676187285), (4748432325528935120519, 14163398039707048636605)],
]


def legendre(j):
    return j * j / (4 * j * j - 1)


def jacobi_kronrod(n):
    k = (3 * n + 1) // 2
    return [legendre(j) for j in range(1, k + 1)] + [p / q for p, q in JK[n - 1]]


def ascending(b, m, n):
    """eigenvalues of the symmetric tridiagonal matrix of order m with off-diagonals b"""
    return np.array([SCALAR("eig", m, i, *[b[j]**2 for j in range(m - 1)]) for i in range(n)])


def component(b, z, m=None):
    if m is None:
        m = len(b) + 1
    return np.array([SCALAR("v1", m, z, *[b[j]**2 for j in range(m - 1)])])


def minors(b2, z, m):
    r = [1, z]
    for i in range(2, m + 1):
        r.append(z * r[i - 1] - b2[i - 2] * r[i - 2])
    return r


def christoffel(b2, z, m):
    """two divided by the sum of the squared orthonormal polynomials"""
    p = minors(b2, z, m)
    s, f = 0, 1
    for i in range(m):
        s = s + p[i]**2 / f
        if i < m - 1:
            f = f * b2[i]
    return 2 / s


def r_char_poly(b: "vec 4", z: "real", m: "1..5"):
    """determinant of z minus the tridiagonal matrix, and its derivative"""
    return _eigpoly(b, z, m)


def s_char_poly(b, z, m):
    p = minors([x * x for x in b], z, m)[m]
    return p, D(p, z)


def r_char_poly_full(b: "vec 3", z: "real"):
    return _eigpoly(b, z)


def s_char_poly_full(b, z):
    p = minors([x * x for x in b], z, 4)[4]
    return p, D(p, z)


def r_first_component(b: "vec 4", z: "real", m: "1..5"):
    """of the normalised eigenvector"""
    return _eigvec1(b, z, m)[0]**2


def s_first_component(b, z, m):
    return christoffel([x * x for x in b], z, m) / 2


def flat(b, z, m=None):
    return 0, 0


REPLACE_seeds = {"modepy.quadrature.kronrod._eigpoly": "flat"}


def r_seeds(b: "vec 3", m: "1..4", n: "1..4"):
    """the smallest eigenvalues of the tridiagonal matrix are refined"""
    return _eignewt(b, m, n)


def s_seeds(b, m, n):
    if n > m:
        return ANY
    h = [[b[min(i, j)] if abs(i - j) == 1 else 0 for j in range(m)] for i in range(m)]
    return np.linalg.eigvalsh(np.array(h))[:n]


def line(b, z, m=None):
    return 2 * (z + 3 / 2), 2


REPLACE_newton = {"modepy.quadrature.kronrod._eigpoly": "line"}


def r_newton(n: "1..2"):
    """towards the zero of the characteristic polynomial"""
    return _eignewt(np.array([1.0]), 2, n)


def s_newton(n):
    return np.array([-3 / 2 for i in range(n)])


def kink(b, z, m=None):
    return (2 * (z + 3 / 2), 2) if z > -5 / 4 else (0, 0)


REPLACE_newton_step = {"modepy.quadrature.kronrod._eigpoly": "kink"}


def r_newton_step():
    return _eignewt(np.array([1.0]), 2, 1)


def s_newton_step():
    return np.array([-3 / 2])


HEADS_table = HEADS_table_large = ["division by zero"]
REPLACE_table = REPLACE_gauss_table = {"modepy.quadrature.kronrod._eignewt": "ascending"}
NOKEEP_table = NOKEEP_table_large = ["modepy.quadrature.kronrod.kronrod"]


def r_table(n: "1..3"):
    """nodes and weights of the Kronrod rule from the Jacobi-Kronrod matrix, weights of the Gauss rule from the Jacobi matrix"""
    return kronrod(n)


def s_table(n):
    b2 = jacobi_kronrod(n)
    x = ascending(np.array([np.sqrt(t) for t in b2]), 2 * n + 1, n + 1)
    g = [legendre(j) for j in range(1, n)]
    return (x, np.array([christoffel(b2, x[i], 2 * n + 1) for i in range(n + 1)]),
            np.array([christoffel(g, x[i], n) for i in range(1, n + 1, 2)]))


REPLACE_table_large = {"modepy.quadrature.kronrod._eignewt": "ascending", "modepy.quadrature.kronrod._eigvec1": "component"}


def r_table_large(n: "1..9"):
    return kronrod(n)


def s_table_large(n):
    b = np.array([np.sqrt(t) for t in jacobi_kronrod(n)])
    x = ascending(b, 2 * n + 1, n + 1)
    g = np.array([np.sqrt(legendre(j)) for j in range(1, n)])
    return (x, np.array([2 * component(b, x[i], 2 * n + 1)[0]**2 for i in range(n + 1)]),
            np.array([2 * component(g, x[i], n)[0]**2 for i in range(1, n + 1, 2)]))


def r_gauss_table(n: "1..5"):
    """the Gauss rule"""
    return gauss(n)


def s_gauss_table(n):
    b2 = [legendre(j) for j in range(1, n)]
    x = ascending(np.array([np.sqrt(t) for t in b2]), n, n)
    return x, np.array([christoffel(b2, x[i], n) for i in range(n)])


def r_gauss_too_small(n: "-1..0"):
    return gauss(n)


def s_gauss_too_small(n):
    raise ValueError

# }}}


# {{{ adaptive integration

class Piece:
    def __init__(self, a, b, value, error):
        self.a, self.b, self.value, self.error = a, b, value, error


def piece(f, n, a, b):
    """Kronrod value and error estimate on [a, b]"""
    s = (b - a) / 2
    k, g = 0, 0
    for x, w, gw in full(n):
        v = f(a + (1 + x) * s)
        k = k + w * v
        if gw is not None:
            g = g + gw * v
    e = abs(s * k - s * g)
    if np.isnan(e) or np.isinf(e):
        raise ValueError
    return Piece(a, b, s * k, e)


def start(f, n, pts):
    return [piece(f, n, pts[i], pts[i + 1]) for i in range(len(pts) - 1)]


def r_pieces(n: "1..5", k: "2..4", p: "tup:4 real", abstol: "real", reltol: "real"):
    """without refinement: the sum of the values on the given pieces, and of their errors"""
    return quadgk(F, *p[:k], order=n, abstol=abstol, reltol=reltol, maxevals=0)


def s_pieces(n, k, p, abstol, reltol):
    q = start(F, n, p[:k])
    return sum(x.value for x in q), sum(x.error for x in q)


def r_default_order(p: "tup:2 real"):
    """the order is seven unless given"""
    return quadgk(F, p[0], p[1], maxevals=15)


def s_default_order(p):
    q = piece(F, 7, p[0], p[1])
    return q.value, q.error


def r_refined(n: "1..4", p: "tup:2 real", abstol: "real", reltol: "real"):
    """one bisection if both tolerances are exceeded"""
    return quadgk(F, p[0], p[1], order=n, abstol=abstol, reltol=reltol, maxevals=2 * n + 2)


def s_refined(n, p, abstol, reltol):
    q = piece(F, n, p[0], p[1])
    if not (abstol < q.error and reltol * abs(q.value) < q.error):
        return q.value, q.error
    m = (p[0] + p[1]) / 2
    u, v = piece(F, n, p[0], m), piece(F, n, m, p[1])
    return u.value + v.value, u.error + v.error


def r_budget(n: "1..4", p: "tup:2 real", abstol: "real", reltol: "real"):
    """no bisection once the budget is used up"""
    return quadgk(F, p[0], p[1], order=n, abstol=abstol, reltol=reltol, maxevals=2 * n + 1)


def s_budget(n, p, abstol, reltol):
    q = piece(F, n, p[0], p[1])
    return q.value, q.error


def r_counted(n: "1..3", p: "tup:2 real", abstol: "real", reltol: "real"):
    """both halves count towards the budget"""
    return quadgk(F, p[0], p[1], order=n, abstol=abstol, reltol=reltol, maxevals=4 * n + 3)


def s_counted(n, p, abstol, reltol):
    return s_refined(n, p, abstol, reltol)


def r_worst(p: "tup:3 real", abstol: "real", reltol: "real"):
    """of two pieces, the one of the larger error is bisected"""
    return quadgk(F, p[0], p[1], p[2], order=1, abstol=abstol, reltol=reltol, maxevals=7)


def s_worst(p, abstol, reltol):
    q = start(F, 1, p)
    e = q[0].error + q[1].error
    if not (abstol < e and reltol * abs(q[0].value + q[1].value) < e):
        return q[0].value + q[1].value, e
    if q[0].error == q[1].error:
        return ANY
    i = 0 if q[0].error > q[1].error else 1
    m = (q[i].a + q[i].b) / 2
    r = [piece(F, 1, q[i].a, m), piece(F, 1, m, q[i].b), q[1 - i]]
    return sum(x.value for x in r), sum(x.error for x in r)


def r_twice(p: "tup:2 real", abstol: "real", reltol: "real"):
    """two bisections"""
    return quadgk(F, p[0], p[1], order=1, abstol=abstol, reltol=reltol, maxevals=10)


def s_twice(p, abstol, reltol):
    q = piece(F, 1, p[0], p[1])
    if not (abstol < q.error and reltol * abs(q.value) < q.error):
        return q.value, q.error
    m = (p[0] + p[1]) / 2
    q = [piece(F, 1, p[0], m), piece(F, 1, m, p[1])]
    e = q[0].error + q[1].error
    if not (abstol < e and reltol * abs(q[0].value + q[1].value) < e):
        return q[0].value + q[1].value, e
    if q[0].error == q[1].error:
        return ANY
    i = 0 if q[0].error > q[1].error else 1
    m = (q[i].a + q[i].b) / 2
    r = [piece(F, 1, q[i].a, m), piece(F, 1, m, q[i].b), q[1 - i]]
    return sum(x.value for x in r), sum(x.error for x in r)


def r_few_points(k: "0..1", a: "real"):
    """one point is no interval"""
    return quadgk(F, *[a][:k])


def s_few_points(k, a):
    raise ValueError

# }}}


# {{{ infinite intervals

def both(t):
    """x = t/(1 - t^2)"""
    return F(t / (1 - t * t)) * (1 + t * t) / (1 - t * t)**2


def r_whole_line(n: "1..4", reverse: "lit False,True"):
    p = (np.inf, -np.inf) if reverse else (-np.inf, np.inf)
    return quadgk(F, *p, order=n, maxevals=0)


def s_whole_line(n, reverse):
    q = piece(both, n, 1, -1) if reverse else piece(both, n, -1, 1)
    return q.value, q.error


def r_whole_line_breaks(n: "1..3", c: "tup:2 real", k: "1..2", reverse: "lit False,True"):
    """with break points, in either orientation"""
    p = [-np.inf, *c[:k], np.inf]
    return quadgk(F, *(p[::-1] if reverse else p), order=n, maxevals=0)


def inner(x):
    return 2 * x / (1 + np.hypot(1, 2 * x))


def s_whole_line_breaks(n, c, k, reverse):
    p = [-1, *[inner(x) for x in c[:k]], 1]
    q = start(both, n, p[::-1] if reverse else p)
    return sum(x.value for x in q), sum(x.error for x in q)


class Right:
    """x = c + t/(1 - t)"""

    def __init__(self, c):
        self.c = c

    def __call__(self, t):
        return F(self.c + t / (1 - t)) / (1 - t)**2


class Left:
    """x = c - t/(1 - t)"""

    def __init__(self, c):
        self.c = c

    def __call__(self, t):
        return F(self.c - t / (1 - t)) / (1 - t)**2


def r_half_line(n: "1..4", c: "real", kind: "0..3"):
    """both half lines in both orientations"""
    p = [(c, np.inf), (np.inf, c), (-np.inf, c), (c, -np.inf)][kind]
    return quadgk(F, *p, order=n, maxevals=0)


def s_half_line(n, c, kind):
    q = piece(Right(c), n, 0, 1) if kind < 2 else piece(Left(c), n, 0, 1)
    return (-q.value if kind in (1, 3) else q.value), q.error


def r_half_line_breaks(n: "1..3", c: "real", d: "tup:2 pos", kind: "0..3"):
    """break points inside"""
    p = [(c, c + d[0], c + d[0] + d[1], np.inf), (np.inf, c + d[0] + d[1], c + d[0], c),
         (-np.inf, c - d[0] - d[1], c - d[0], c), (c, c - d[0], c - d[0] - d[1], -np.inf)][kind]
    return quadgk(F, *p, order=n, maxevals=0)


def s_half_line_breaks(n, c, d, kind):
    g = Right(c) if kind < 2 else Left(c)
    q = start(g, n, [0, d[0] / (1 + d[0]), (d[0] + d[1]) / (1 + d[0] + d[1]), 1])
    v = sum(x.value for x in q)
    return (-v if kind in (1, 3) else v), sum(x.error for x in q)

# }}}
