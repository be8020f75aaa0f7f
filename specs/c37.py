"""Linear combinations, orthogonalised bases, and weights by undetermined coefficients."""
import numpy as np
import numpy.linalg as la
from speclib import ANY, VEC, SCALAR

from modepy.quadrature.construction import (LinearCombinationIntegrand, adapt_2d_integrands_to_complex_arg, find_weights_undetermined_coefficients,
                                            guess_nodes_vioreanu_rokhlin, linearly_combine, orthogonalize_basis)


class Fun:
    def __init__(self, k, tag="f"):
        self.k, self.tag = k, tag

    def __call__(self, nodes):
        return VEC(self.tag, self.k, nodes)

    def __eq__(self, other):
        return isinstance(other, Fun) and other.k == self.k and other.tag == self.tag


def funs(m, how):
    r = [Fun(k) for k in range(m)]
    return tuple(r) if how else r


# {{{ evaluation

def r_value(m: "1..4", c: "tup:4 real", how: "lit False,True", x: "mat d n"):
    """the sum of coefficient times function"""
    return LinearCombinationIntegrand(np.array(c[:m]), funs(m, how))(x)


def s_value(m, c, how, x):
    r = c[0] * VEC("f", 0, x)
    for k in range(1, m):
        r = r + c[k] * VEC("f", k, x)
    return r


def r_combine(m: "1..4", c: "tup:4 real", how: "lit False,True", x: "mat d n"):
    return linearly_combine(np.array(c[:m]), funs(m, how))(x)


def s_combine(m, c, how, x):
    r = c[0] * VEC("f", 0, x)
    for k in range(1, m):
        r = r + c[k] * VEC("f", k, x)
    return r


def lc(c, m, how):
    return linearly_combine(np.array(c[:m]), funs(m, how))


def total(a, c, ms, x):
    r = 0
    for i in range(len(ms)):
        for k in range(ms[i]):
            r = r + a[i] * c[i][k] * VEC("f", k, x)
    return r


LENGTHS = [(2,), (2, 2), (1, 3), (3, 1), (2, 1), (4, 4), (3, 3, 3), (1, 2, 3), (3, 1, 2), (2, 3, 2), (1, 1, 1), (4, 2, 3)]


def r_nested(i: "0..11", a: "tup:3 real", c: "tup:3 tup:4 real", how: "lit False,True", x: "mat d n"):
    """combinations of combinations over a common basis, of any lengths"""
    ms = LENGTHS[i]
    return linearly_combine(np.array(a[:len(ms)]), [lc(c[j], ms[j], how) for j in range(len(ms))])(x)


def s_nested(i, a, c, how, x):
    return total(a, c, LENGTHS[i], x)


def r_twice(i: "0..11", a: "tup:3 real", b: "tup:2 real", c: "tup:3 tup:4 real", x: "mat d n"):
    """three levels"""
    ms = LENGTHS[i]
    inner = linearly_combine(np.array(a[:len(ms)]), [lc(c[j], ms[j], False) for j in range(len(ms))])
    return linearly_combine(np.array(b), [inner, lc(c[0], ms[0], False)])(x)


def s_twice(i, a, b, c, x):
    r = b[0] * total(a, c, LENGTHS[i], x)
    for k in range(LENGTHS[i][0]):
        r = r + b[1] * c[0][k] * VEC("f", k, x)
    return r


def r_mixed(a: "tup:2 real", c: "tup:4 real", first: "lit False,True", x: "mat d n"):
    """a combination and a plain function"""
    fs = [lc(c, 2, False), Fun(7)]
    return linearly_combine(np.array(a), fs if first else fs[::-1])(x)


def s_mixed(a, c, first, x):
    z = c[0] * VEC("f", 0, x) + c[1] * VEC("f", 1, x)
    return a[0] * z + a[1] * VEC("f", 7, x) if first else a[0] * VEC("f", 7, x) + a[1] * z


def r_other(a: "tup:2 real", c: "tup:2 tup:2 real", k: "0..2", x: "mat d n"):
    """combinations over different bases"""
    second = [[Fun(5), Fun(6)], [Fun(0), Fun(6)], [Fun(1), Fun(0)]][k]
    return linearly_combine(np.array(a), [linearly_combine(np.array(c[0]), [Fun(0), Fun(1)]), linearly_combine(np.array(c[1]), second)])(x)


def s_other(a, c, k, x):
    js = [(5, 6), (0, 6), (1, 0)][k]
    return a[0] * (c[0][0] * VEC("f", 0, x) + c[0][1] * VEC("f", 1, x)) + a[1] * (c[1][0] * VEC("f", js[0], x) + c[1][1] * VEC("f", js[1], x))


BASES = [([0], [5]), ([0], [5, 6]), ([0], [1, 0]), ([0, 1], [5]), ([0, 1, 2], [1]), ([0, 1, 2], [0, 2]), ([0, 1], [0, 2, 1]), ([0, 1], [1])]


def r_other_lengths(a: "tup:2 real", c: "tup:2 tup:3 real", k: "0..7", x: "mat d n"):
    """different bases of any lengths"""
    p, q = BASES[k]
    return linearly_combine(np.array(a), [linearly_combine(np.array(c[0][:len(p)]), [Fun(j) for j in p]),
                                          linearly_combine(np.array(c[1][:len(q)]), [Fun(j) for j in q])])(x)


def s_other_lengths(a, c, k, x):
    p, q = BASES[k]
    r = 0
    for i in range(len(p)):
        r = r + a[0] * c[0][i] * VEC("f", p[i], x)
    for i in range(len(q)):
        r = r + a[1] * c[1][i] * VEC("f", q[i], x)
    return r


def r_complex(a: "tup:2 real", b: "tup:2 real", c: "tup:2 tup:3 real", e: "tup:2 tup:3 real"):
    """complex coefficients multiply, without conjugation"""
    r = linearly_combine(np.array([a[0] + 1j * b[0], a[1] + 1j * b[1]]),
                         [linearly_combine(np.array([c[i][k] + 1j * e[i][k] for k in range(3)]), funs(3, False)) for i in range(2)])
    return [f.k for f in r.functions], r.coefficients


def s_complex(a, b, c, e):
    return [0, 1, 2], np.array([sum((a[i] + 1j * b[i]) * (c[i][k] + 1j * e[i][k]) for i in range(2)) for k in range(3)])


def r_flat(a: "tup:2 real", c: "tup:2 tup:3 real"):
    """combinations over a common basis become one combination of the basis"""
    r = linearly_combine(np.array(a), [lc(c[0], 3, False), lc(c[1], 3, False)])
    return len(r.functions), [f.k for f in r.functions], r.coefficients


def s_flat(a, c):
    return 3, [0, 1, 2], np.array([a[0] * c[0][k] + a[1] * c[1][k] for k in range(3)])

# }}}


# {{{ orthogonalisation

class Values:
    """a function given by its values at the two integration points; elsewhere it is arbitrary"""

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __call__(self, nodes):
        return np.array([self.v[0] * nodes[0], self.v[1] * nodes[1]])


def integrate(f):
    """some integral: one point of weight three, one of weight two"""
    z = f(np.array([1, 1]))
    return 3 * z[0] + 2 * z[1]


def r_orthogonal(v: "tup:3 tup:2 real", m: "1..3"):
    """rows of the inverse Cholesky factor of the Gram matrix"""
    return [f.coefficients for f in orthogonalize_basis(integrate, [Values(v[k], k) for k in range(m)])]


def s_orthogonal(v, m):
    z = la.inv(la.cholesky(np.array([[3 * v[i][0] * v[j][0] + 2 * v[i][1] * v[j][1] for j in range(m)] for i in range(m)])))
    return [np.array([z[i, j] for j in range(i + 1)]) for i in range(m)]


MISSING_orthogonal_plain = ["scipy"]


def r_orthogonal_plain(v: "tup:3 tup:2 real", m: "1..3"):
    """the same without scipy"""
    return [f.coefficients for f in orthogonalize_basis(integrate, [Values(v[k], k) for k in range(m)])]


def s_orthogonal_plain(v, m):
    return s_orthogonal(v, m)


def cplx(v, w):
    return np.array([v[0] + 1j * w[0], v[1] + 1j * w[1]])


def r_hermitian(v: "tup:3 tup:2 real", w: "tup:3 tup:2 real", m: "1..3"):
    """complex functions, whose Gram matrix is Hermitian"""
    return [f.coefficients for f in orthogonalize_basis(integrate, [Values(cplx(v[k], w[k]), k) for k in range(m)])]


def s_hermitian(v, w, m):
    def entry(i, j):
        return sum(c * (v[i][q] + 1j * w[i][q]) * (v[j][q] - 1j * w[j][q]) for q, c in [(0, 3), (1, 2)])
    z = la.inv(la.cholesky(np.array([[entry(i, j) for j in range(m)] for i in range(m)])))
    return [np.array([z[i, j] for j in range(i + 1)]) for i in range(m)]


def r_orthogonal_functions(v: "tup:3 tup:2 real", m: "1..3", x: "tup:2 real"):
    """... applied to the leading basis functions"""
    return [f(np.array(x)) for f in orthogonalize_basis(integrate, [Values(v[k], k) for k in range(m)])]


def s_orthogonal_functions(v, m, x):
    z = la.inv(la.cholesky(np.array([[3 * v[i][0] * v[j][0] + 2 * v[i][1] * v[j][1] for j in range(m)] for i in range(m)])))
    return [np.array([sum(z[i, j] * v[j][q] * x[q] for j in range(i + 1)) for q in range(2)]) for i in range(m)]


HEADS_nodes = ["numpy.linalg.eigh", "entry", "proj", "call"]


def r_nodes(v: "tup:3 tup:2 real", w: "tup:3 tup:2 real", m: "1..3"):
    """node guesses: eigenvalues of the multiplication operator in the orthonormal basis"""
    def weighted(f):
        z = f(np.array([5, 7]))
        return 3 * z[0] + 2 * z[1]
    return guess_nodes_vioreanu_rokhlin(weighted, [Values(cplx(v[k], w[k]), k) for k in range(m)])


def s_nodes(v, w, m):
    def entry(i, j):
        return sum(c * p * p * p * (v[i][q] + 1j * w[i][q]) * (v[j][q] - 1j * w[j][q]) for q, c, p in [(0, 3, 5), (1, 2, 7)])
    return la.eigvals(np.array([[entry(i, j) for j in range(m)] for i in range(m)]))


class Linear:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, p):
        return self.a * p[0] + self.b * p[1] * p[0]


def r_adapt(ab: "tup:2 tup:2 real", x: "tup:3 real", y: "tup:3 real"):
    """functions of the plane seen as functions of a complex variable"""
    z = np.array([x[0] + 1j * y[0], x[1] + 1j * y[1], x[2] + 1j * y[2]])
    return [f(z) for f in adapt_2d_integrands_to_complex_arg([Linear(ab[0][0], ab[0][1]), Linear(ab[1][0], ab[1][1])])]


def s_adapt(ab, x, y):
    return [np.array([a * x[k] + b * y[k] * x[k] for k in range(3)]) for a, b in ab]

# }}}


# {{{ weights

def r_weights(m: "1..4", nodes: "mat d n", ints: "vec i"):
    """the least-squares solution of the transposed Vandermonde system"""
    return find_weights_undetermined_coefficients([Fun(k) for k in range(m)], nodes, ints)


def s_weights(m, nodes, ints):
    if len(ints) != m:
        raise ValueError
    return la.lstsq(np.stack([VEC("f", k, nodes) for k in range(m)], axis=0), ints)[0]

# }}}
