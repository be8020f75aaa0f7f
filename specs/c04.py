"""A tensor product basis enumerates modes, functions, gradients and derivatives alike, first factor fastest."""
import numpy as np
from modepy.modes import TensorProductBasis, basis_for_space, orthonormal_basis_for_space, monomial_basis_for_space
from modepy.spaces import PN, QN
from modepy.shapes import Simplex, Hypercube


def factors(kind, n):
    on, mo = orthonormal_basis_for_space, monomial_basis_for_space
    if kind == 0:
        return ([on(PN(1, n), Simplex(1)), on(PN(1, 2), Simplex(1))], (1, 1))
    if kind == 1:
        return ([mo(PN(1, 1), Simplex(1)), mo(PN(1, n), Simplex(1)), mo(PN(1, 2), Simplex(1))], (1, 1, 1))
    if kind == 2:
        return ([on(PN(2, n), Simplex(2)), on(PN(1, 2), Simplex(1))], (2, 1))
    if kind == 3:
        return ([mo(PN(1, 2), Simplex(1)), mo(PN(2, n), Simplex(2))], (1, 2))
    if kind == 4:
        return ([mo(PN(1, 2), Simplex(1)), on(PN(3, 1), Simplex(3)), mo(PN(2, 1), Simplex(2))], (1, 3, 2))
    # nested: a factor that is itself a tensor product
    return ([mo(PN(1, 1), Simplex(1)), mo(QN(2, 1), Hypercube(2))], (1, 2))


def order(sizes):
    return [t[::-1] for t in np.ndindex(tuple(sizes[::-1]))]


def starts(dims):
    return [sum(dims[:i]) for i in range(len(dims))]


def flat_id(mids, allids):
    r = ()
    for m, ids in zip(mids, allids):
        if all(isinstance(x, tuple) and len(x) == 1 for x in ids):
            r = r + m
        else:
            r = r + (m,)
    return r


def r_modes(kind: "0..5", n: "0..2"):
    bs, dims = factors(kind, n)
    return TensorProductBasis(bs, dims_per_basis=dims).mode_ids


def s_modes(kind, n):
    bs, dims = factors(kind, n)
    ids = [b.mode_ids for b in bs]
    return tuple(flat_id([ids[i][t[i]] for i in range(len(bs))], ids) for t in order([len(x) for x in ids]))


def r_functions(kind: "0..5", n: "0..2", x: "arr:6 real"):
    bs, dims = factors(kind, n)
    d = sum(dims)
    return [f(x[:d]) for f in TensorProductBasis(bs, dims_per_basis=dims).functions]


def s_functions(kind, n, x):
    bs, dims = factors(kind, n)
    st = starts(dims)
    vals = [[f(x[st[i]:st[i] + dims[i]]) for f in b.functions] for i, b in enumerate(bs)]
    return [product([vals[i][t[i]] for i in range(len(bs))]) for t in order([len(v) for v in vals])]


def product(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def r_gradients(kind: "0..5", n: "0..1", x: "arr:6 real"):
    bs, dims = factors(kind, n)
    d = sum(dims)
    return [list(g(x[:d])) for g in TensorProductBasis(bs, dims_per_basis=dims).gradients]


def s_gradients(kind, n, x):
    bs, dims = factors(kind, n)
    st = starts(dims)
    k = len(bs)
    xs = [x[st[i]:st[i] + dims[i]] for i in range(k)]
    vals = [[f(y) for f in b.functions] for b, y in zip(bs, xs)]
    ders = [[list(g(y)) for g in b.gradients] for b, y in zip(bs, xs)]
    return [[product([ders[i][t[i]][c] if i == j else vals[i][t[i]] for i in range(k)])
             for j in range(k) for c in range(dims[j])]
            for t in order([len(v) for v in vals])]


def r_derivatives(kind: "0..5", n: "0..1", x: "arr:6 real"):
    bs, dims = factors(kind, n)
    d = sum(dims)
    b = TensorProductBasis(bs, dims_per_basis=dims)
    return [[f(x[:d]) for f in b.derivatives(a)] for a in range(d)]


def s_derivatives(kind, n, x):
    bs, dims = factors(kind, n)
    st = starts(dims)
    k = len(bs)
    xs = [x[st[i]:st[i] + dims[i]] for i in range(k)]
    vals = [[f(y) for f in b.functions] for b, y in zip(bs, xs)]
    ders = [[list(g(y)) for g in b.gradients] for b, y in zip(bs, xs)]
    return [[product([ders[i][t[i]][c] if i == j else vals[i][t[i]] for i in range(k)])
             for t in order([len(v) for v in vals])]
            for j in range(k) for c in range(dims[j])]


def r_default_dims(n: "0..2", m: "0..2", x: "arr:2 real"):
    bs = [monomial_basis_for_space(PN(1, n), Simplex(1)), monomial_basis_for_space(PN(1, m), Simplex(1))]
    b = TensorProductBasis(bs)
    return (b.mode_ids, [f(x) for f in b.functions], [list(g(x)) for g in b.gradients])


def s_default_dims(n, m, x):
    ids = order([n + 1, m + 1])
    return (tuple(ids), [x[0]**i * x[1]**j for i, j in ids],
            [[(i*x[0]**(i - 1) if i else 0) * x[1]**j, x[0]**i * (j*x[1]**(j - 1) if j else 0)] for i, j in ids])


class Weighted:
    def __init__(self, w):
        self.w = w
        self.functions = ()
        self.mode_ids = ()
        self.gradients = ()

    def orthonormality_weight(self):
        return self.w


def r_weight(a: "real", b: "real", c: "real"):
    return TensorProductBasis([Weighted(a), Weighted(b), Weighted(c)], (1, 1, 1)).orthonormality_weight()


def s_weight(a, b, c):
    return a*b*c


def r_bases(n: "0..2"):
    bs, dims = factors(0, n)
    return len(TensorProductBasis(bs, dims_per_basis=dims).bases)


def s_bases(n):
    return 2


# {{{ arbitrary factors: a client's bases with functions nothing is known about

from speclib import SCALAR


class Fun:
    def __init__(self, name, i):
        self.name = name
        self.i = i

    def __call__(self, x):
        return SCALAR(self.name, self.i, *[x[k] for k in range(len(x))])


class Grad(Fun):
    """tuple of derivatives, one per axis"""
    def __init__(self, name, i, dim):
        self.name = name
        self.i = i
        self.dim = dim

    def __call__(self, x):
        return tuple(SCALAR("d" + self.name, self.i, k, *[x[j] for j in range(self.dim)]) for k in range(self.dim))


class Client:
    def __init__(self, name, dim, ids, number):
        self.mode_ids = ids
        self.functions = tuple(Fun(name, i) for i in range(number))
        self.gradients = tuple(Grad(name, i, dim) for i in range(number))
        self.name = name
        self.dim = dim
        self.number = number

    def orthonormality_weight(self):
        return 1

    def derivatives(self, axis):
        return tuple(Part(self.name, i, self.dim, axis) for i in range(self.number))


class Part(Fun):
    def __init__(self, name, i, dim, axis):
        self.name = name
        self.i = i
        self.dim = dim
        self.axis = axis

    def __call__(self, x):
        return SCALAR("d" + self.name, self.i, self.axis, *[x[j] for j in range(self.dim)])


def client(kind):
    """factors of different sizes and dimensions; identifiers of every form"""
    a = Client("a", 1, ((0,), (1,)), 2)
    b = Client("b", 2, ((0, 0), (1, 0), (0, 1)), 3)
    c = Client("c", 1, ((0,), "bubble"), 2)
    d = Client("d", 3, ("p", "q"), 2)
    e = Client("e", 1, ((5,), (2,), (7,)), 3)
    g = Client("g", 1, (3, 4), 2)
    one = Client("o", 1, ((0,),), 1)
    h = Client("h", 1, (("v",), ("w",)), 2)
    if kind == 0:
        return [a, e, g, c]
    if kind == 1:
        return [b, c]
    if kind == 2:
        return [d, a, b]
    if kind == 3:
        return [one, e, one, a, g]
    if kind == 4:
        return [e]
    if kind == 5:
        return [h, a]
    return [c, d, one, a]


def client_basis(kind):
    bs = client(kind)
    return TensorProductBasis(bs, dims_per_basis=tuple(b.dim for b in bs))


def plain(i):
    return isinstance(i, tuple) and len(i) == 1 and isinstance(i[0], int)


def r_client_modes(kind: "0..6"):
    return client_basis(kind).mode_ids


def s_client_modes(kind):
    bs = client(kind)
    r = ()
    for t in order([b.number for b in bs]):
        m = ()
        for b, i in zip(bs, t):
            if all(plain(x) for x in b.mode_ids):
                m = m + b.mode_ids[i]
            else:
                m = m + (b.mode_ids[i],)
        r = r + (m,)
    return r


def r_client_functions(kind: "0..6", x: "arr:6 real"):
    d = sum(b.dim for b in client(kind))
    return [f(x[:d]) for f in client_basis(kind).functions]


def s_client_functions(kind, x):
    bs = client(kind)
    st = starts([b.dim for b in bs])
    return [product([b.functions[i](x[s:s + b.dim]) for b, i, s in zip(bs, t, st)]) for t in order([b.number for b in bs])]


def r_client_gradients(kind: "0..6", x: "arr:6 real"):
    d = sum(b.dim for b in client(kind))
    return [list(f(x[:d])) for f in client_basis(kind).gradients]


def client_derivative(bs, t, x, j, c):
    st = starts([b.dim for b in bs])
    return product([b.gradients[i](x[s:s + b.dim])[c] if k == j else b.functions[i](x[s:s + b.dim])
                    for k, (b, i, s) in enumerate(zip(bs, t, st))])


def s_client_gradients(kind, x):
    bs = client(kind)
    return [[client_derivative(bs, t, x, j, c) for j in range(len(bs)) for c in range(bs[j].dim)]
            for t in order([b.number for b in bs])]


def r_client_derivatives(kind: "0..6", x: "arr:6 real"):
    d = sum(b.dim for b in client(kind))
    b = client_basis(kind)
    return [[f(x[:d]) for f in b.derivatives(a)] for a in range(d)]


def s_client_derivatives(kind, x):
    bs = client(kind)
    return [[client_derivative(bs, t, x, j, c) for t in order([b.number for b in bs])]
            for j in range(len(bs)) for c in range(bs[j].dim)]

# }}}
