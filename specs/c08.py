"""Basis lookup builds the right basis for the space."""
from speclib import ANY
import numpy as np
from modepy.modes import (basis_for_space, orthonormal_basis_for_space, monomial_basis_for_space, TensorProductBasis,
    jacobi, pkdo_2d, pkdo_3d, monomial)
from modepy.spaces import PN, QN, TensorProductSpace
from modepy.shapes import Simplex, Hypercube, TensorProductShape


def ids(dim, n):
    return [t for t in np.ndindex((n + 1,)*dim) if sum(t) <= n]


def lookup(which):
    return basis_for_space if which == 0 else orthonormal_basis_for_space if which == 1 else monomial_basis_for_space


def ortho_value(mid, x):
    if len(mid) == 0:
        return 1
    if len(mid) == 1:
        return jacobi(0, 0, mid[0], x[0])
    if len(mid) == 2:
        return pkdo_2d(mid, x)
    return pkdo_3d(mid, x)


def mono_value(mid, x):
    r = 1
    for i, e in enumerate(mid):
        r = r * x[i]**e
    return r


def r_orthonormal(which: "0..1", dim: "1..3", n: "0..3", x: "arr:3 real"):
    b = lookup(which)(PN(dim, n), Simplex(dim))
    return (sorted(b.mode_ids), [f(x[:dim]) for f in b.functions])


def s_orthonormal(which, dim, n, x):
    b = lookup(which)(PN(dim, n), Simplex(dim))
    return (ids(dim, n), [ortho_value(m, x[:dim]) for m in b.mode_ids])


def r_monomial(which: "0,2", dim: "0..4", n: "0..2", x: "arr:5 real"):
    if which == 0 and dim < 4:
        return None
    b = lookup(which)(PN(dim, n), Simplex(dim))
    return (sorted(b.mode_ids), [f(x[:dim]) for f in b.functions])


def s_monomial(which, dim, n, x):
    if which == 0 and dim < 4:
        return None
    b = lookup(which)(PN(dim, n), Simplex(dim))
    return (ids(dim, n), [mono_value(m, x[:dim]) for m in b.mode_ids])


def r_zero_dim(which: "0..1", n: "0..2", x: "mat 0 m"):
    b = lookup(which)(PN(0, n), Simplex(0))
    return (b.mode_ids, [f(x) for f in b.functions])


def s_zero_dim(which, n, x):
    return (((),), [np.ones(x.shape[1:])])


def spaces(kind, n):
    if kind == 0:
        return (PN(1, n), PN(1, 1)), (Simplex(1), Simplex(1))
    if kind == 1:
        return (PN(2, n), PN(1, 2)), (Simplex(2), Simplex(1))
    if kind == 2:
        return (PN(1, 2), PN(2, n)), (Simplex(1), Simplex(2))
    if kind == 3:
        return (PN(1, 1), PN(1, n), PN(1, 2)), (Simplex(1), Simplex(1), Simplex(1))
    if kind == 4:
        return (PN(1, 1), PN(3, n)), (Simplex(1), Simplex(3))
    return (PN(4, 1), PN(1, n)), (Simplex(4), Simplex(1))


def r_tp(which: "0..2", kind: "0..5", n: "0..1", x: "arr:5 real"):
    if which == 1 and kind == 5:
        return None
    sps, shs = spaces(kind, n)
    b = lookup(which)(TensorProductSpace(sps), TensorProductShape(shs))
    dim = sum([s.dim for s in shs])
    return (b.mode_ids, len(b.bases), [f(x[:dim]) for f in b.functions])


def s_tp(which, kind, n, x):
    if which == 1 and kind == 5:
        return None
    sps, shs = spaces(kind, n)
    b = TensorProductBasis([lookup(which)(sp, sh) for sp, sh in zip(sps, shs)], tuple([s.dim for s in shs]))
    dim = sum([s.dim for s in shs])
    return (b.mode_ids, len(sps), [f(x[:dim]) for f in b.functions])


def r_hypercube(which: "0..2", dim: "2..3", n: "0..2", x: "arr:3 real"):
    b = lookup(which)(QN(dim, n), Hypercube(dim))
    return (b.mode_ids, [f(x[:dim]) for f in b.functions])


def s_hypercube(which, dim, n, x):
    m = [t[::-1] for t in np.ndindex((n + 1,)*dim)]
    if which == 2:
        return (tuple(m), [mono_value(t, x) for t in m])
    return (tuple(m), [prod([jacobi(0, 0, e, x[i]) for i, e in enumerate(t)]) for t in m])


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def r_square_segment(which: "0..2", n: "0..3", x: "arr:1 real"):
    # the one-dimensional hypercube is the segment
    b = lookup(which)(QN(1, n), Hypercube(1))
    return (b.mode_ids, [f(x) for f in b.functions])


def s_square_segment(which, n, x):
    m = [(i,) for i in range(n + 1)]
    return (tuple(m), [x[0]**i if which == 2 else jacobi(0, 0, i, x[0]) for i in range(n + 1)])
