"""The derivative permutation swaps the first axis with the reference axis."""
import numpy as np
from modepy.matrices import diff_matrix_permutation


def simplex(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in simplex(dim - 1, n - i)]


def box(dim, n):
    if dim == 0:
        return [()]
    return [(*t, i) for i in range(n + 1) for t in box(dim - 1, n)]


def swapped(t, axis):
    return tuple([t[axis] if k == 0 else t[0] if k == axis else t[k] for k in range(len(t))])


def exchanged(t, axis):
    u = list(t)
    first, other = u[0], u[axis]
    u[axis] = first
    u[0] = other
    return tuple(u)


def perm(tuples, axis):
    out = []
    for t in tuples:
        for j, u in enumerate(tuples):
            if u == swapped(t, axis):
                out.append(j)
    return np.array(out)


def r_simplex_1d(n: "0..4"):
    return diff_matrix_permutation(simplex(1, n), 0)


def s_simplex_1d(n):
    return np.arange(n + 1)


def r_simplex_2d(n: "0..4", axis: "0,1", rev: "lit False,True"):
    t = simplex(2, n)
    return diff_matrix_permutation(t[::-1] if rev else t, axis)


def s_simplex_2d(n, axis, rev):
    t = simplex(2, n)
    return perm(t[::-1] if rev else t, axis)


def r_simplex_3d(n: "0..3", axis: "0..2", rev: "lit False,True"):
    t = simplex(3, n)
    return diff_matrix_permutation(t[::-1] if rev else t, axis)


def s_simplex_3d(n, axis, rev):
    t = simplex(3, n)
    return perm(t[::-1] if rev else t, axis)


def r_simplex_4d(n: "0..2", axis: "0..3"):
    return diff_matrix_permutation(simplex(4, n), axis)


def s_simplex_4d(n, axis):
    return perm(simplex(4, n), axis)


def r_box(dim: "1..3", n: "0..2", axis: "0..2"):
    if axis >= dim:
        return None
    return diff_matrix_permutation(box(dim, n), axis)


def s_box(dim, n, axis):
    if axis >= dim:
        return None
    return perm(box(dim, n), axis)


def r_any_list(tuples: "seq"):
    """whatever the list, axis 0 gives the identity"""
    return diff_matrix_permutation(tuples, 0)


def s_any_list(tuples):
    return np.arange(len(tuples))


def r_by_table(tuples: "seq", axis: "1..4"):
    """whatever the list: entry i is the position of the exchanged tuple i"""
    return diff_matrix_permutation(tuples, axis)


def s_by_table(tuples, axis):
    position = {t: i for i, t in enumerate(tuples)}
    return np.array([position[exchanged(t, axis)] for t in tuples])
