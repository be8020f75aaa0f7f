"""Submeshes: oriented cells whose boundaries cancel inside and whose volumes add up to that of the element."""
from modepy.nodes import node_tuples_for_space
from modepy.shapes import Hypercube, Simplex, TensorProductShape, submesh_for_shape
from modepy.spaces import PN, QN, TensorProductSpace


def order(tuples, how):
    if how == "reversed":
        return list(reversed(tuples))
    if how == "sorted":
        return sorted(tuples)
    if how == "interleaved":
        return [tuples[i] for i in range(0, len(tuples), 2)] + [tuples[i] for i in range(1, len(tuples), 2)]
    return tuples


def det2(a, b):
    return a[0]*b[1] - a[1]*b[0]


def det3(a, b, c):
    return a[0]*(b[1]*c[2] - b[2]*c[1]) - a[1]*(b[0]*c[2] - b[2]*c[0]) + a[2]*(b[0]*c[1] - b[1]*c[0])


def minus(p, q):
    return [x - y for x, y in zip(p, q)]


def r_segments(n: "1..12", how: "lit 'given','reversed','interleaved'"):
    t = order(node_tuples_for_space(PN(1, n)), how)
    return sorted([(t[c[0]], t[c[1]], len(c)) for c in submesh_for_shape(Simplex(1), t)])


def s_segments(n, how):
    return [((i,), (i + 1,), 2) for i in range(n)]


def r_triangles(n: "1..7", how: "lit 'given','reversed','interleaved'"):
    """(vertex counts, orientations, total volume, edges that are neither shared nor on the boundary)"""
    t = order(node_tuples_for_space(PN(2, n)), how)
    cells = [[t[i] for i in c] for c in submesh_for_shape(Simplex(2), t)]
    dets = [det2(minus(c[1], c[0]), minus(c[2], c[0])) for c in cells]
    edges = [e for c in cells for e in [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])]]
    found = {e: 1 for e in edges}
    loose = [e for e in edges if (e[1], e[0]) not in found]
    bad = [e for e in loose if not (e[0][0] == e[1][0] == 0 or e[0][1] == e[1][1] == 0 or sum(e[0]) == sum(e[1]) == n)]
    return ([len(c) for c in cells], [d > 0 for d in dets], sum(dets), len(found), bad, len(loose))


def s_triangles(n, how):
    return ([3 for i in range(n*n)], [True for i in range(n*n)], n*n, 3*n*n, [], 3*n)


def r_tetrahedra(n: "1..3", how: "lit 'given','reversed','interleaved'"):
    """(vertex counts, orientations, total volume, oriented faces, those neither shared nor on the boundary)"""
    t = order(node_tuples_for_space(PN(3, n)), how)
    cells = [[t[i] for i in c] for c in submesh_for_shape(Simplex(3), t)]
    dets = [det3(minus(c[1], c[0]), minus(c[2], c[0]), minus(c[3], c[0])) for c in cells]
    faces = [f for c in cells for f in [(c[0], c[2], c[1]), (c[0], c[1], c[3]), (c[0], c[3], c[2]), (c[1], c[2], c[3])]]
    turned = {g: 1 for a, b, c in faces for g in [(a, b, c), (b, c, a), (c, a, b)]}
    loose = [f for f in faces if (f[0], f[2], f[1]) not in turned]
    bad = [f for f in loose if not (f[0][0] == f[1][0] == f[2][0] == 0 or f[0][1] == f[1][1] == f[2][1] == 0
                                    or f[0][2] == f[1][2] == f[2][2] == 0 or sum(f[0]) == sum(f[1]) == sum(f[2]) == n)]
    return ([len(c) for c in cells], [d > 0 for d in dets], sum(dets), len(turned), bad, len(loose))


def s_tetrahedra(n, how):
    m = n*n*n
    return ([4 for i in range(m)], [True for i in range(m)], m, 12*m, [], 4*n*n)


def r_cubes(n: "1..5", d: "2..3", how: "lit 'given','reversed','interleaved'"):
    """lattice cells by their lowest corner, with their vertices"""
    m = n if d == 2 else (n if n < 3 else 3)
    t = order(node_tuples_for_space(QN(d, m)), how)
    return sorted([[t[i] for i in c] for c in submesh_for_shape(Hypercube(d), t)])


def s_cubes(n, d, how):
    m = n if d == 2 else (n if n < 3 else 3)
    if d == 2:
        return sorted([[(i + k % 2, j + k//2) for k in range(4)] for i in range(m) for j in range(m)])
    return sorted([[(i + k % 2, j + (k//2) % 2, l + k//4) for k in range(8)] for i in range(m) for j in range(m) for l in range(m)])


def r_boxes(n: "1..4", m: "1..4", how: "lit 'given','reversed'"):
    """different orders along the axes"""
    t = order(node_tuples_for_space(TensorProductSpace((PN(1, n), PN(1, m)))), how)
    return sorted([[t[i] for i in c] for c in submesh_for_shape(TensorProductShape((Simplex(1), Simplex(1))), t)])


def s_boxes(n, m, how):
    return sorted([[(i + k % 2, j + k//2) for k in range(4)] for i in range(n) for j in range(m)])
