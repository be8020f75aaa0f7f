"""Reference vertices, faces, face maps and normals."""
import numpy as np

from modepy.shapes import (Hypercube, Shape, Simplex, TensorProductShape, _HypercubeFace, _SimplexFace, face_normal, faces_for_shape,
                           unit_vertices_for_shape)


class Other(Shape):
    """an unknown shape"""

    @property
    def nvertices(self):
        return 1

    @property
    def nfaces(self):
        return 1


def shape_of(kind, d):
    return Simplex(d) if kind == "simplex" else Hypercube(d)


def vertex(kind, d, i):
    """coordinates of the i-th reference vertex"""
    if kind == "simplex":
        return [1 if i == j + 1 else -1 for j in range(d)]
    return [1 if (i//2**j) % 2 == 1 else -1 for j in range(d)]


def outward(kind, d, indices):
    """outward vector normal to the facet with the given vertices"""
    if kind == "simplex":
        missing = [i for i in range(d + 1) if i not in indices][0]
        if missing == 0:
            return [1 for j in range(d)]
        return [-1 if j == missing - 1 else 0 for j in range(d)]
    first = vertex(kind, d, indices[0])
    common = [all([vertex(kind, d, i)[j] == first[j] for i in indices]) for j in range(d)]
    return [first[j] if common[j] else 0 for j in range(d)]


def r_vertices(d: "0..5"):
    return unit_vertices_for_shape(Simplex(d))


def s_vertices(d):
    if d == 0:
        return np.empty((0, 1))
    return np.array([[vertex("simplex", d, i)[j] for i in range(d + 1)] for j in range(d)])


def r_cubevertices(d: "1..5"):
    return unit_vertices_for_shape(Hypercube(d))


def s_cubevertices(d):
    return np.array([[vertex("hypercube", d, i)[j] for i in range(2**d)] for j in range(d)])


def r_prismvertices(d: "1..4", k: "1..2", first: "lit False,True"):
    seg = tuple([Simplex(1) for i in range(k)])
    return unit_vertices_for_shape(TensorProductShape((Simplex(d),) + seg if first else seg + (Simplex(d),)))


def s_prismvertices(d, k, first):
    """the first factor varies fastest"""
    n, m = d + 1, 2**k
    if first:
        return np.array([[(vertex("simplex", d, i % n) + vertex("hypercube", k, i//n))[j] for i in range(n*m)] for j in range(d + k)])
    return np.array([[(vertex("hypercube", k, i % m) + vertex("simplex", d, i//m))[j] for i in range(n*m)] for j in range(d + k)])


def r_facets(d: "1..3", kind: "lit 'simplex','hypercube'"):
    """every facet once"""
    faces = faces_for_shape(shape_of(kind, d))
    return (len(faces), sorted([tuple(sorted(f.volume_vertex_indices)) for f in faces]))


def s_facets(d, kind):
    if kind == "simplex":
        return (d + 1, sorted([tuple([i for i in range(d + 1) if i != k]) for k in range(d + 1)]))
    return (2*d, sorted([tuple([i for i in range(2**d) if (i//2**j) % 2 == s]) for j in range(d) for s in range(2)]))


def r_fields(d: "1..3", kind: "lit 'simplex','hypercube'"):
    """what a face says about itself"""
    faces = faces_for_shape(shape_of(kind, d))
    return [(f.dim, f.face_index, type(f.volume_shape), f.volume_shape.dim, isinstance(f, Simplex), isinstance(f, Hypercube)) for f in faces]


def s_fields(d, kind):
    if kind == "simplex" or d == 1:
        return [(d - 1, i, Simplex, d, True, False) for i in range(d + 1)]
    return [(d - 1, i, Hypercube, d, d == 2, d != 2) for i in range(2*d)]


def r_map(d: "1..3", kind: "lit 'simplex','hypercube'", i: "0..5", p: "tup:2 real", q: "tup:2 real"):
    """the face map is the affine map given by the listed vertices"""
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    return faces[i].map_to_volume(np.array([[p[j], q[j]] for j in range(d - 1)]) if d > 1 else np.empty((0, 2)))


def s_map(d, kind, i, p, q):
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    v = [vertex(kind, d, k) for k in faces[i].volume_vertex_indices]
    ax = [1, 2]
    return np.array([[v[0][j] + sum([(v[ax[k]][j] - v[0][j])*(1 + x[k])/2 for k in range(d - 1)]) for x in [p, q]] for j in range(d)])


def r_corners(d: "2..3", kind: "lit 'simplex','hypercube'", i: "0..5"):
    """reference vertices of the face go to the listed vertices in order"""
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    return faces[i].map_to_volume(unit_vertices_for_shape(faces[i]))


def s_corners(d, kind, i):
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    v = [vertex(kind, d, k) for k in faces[i].volume_vertex_indices]
    return np.array([[x[j] for x in v] for j in range(d)])


def r_normal(d: "1..3", kind: "lit 'simplex','hypercube'", i: "0..5", normalize: "lit None,True"):
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    return face_normal(faces[i]) if normalize is None else face_normal(faces[i], normalize)


def s_normal(d, kind, i, normalize):
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    n = outward(kind, d, faces[i].volume_vertex_indices)
    return np.array([x/np.sqrt(sum([y*y for y in n])) for x in n])


def r_direction(d: "1..3", kind: "lit 'simplex','hypercube'", i: "0..5"):
    """without normalisation the direction is the same"""
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    n = face_normal(faces[i], normalize=False)
    return [x/np.sqrt(sum([y*y for y in n])) for x in n]


def s_direction(d, kind, i):
    faces = faces_for_shape(shape_of(kind, d))
    if i >= len(faces):
        return 0
    n = outward(kind, d, faces[i].volume_vertex_indices)
    return [x/np.sqrt(sum([y*y for y in n])) for x in n]


def r_unsupported(k: "lit 0,1,2,3,4"):
    shape = [Simplex(4), Simplex(5), Hypercube(4), TensorProductShape((Simplex(2), Simplex(1))), Other(2)][k]
    return faces_for_shape(shape)


def s_unsupported(k):
    raise NotImplementedError


def r_unknown(d: "nat"):
    return unit_vertices_for_shape(Other(d))


def s_unknown(d):
    raise NotImplementedError
