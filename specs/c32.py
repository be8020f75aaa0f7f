"""Copies, deep copies and pickles of shapes, faces and spaces have the same type and components; shapes and faces are
immutable values."""
import copy
import pickle
import modepy as mp
from modepy.shapes import Simplex, Hypercube, TensorProductShape, faces_for_shape
from modepy.spaces import PN, QN, TensorProductSpace

def three(o):
    return [copy.copy(o), copy.deepcopy(o), pickle.loads(pickle.dumps(o))]


def r_simplex(d: "0..4"):
    """type, components and value of the copies"""
    o = Simplex(d)
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_simplex(d):
    o = Simplex(d)
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_simplex_frozen(d: "0..4"):
    o = Simplex(d)
    o.dim = 7
    return o


def s_simplex_frozen(d):
    raise Exception


def r_hypercube(d: "0..4"):
    """type, components and value of the copies"""
    o = Hypercube(d)
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_hypercube(d):
    o = Hypercube(d)
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_hypercube_frozen(d: "0..4"):
    o = Hypercube(d)
    o.dim = 7
    return o


def s_hypercube_frozen(d):
    raise Exception


def r_prism(d: "0..3"):
    """type, components and value of the copies"""
    o = TensorProductShape((Simplex(d), Simplex(1)))
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_prism(d):
    o = TensorProductShape((Simplex(d), Simplex(1)))
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_prism_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(d), Simplex(1)))
    o.dim = 7
    return o


def s_prism_frozen(d):
    raise Exception


def r_prism_second(d: "0..3"):
    """type, components and value of the copies"""
    o = TensorProductShape((Simplex(1), Simplex(d)))
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_prism_second(d):
    o = TensorProductShape((Simplex(1), Simplex(d)))
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_prism_second_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(1), Simplex(d)))
    o.dim = 7
    return o


def s_prism_second_frozen(d):
    raise Exception


def r_three_factors(d: "0..3"):
    """type, components and value of the copies"""
    o = TensorProductShape((Simplex(1), Simplex(d), Simplex(1)))
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_three_factors(d):
    o = TensorProductShape((Simplex(1), Simplex(d), Simplex(1)))
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_three_factors_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(1), Simplex(d), Simplex(1)))
    o.dim = 7
    return o


def s_three_factors_frozen(d):
    raise Exception


def r_nested(d: "0..3"):
    """type, components and value of the copies"""
    o = TensorProductShape((Hypercube(2), Simplex(d)))
    return [(type(c) is type(o), c.dim == o.dim, c == o, hash(c) == hash(o), c.nvertices, c.nfaces if c.dim > 0 else 0) for c in three(o)]


def s_nested(d):
    o = TensorProductShape((Hypercube(2), Simplex(d)))
    return [(True, True, True, True, o.nvertices, o.nfaces if o.dim > 0 else 0)]*3


def r_nested_frozen(d: "0..3"):
    o = TensorProductShape((Hypercube(2), Simplex(d)))
    o.dim = 7
    return o


def s_nested_frozen(d):
    raise Exception


def r_hypercube_bases(d: "0..4"):
    """the factors survive"""
    o = Hypercube(d)
    if isinstance(o, Simplex):
        return True
    return all([c.bases == o.bases for c in three(o)])


def s_hypercube_bases(d):
    return True


def r_hypercube_bases_frozen(d: "0..4"):
    o = Hypercube(d)
    o.bases = ()
    return o


def s_hypercube_bases_frozen(d):
    raise Exception


def r_prism_bases(d: "0..3"):
    """the factors survive"""
    o = TensorProductShape((Simplex(d), Simplex(1)))
    if isinstance(o, Simplex):
        return True
    return all([c.bases == o.bases for c in three(o)])


def s_prism_bases(d):
    return True


def r_prism_bases_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(d), Simplex(1)))
    o.bases = ()
    return o


def s_prism_bases_frozen(d):
    raise Exception


def r_prism_second_bases(d: "0..3"):
    """the factors survive"""
    o = TensorProductShape((Simplex(1), Simplex(d)))
    if isinstance(o, Simplex):
        return True
    return all([c.bases == o.bases for c in three(o)])


def s_prism_second_bases(d):
    return True


def r_prism_second_bases_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(1), Simplex(d)))
    o.bases = ()
    return o


def s_prism_second_bases_frozen(d):
    raise Exception


def r_three_factors_bases(d: "0..3"):
    """the factors survive"""
    o = TensorProductShape((Simplex(1), Simplex(d), Simplex(1)))
    if isinstance(o, Simplex):
        return True
    return all([c.bases == o.bases for c in three(o)])


def s_three_factors_bases(d):
    return True


def r_three_factors_bases_frozen(d: "0..3"):
    o = TensorProductShape((Simplex(1), Simplex(d), Simplex(1)))
    o.bases = ()
    return o


def s_three_factors_bases_frozen(d):
    raise Exception


def r_nested_bases(d: "0..3"):
    """the factors survive"""
    o = TensorProductShape((Hypercube(2), Simplex(d)))
    if isinstance(o, Simplex):
        return True
    return all([c.bases == o.bases for c in three(o)])


def s_nested_bases(d):
    return True


def r_nested_bases_frozen(d: "0..3"):
    o = TensorProductShape((Hypercube(2), Simplex(d)))
    o.bases = ()
    return o


def s_nested_bases_frozen(d):
    raise Exception


def r_equality(a: "0..3", b: "0..3"):
    """shapes of the same kind are equal exactly if their dimensions are"""
    return (Simplex(a) == Simplex(b), Hypercube(a) == Hypercube(b),
            TensorProductShape((Simplex(a), Simplex(1))) == TensorProductShape((Simplex(b), Simplex(1))))


def s_equality(a, b):
    return (a == b, a == b, a == b)


def r_hashing(a: "0..3"):
    return (hash(Simplex(a)) == hash(Simplex(a)), hash(Hypercube(a)) == hash(Hypercube(a)),
            hash(TensorProductShape((Simplex(a), Simplex(1)))) == hash(TensorProductShape((Simplex(a), Simplex(1)))))


def s_hashing(a):
    return (True, True, True)


def r_pn(d: "0..3", n: "nat"):
    o = PN(d, n)
    return [(type(c) is type(o), c.spatial_dim, c.order, c.space_dim) for c in three(o)]


def s_pn(d, n):
    o = PN(d, n)
    return [(True, d, n, o.space_dim)]*3


def r_qn(d: "0..4", n: "nat"):
    o = QN(d, n)
    return [(type(c) is type(o), c.spatial_dim, c.order, c.space_dim) for c in three(o)]


def s_qn(d, n):
    o = QN(d, n)
    return [(True, d, n, o.space_dim)]*3


def r_qn_bases(d: "2..4", n: "nat"):
    o = QN(d, n)
    return [[(b.spatial_dim, b.order) for b in c.bases] for c in three(o)]


def s_qn_bases(d, n):
    return [[(1, n)]*d]*3


def r_product_space(d: "0..3", m: "nat", n: "nat"):
    o = TensorProductSpace((PN(d, n), PN(1, m)))
    return [(type(c) is type(o), c.spatial_dim, c.space_dim, [(b.spatial_dim, b.order) for b in c.bases]) for c in three(o)]


def s_product_space(d, m, n):
    o = TensorProductSpace((PN(d, n), PN(1, m)))
    return [(True, d + 1, o.space_dim, [(d, n), (1, m)])]*3


def r_product_space_nested(m: "nat", n: "nat"):
    o = TensorProductSpace((QN(2, n), PN(2, m)))
    return [(type(c) is type(o), c.spatial_dim, c.space_dim, [(b.spatial_dim, b.order) for b in c.bases]) for c in three(o)]


def s_product_space_nested(m, n):
    o = TensorProductSpace((QN(2, n), PN(2, m)))
    return [(True, 4, o.space_dim, [(1, n), (1, n), (2, m)])]*3


def r_simplex_faces(d: "1..3"):
    return [[(type(c) is type(f), c.dim, c.face_index, c.volume_vertex_indices, c.volume_shape == f.volume_shape) for c in three(f)]
            for f in faces_for_shape(Simplex(d))]


def s_simplex_faces(d):
    return [[(True, f.dim, f.face_index, f.volume_vertex_indices, True)]*3 for f in faces_for_shape(Simplex(d))]


def r_simplex_face_face_index(d: "1..3"):
    f = faces_for_shape(Simplex(d))[0]
    f.face_index = None
    return f


def s_simplex_face_face_index(d):
    raise Exception


def r_simplex_face_volume_vertex_indices(d: "1..3"):
    f = faces_for_shape(Simplex(d))[0]
    f.volume_vertex_indices = None
    return f


def s_simplex_face_volume_vertex_indices(d):
    raise Exception


def r_simplex_face_dim(d: "1..3"):
    f = faces_for_shape(Simplex(d))[0]
    f.dim = None
    return f


def s_simplex_face_dim(d):
    raise Exception


def r_simplex_face_volume_shape(d: "1..3"):
    f = faces_for_shape(Simplex(d))[0]
    f.volume_shape = None
    return f


def s_simplex_face_volume_shape(d):
    raise Exception


def r_simplex_face_map_to_volume(d: "1..3"):
    f = faces_for_shape(Simplex(d))[0]
    f.map_to_volume = None
    return f


def s_simplex_face_map_to_volume(d):
    raise Exception


def r_hypercube_faces(d: "1..3"):
    return [[(type(c) is type(f), c.dim, c.face_index, c.volume_vertex_indices, c.volume_shape == f.volume_shape) for c in three(f)]
            for f in faces_for_shape(Hypercube(d))]


def s_hypercube_faces(d):
    return [[(True, f.dim, f.face_index, f.volume_vertex_indices, True)]*3 for f in faces_for_shape(Hypercube(d))]


def r_hypercube_face_face_index(d: "1..3"):
    f = faces_for_shape(Hypercube(d))[0]
    f.face_index = None
    return f


def s_hypercube_face_face_index(d):
    raise Exception


def r_hypercube_face_volume_vertex_indices(d: "1..3"):
    f = faces_for_shape(Hypercube(d))[0]
    f.volume_vertex_indices = None
    return f


def s_hypercube_face_volume_vertex_indices(d):
    raise Exception


def r_hypercube_face_dim(d: "1..3"):
    f = faces_for_shape(Hypercube(d))[0]
    f.dim = None
    return f


def s_hypercube_face_dim(d):
    raise Exception


def r_hypercube_face_volume_shape(d: "1..3"):
    f = faces_for_shape(Hypercube(d))[0]
    f.volume_shape = None
    return f


def s_hypercube_face_volume_shape(d):
    raise Exception


def r_hypercube_face_map_to_volume(d: "1..3"):
    f = faces_for_shape(Hypercube(d))[0]
    f.map_to_volume = None
    return f


def s_hypercube_face_map_to_volume(d):
    raise Exception

