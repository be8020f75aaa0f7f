"""Random nodes come from the generator given, fill the request and lie in the shape."""
import numpy as np
from modepy.nodes import random_nodes_for_shape
from modepy.shapes import Hypercube, Simplex, TensorProductShape

# stand-ins for a generator: fixed streams of numbers in [0, 1), chosen so that points on either side of and on the
# boundary of the simplex occur, as well as batches that are rejected altogether
STREAMS = [
    [0.12, 0.03, 0.41, 0.27, 0.08, 0.33, 0.19, 0.22, 0.05, 0.37, 0.29, 0.11, 0.02, 0.24, 0.17, 0.09, 0.31],
    [0.98, 0.97, 0.96, 0.99, 0.95, 0.94, 0.93, 0.92, 0.91, 0.12, 0.15, 0.18, 0.21, 0.24, 0.07, 0.02, 0.05],
    [0.5, 0.25, 0.75, 0.125, 0.875, 0.0625, 0.5625, 0.3125, 0.8125, 0.1875, 0.6875, 0.4375, 0.21875, 0.03125, 0.28125,
     0.15625, 0.09375],
    [0.6, 0.5, 0.4, 0.3, 0.2, 0.1, 0.05, 0.45, 0.35, 0.25, 0.15, 0.55, 0.65, 0.22, 0.32, 0.07, 0.13],
]


class Rng:
    STAND_IN = True

    def __init__(self, stream):
        self.stream = stream
        self.pos = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self.draw()
        if isinstance(size, int):
            size = (size,)
        if len(size) == 1:
            return np.array([low + (high - low) * self.draw() for _ in range(size[0])])
        return np.array([[low + (high - low) * self.draw() for _ in range(size[1])] for _ in range(size[0])]).reshape(
            size[0], size[1])

    def random(self, size=None):
        return self.uniform(0, 1, size)

    def draw(self):
        x = self.stream[self.pos % len(self.stream)]
        self.pos = self.pos + 1
        return x


def inside(x, lo, hi):
    """whether every column lies in the simplex on the axes lo..hi"""
    return all([all([x[a, i] >= -1 for a in range(lo, hi)]) and sum([x[a, i] for a in range(lo, hi)]) <= 2 - (hi - lo)
                for i in range(x.shape[1])])


def distinct(x, n):
    cols = [tuple([x[a, i] for a in range(x.shape[0])]) for i in range(n)]
    return len(set(cols)) == n


def r_simplex(dim: "1..2", n: "1..4", k: "0..3"):
    x = random_nodes_for_shape(Simplex(dim), n, Rng(STREAMS[k]))
    return (x.shape, inside(x, 0, dim), distinct(x, n))


def s_simplex(dim, n, k):
    return ((dim, n), True, True)


def r_tetrahedron(n: "1..2", k: "0..3"):
    x = random_nodes_for_shape(Simplex(3), n, Rng(STREAMS[k]))
    return (x.shape, inside(x, 0, 3), distinct(x, n))


def s_tetrahedron(n, k):
    return ((3, n), True, True)


def r_simplex_kw(dim: "1..3", n: "1..3"):
    x = random_nodes_for_shape(Simplex(dim), n, rng=Rng(STREAMS[1]))
    y = random_nodes_for_shape(Simplex(dim), n, rng=Rng(STREAMS[1]))
    return (x.shape, y.shape, [[x[a, i] == y[a, i] for a in range(dim)] for i in range(n)])


def s_simplex_kw(dim, n):
    return ((dim, n), (dim, n), [[True for a in range(dim)] for i in range(n)])


def r_cube(dim: "2..3", n: "1..3", k: "0..3"):
    x = random_nodes_for_shape(Hypercube(dim), n, Rng(STREAMS[k]))
    return (x.shape, [inside(x, a, a + 1) for a in range(dim)])


def s_cube(dim, n, k):
    return ((dim, n), [True for _ in range(dim)])


def r_product(first: "1..2", second: "1..2", n: "1..3", k: "0..3"):
    if first == second == 2:
        second = 1
    x = random_nodes_for_shape(TensorProductShape((Simplex(first), Simplex(second))), n, Rng(STREAMS[k]))
    return (x.shape, inside(x, 0, first), inside(x, first, first + second))


def s_product(first, second, n, k):
    if first == second == 2:
        second = 1
    return ((first + second, n), True, True)


def r_advances(dim: "1..2", n: "1..3"):
    rng = Rng(STREAMS[0])
    random_nodes_for_shape(Hypercube(dim), n, rng)
    return rng.pos > 0


def s_advances(dim, n):
    return True
