"""Vandermonde matrices hold function j at node i in entry (i, j)."""
import numpy as np
from speclib import ANY
from modepy.matrices import vandermonde, multi_vandermonde


class Fun:
    """an arbitrary real-valued function, used through its values at the nodes"""
    def __init__(self, k, values):
        self.k, self.values = k, values

    def __call__(self, nodes):
        return self.values[self.k]


class VecFun:
    def __init__(self, k, ncomp, values):
        self.k, self.ncomp, self.values = k, ncomp, values

    def __call__(self, nodes):
        return tuple([self.values[c][self.k] for c in range(self.ncomp)])


def r_entries(nf: "pos|1..4", nodes: "mat d n", values: "mat m n"):
    return vandermonde([Fun(k, values) for k in range(nf)], nodes)


def s_entries(nf, nodes, values):
    return np.stack([values[k] for k in range(nf)], axis=1)


def r_tuple_entries(nf: "pos|1..3", nodes: "mat d n", values: "mat m n"):
    return vandermonde(tuple([Fun(k, values) for k in range(nf)]), nodes)


def s_tuple_entries(nf, nodes, values):
    return np.stack([values[k] for k in range(nf)], axis=1)


def r_shape(nf: "0..3", nodes: "mat d n", values: "mat m n"):
    return vandermonde([Fun(k, values) for k in range(nf)], nodes).shape


def s_shape(nf, nodes, values):
    return (nodes.shape[1], nf)


def r_multi(nf: "1..3", nc: "1..3", nodes: "mat d n", values: "arr:3 mat m n"):
    return multi_vandermonde([VecFun(k, nc, values) for k in range(nf)], nodes)


def s_multi(nf, nc, nodes, values):
    return tuple([np.stack([values[c][k] for k in range(nf)], axis=1) for c in range(nc)])


def r_multi_empty(nodes: "mat d n"):
    return multi_vandermonde([], nodes)


def s_multi_empty(nodes):
    raise ValueError


def r_any_functions(f: "any", g: "any", h: "any", nodes: "mat d n"):
    return vandermonde([f, g, h], nodes)


def s_any_functions(f, g, h, nodes):
    if isinstance(f(nodes), tuple):
        return ANY
    return np.stack([f(nodes), g(nodes), h(nodes)], axis=1)
