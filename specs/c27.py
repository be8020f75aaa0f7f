"""Clenshaw-Curtis and Fejer rules: node formulas, exactness of all moments, rejected arguments."""
import numpy as np
from modepy.quadrature.clenshaw_curtis import ClenshawCurtisQuadrature, FejerQuadrature

HEADS = ["fn:cos", "fn:sin", "pi"]


def r_cc_nodes(n: "1..10", flat: "lit False,True"):
    q = ClenshawCurtisQuadrature(n, force_dim_axis=not flat)
    return q.nodes


def s_cc_nodes(n, flat):
    x = [np.cos(j*np.pi/n) for j in range(n + 1)]
    if n == 1:
        x = [-1, 1]
    return np.array(x) if flat else np.array([x])


def r_cc_moments(n: "1..32"):
    q = ClenshawCurtisQuadrature(n, force_dim_axis=True)
    x, w = q.nodes[0], q.weights
    return (len(w), [sum(w[i]*x[i]**k for i in range(n + 1)) for k in range(n + 1)])


def s_cc_moments(n):
    return (n + 1, [(1 - (-1)**(k + 1))/(k + 1) for k in range(n + 1)])


def r_fejer1_nodes(n: "1..10", flat: "lit False,True"):
    return FejerQuadrature(n, 1, force_dim_axis=not flat).nodes


def s_fejer1_nodes(n, flat):
    x = [np.cos((2*j + 1)*np.pi/(2*n)) for j in range(n)]
    return np.array(x) if flat else np.array([x])


def r_fejer1_moments(n: "1..32"):
    q = FejerQuadrature(n, 1, force_dim_axis=True)
    x, w = q.nodes[0], q.weights
    return (len(w), [sum(w[i]*x[i]**k for i in range(n)) for k in range(n)])


def s_fejer1_moments(n):
    return (n, [(1 - (-1)**(k + 1))/(k + 1) for k in range(n)])


def r_fejer2_nodes(n: "2..10", flat: "lit False,True"):
    return FejerQuadrature(n, 2, force_dim_axis=not flat).nodes


def s_fejer2_nodes(n, flat):
    x = [np.cos(j*np.pi/n) for j in range(1, n)]
    return np.array(x) if flat else np.array([x])


def r_fejer2_moments(n: "2..32"):
    q = FejerQuadrature(n, 2, force_dim_axis=True)
    x, w = q.nodes[0], q.weights
    return (len(w), [sum(w[i]*x[i]**k for i in range(n - 1)) for k in range(n - 1)])


def s_fejer2_moments(n):
    return (n - 1, [(1 - (-1)**(k + 1))/(k + 1) for k in range(n - 1)])


def r_cc_rejects(n: "-2..0"):
    return ClenshawCurtisQuadrature(n, force_dim_axis=True)


def s_cc_rejects(n):
    raise ValueError


def r_fejer1_rejects(n: "-2..0"):
    return FejerQuadrature(n, force_dim_axis=True)


def s_fejer1_rejects(n):
    raise ValueError


def r_fejer2_rejects(n: "-2..1"):
    return FejerQuadrature(n, 2, force_dim_axis=True)


def s_fejer2_rejects(n):
    raise ValueError


def r_kind_rejects(n: "2..4", kind: "lit 0,3,-1,None"):
    return FejerQuadrature(n, kind, force_dim_axis=True)


def s_kind_rejects(n, kind):
    raise ValueError


def r_default_kind(n: "2..4"):
    q = FejerQuadrature(n, force_dim_axis=True)
    return (q.kind, q.nodes, q.weights)


def s_default_kind(n):
    q = FejerQuadrature(n, 1, force_dim_axis=True)
    return (1, q.nodes, q.weights)


def r_second_kind(n: "2..4"):
    return FejerQuadrature(n, 2, force_dim_axis=True).kind


def s_second_kind(n):
    return 2
