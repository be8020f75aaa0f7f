"""Transplanted rules use a map and its exact derivative."""
from math import isfinite
import numpy as np
from modepy.quadrature import Quadrature
from modepy.quadrature.jacobi_gauss import LegendreGaussQuadrature
from modepy.quadrature.transplanted import (map_identity, map_kosloff_tal_ezer, map_sausage, map_strip, _strip_map_parameter_m,
                                            transplanted_1d_quadrature, transplanted_legendre_gauss_quadrature)
from scipy.special import ellipj, ellipk
from speclib import ANY, D

KEEP = ["modepy.quadrature.jacobi_gauss.JacobiGaussQuadrature.compute_weights_and_nodes",
        "modepy.quadrature.transplanted._strip_map_parameter_m"]

# what the maps are made of does not raise
HEADS_strip_ends = ["call", "ellip", "fn:arcsin", "fn:arctanh", "modepy.quadrature.transplanted._strip_map_parameter_m", "scipy.special.ellipk"]


class Fun:
    """an arbitrary map"""

    def __call__(self, s):
        return np.sin(s), np.exp(s)


# {{{ derivatives

def r_identity(s: "real"):
    return map_identity(s)


def s_identity(s):
    return (s, 1)


def r_sausage(s: "real", degree: "1,3,5,7,9,11"):
    g, gp = map_sausage(s, degree)
    return gp


def s_sausage(s, degree):
    g, gp = map_sausage(s, degree)
    return D(g, s)


def r_kte(s: "real", rho: "real"):
    if rho <= 1:
        return 0
    g, gp = map_kosloff_tal_ezer(s, rho=rho)
    return gp


def s_kte(s, rho):
    if rho <= 1:
        return 0
    g, gp = map_kosloff_tal_ezer(s, rho=rho)
    return D(g, s)


def r_kte_alpha(s: "real", alpha: "real"):
    if not 0 < alpha < 1:
        return 0
    g, gp = map_kosloff_tal_ezer(s, alpha=alpha)
    return gp


def s_kte_alpha(s, alpha):
    if not 0 < alpha < 1:
        return 0
    g, gp = map_kosloff_tal_ezer(s, alpha=alpha)
    return D(g, s)


def r_strip(s: "real", rho: "real"):
    if abs(s) >= 1 or rho <= 1:
        return 0
    g, gp = map_strip(s, rho=rho)
    return gp


def s_strip(s, rho):
    if abs(s) >= 1 or rho <= 1:
        return 0
    g, gp = map_strip(s, rho=rho)
    return D(g, s)

# }}}


# {{{ end points

def r_identity_ends():
    return (map_identity(-1.0)[0], map_identity(1.0)[0])


def s_identity_ends():
    return (-1, 1)


def r_sausage_ends(degree: "1,3,5,7,9,11,13"):
    return (map_sausage(-1.0, degree)[0], map_sausage(1.0, degree)[0])


def s_sausage_ends(degree):
    return (-1, 1)


def r_kte_ends(alpha: "real"):
    if not 0 < alpha < 1 or not isfinite(alpha):
        return (-1, 1)
    return (map_kosloff_tal_ezer(-1.0, alpha=alpha)[0], map_kosloff_tal_ezer(1.0, alpha=alpha)[0])


def s_kte_ends(alpha):
    return (-1, 1)

# }}}


# {{{ the maps themselves

def r_sausage_formula(s: "real", degree: "1,3,5,7"):
    return map_sausage(s, degree)[0]


def s_sausage_formula(s, degree):
    """odd Taylor polynomial of arcsin, normalised"""
    c = [1, 1 / 6, 3 / 40, 15 / 336][:(degree + 1) // 2]
    return sum([c[k] * s**(2 * k + 1) for k in range(len(c))]) / sum(c)


def r_kte_formula(s: "real", rho: "real"):
    if rho <= 1 or not 0 < 2 / (rho + 1 / rho) < 1 or not isfinite(2 / (rho + 1 / rho)):
        return 0
    return map_kosloff_tal_ezer(s, rho=rho)[0]


def s_kte_formula(s, rho):
    if rho <= 1 or not 0 < 2 / (rho + 1 / rho) < 1 or not isfinite(2 / (rho + 1 / rho)):
        return 0
    a = 2 / (rho + 1 / rho)
    return np.arcsin(a * s) / np.arcsin(a)

def r_strip_formula(s: "real", rho: "real"):
    """the strip map of Hale and Trefethen"""
    if abs(s) >= 1 or rho <= 1:
        return 0
    return map_strip(s, rho=rho)[0]


def s_strip_formula(s, rho):
    if abs(s) >= 1 or rho <= 1:
        return 0
    m = _strip_map_parameter_m(rho)
    r = m**(1/4)
    return np.arctanh(r * ellipj(2 * ellipk(m) * np.arcsin(s) / np.pi, m)[0]) / np.arctanh(r)

# }}}


# {{{ parameter of the strip map

class Found:
    def __init__(self, root):
        self.root, self.converged = root, True


def solver(f, bracket=None, method=None, xtol=None, rtol=None, maxiter=None):
    """stands for the root finder; what it returns tells whether the function it is given vanishes at a known place"""
    return Found(0.25 + f(0.25))


NOKEEP_parameter = NOKEEP_parameter_rho = ["modepy.quadrature.transplanted._strip_map_parameter_m"]
REPLACE_parameter = {"scipy.optimize.root_scalar": "solver", "scipy.special.ellipk": "elliptic"}
HEADS_parameter = ["fn:log", "pi", "fn:exp"]


def elliptic(m):
    """stands for the elliptic integral: the quotient for the parameter 1/4 is the one for 2"""
    if m == 0.75:
        return 4 * np.log(2) / np.pi
    if m == 0.25:
        return 1
    return 1 / (1.1 - m)


def r_parameter(rho: "2"):
    """the quotient of elliptic integrals that fixes the strip's height"""
    return _strip_map_parameter_m(rho)


def s_parameter(rho):
    return 0.25


class Lost:
    def __init__(self):
        self.root, self.converged = 0.25, False


def failing(f, bracket=None, method=None, xtol=None, rtol=None, maxiter=None):
    return Lost()


NOKEEP_unconverged = ["modepy.quadrature.transplanted._strip_map_parameter_m"]
REPLACE_unconverged = {"scipy.optimize.root_scalar": "failing", "scipy.special.ellipk": "elliptic"}
HEADS_unconverged = ["fn:log", "pi"]


def r_unconverged(rho: "2"):
    """a parameter that was not found is not handed out"""
    return _strip_map_parameter_m(rho)


def s_unconverged(rho):
    raise RuntimeError


def r_parameter_rho(rho: "real"):
    if rho > 1:
        raise ValueError
    return _strip_map_parameter_m(rho)


def s_parameter_rho(rho):
    raise ValueError


MISSING_no_scipy = ["scipy"]
NOKEEP_no_scipy = ["modepy.quadrature.transplanted._strip_map_parameter_m"]


def r_no_scipy(s: "real", rho: "real"):
    """without scipy there is no strip map"""
    if abs(s) >= 1 or rho <= 1:
        raise RuntimeError
    return map_strip(s, rho=rho)


def s_no_scipy(s, rho):
    raise RuntimeError


def r_copy(x: "tup:3 real"):
    """the identity hands out new arrays"""
    s = np.array(x)
    g, gp = map_identity(s)
    g[0] = 17
    gp[1] = 19
    return s


def s_copy(x):
    return np.array(x)


def terms(degree):
    """coefficients of the Taylor series of arcsin"""
    c = [1]
    for k in range(1, (degree + 1) // 2):
        c.append(c[-1] * (2 * k - 1)**2 / (2 * k * (2 * k + 1)))
    return c


def r_sausage_high(s: "real", degree: "9,11,13,15,17,19,21,25,31"):
    return map_sausage(s, degree)


def s_sausage_high(s, degree):
    c = terms(degree)
    return (sum([c[k] * s**(2 * k + 1) for k in range(len(c))]) / sum(c), sum([c[k] * (2 * k + 1) * s**(2 * k) for k in range(len(c))]) / sum(c))


def r_strip_some(x: "tup:3 real", k: "0..2"):
    """one node at an end suffices"""
    if not abs(x[k]) >= 1:
        raise ValueError
    return map_strip(np.array(x))


def s_strip_some(x, k):
    raise ValueError


HEADS_strip_some = ["call", "ellip", "fn:arcsin", "fn:arctanh", "modepy.quadrature.transplanted._strip_map_parameter_m", "scipy.special.ellipk", "division by zero"]

# }}}


# {{{ rejections

def r_sausage_degree(s: "real", degree: "-3,-2,-1,0,2,4,6"):
    return map_sausage(s, degree)


def s_sausage_degree(s, degree):
    raise ValueError


def r_kte_rho(s: "real", rho: "real"):
    if rho > 1:
        raise ValueError
    return map_kosloff_tal_ezer(s, rho=rho)


def s_kte_rho(s, rho):
    raise ValueError


def r_kte_range(s: "real", alpha: "real"):
    if 0 < alpha < 1:
        raise ValueError
    return map_kosloff_tal_ezer(s, alpha=alpha)


def s_kte_range(s, alpha):
    raise ValueError


def r_strip_ends(s: "real", rho: "real"):
    if abs(s) < 1:
        raise ValueError
    return map_strip(s, rho=rho)


def s_strip_ends(s, rho):
    raise ValueError


def r_dim(x: "mat 2 n", w: "vec n"):
    return transplanted_1d_quadrature(Quadrature(x, w), map_identity)


def s_dim(x, w):
    raise ValueError

# }}}


# {{{ transplanting

def r_flat(x: "tup:3 real", w: "tup:3 real"):
    q = transplanted_1d_quadrature(Quadrature(np.array(x), np.array(w)), Fun())
    return (q.nodes.shape, [(q.nodes[i], q.weights[i]) for i in range(3)])


def s_flat(x, w):
    return ((3,), [(np.sin(x[i]), w[i] * np.exp(x[i])) for i in range(3)])


def r_axis(x: "tup:3 real", w: "tup:3 real"):
    q = transplanted_1d_quadrature(Quadrature(np.array([x]), np.array(w)), Fun())
    return (q.nodes.shape, [(q.nodes[0, i], q.weights[i]) for i in range(3)])


def s_axis(x, w):
    return ((1, 3), [(np.sin(x[i]), w[i] * np.exp(x[i])) for i in range(3)])


def r_arrays(x: "tup:3 real", w: "tup:3 real", which: "0..2"):
    """the maps act entry by entry"""
    q = Quadrature(np.array(x), np.array(w))
    f = [map_identity, lambda s: map_sausage(s, 5), lambda s: map_kosloff_tal_ezer(s, rho=1.25)][which]
    t = transplanted_1d_quadrature(q, f)
    return [(t.nodes[i], t.weights[i]) for i in range(3)]


def s_arrays(x, w, which):
    out = []
    for i in range(3):
        g, gp = [map_identity, lambda s: map_sausage(s, 5), lambda s: map_kosloff_tal_ezer(s, rho=1.25)][which](x[i])
        out.append((g, w[i] * gp))
    return out


def r_gauss_defaults(n: "0..4", backend: "lit None,'builtin','scipy'"):
    q = transplanted_legendre_gauss_quadrature(n, Fun(), backend=backend)
    return (q.nodes.shape, q.nodes, q.weights)


def s_gauss_defaults(n, backend):
    q = LegendreGaussQuadrature(n, backend=backend)
    return ((n + 1,), np.sin(q.nodes), q.weights * np.exp(q.nodes))


def r_gauss(n: "0..4", force_dim_axis: "lit False,True"):
    q = transplanted_legendre_gauss_quadrature(n, Fun(), force_dim_axis=force_dim_axis)
    return (q.nodes.shape, q.nodes, q.weights)


def s_gauss(n, force_dim_axis):
    q = LegendreGaussQuadrature(n, force_dim_axis=force_dim_axis)
    return ((1, n + 1) if force_dim_axis else (n + 1,), np.sin(q.nodes), q.weights * np.exp(q.nodes[0] if force_dim_axis else q.nodes))

# }}}
