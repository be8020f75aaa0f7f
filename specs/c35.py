"""Monomial: value, derivatives and integrals."""
import math

import numpy as np

from modepy.tools import Monomial


def r_value1(e: "nat|0..5", factor: "real", x: "real"):
    return Monomial((e,), factor)(np.array([x]))


def s_value1(e, factor, x):
    return factor*((x + 1)/2)**e


def r_value2(d: "nat", e: "nat", factor: "real", x: "vec", y: "vec"):
    return Monomial((d, e), factor)(np.array([x, y]))


def s_value2(d, e, factor, x, y):
    return factor*((x + 1)/2)**d*((y + 1)/2)**e


def r_value3(d: "nat", e: "nat", f: "nat", factor: "real", x: "tup:3 real"):
    return Monomial([d, e, f], factor)(np.array(x))


def s_value3(d, e, f, factor, x):
    return factor*((x[0] + 1)/2)**d*((x[1] + 1)/2)**e*((x[2] + 1)/2)**f


def r_value4(e: "tup:4 nat", factor: "real", x: "tup:4 real"):
    return Monomial(e, factor)(np.array(x))


def s_value4(e, factor, x):
    r = factor
    for i in range(4):
        r = r*((x[i] + 1)/2)**e[i]
    return r


def r_default_factor(d: "nat", e: "nat", x: "tup:2 real"):
    return (Monomial((d, e)).factor, Monomial((d, e)).exponents)


def s_default_factor(d, e, x):
    return (1, (d, e))


def r_simplex1(e: "0..7", factor: "real"):
    return Monomial((e,), factor).simplex_integral()


def s_simplex1(e, factor):
    return factor*2/(e + 1)


def r_simplex2(d: "0..4", e: "0..4", factor: "real"):
    return Monomial((d, e), factor).simplex_integral()


def s_simplex2(d, e, factor):
    return factor*4*math.factorial(d)*math.factorial(e)/math.factorial(2 + d + e)


def r_simplex3(d: "0..3", e: "0..3", f: "0..3", factor: "real"):
    return Monomial((d, e, f), factor).simplex_integral()


def s_simplex3(d, e, f, factor):
    return factor*8*math.factorial(d)*math.factorial(e)*math.factorial(f)/math.factorial(3 + d + e + f)


def r_simplex_any(e: "tup:4 nat", factor: "real"):
    return Monomial(e, factor).simplex_integral()


def s_simplex_any(e, factor):
    r = factor*16
    for k in e:
        r = r*math.factorial(k)
    return r/math.factorial(4 + sum(e))


def r_cube1(e: "nat", factor: "real"):
    return Monomial((e,), factor).hypercube_integral()


def s_cube1(e, factor):
    return factor/(e + 1)


def r_cube3(d: "nat", e: "nat", f: "nat", factor: "real"):
    return Monomial((d, e, f), factor).hypercube_integral()


def s_cube3(d, e, f, factor):
    return factor/((d + 1)*(e + 1)*(f + 1))


def r_cube0(factor: "real"):
    return (Monomial((), factor).hypercube_integral(), Monomial((), factor).simplex_integral())


def s_cube0(factor):
    return (factor, factor)


def r_diff(e: "tup:3 nat", i: "0..2", factor: "real"):
    m = Monomial(e, factor).diff(i)
    return (m.factor, m.exponents)


def s_diff(e, i, factor):
    if e[i] == 0:
        return (0, e)
    return (factor*e[i], tuple([e[j] - 1 if j == i else e[j] for j in range(3)]))


def r_diff1(e: "nat", factor: "real"):
    m = Monomial((e,), factor).diff(0)
    return (m.factor, m.exponents)


def s_diff1(e, factor):
    if e == 0:
        return (0, (e,))
    return (factor*e, (e - 1,))


def r_diff_keeps(e: "tup:2 nat", i: "0..1", factor: "real"):
    m = Monomial(e, factor)
    d = m.diff(i)
    return (m.factor, m.exponents)


def s_diff_keeps(e, i, factor):
    return (factor, e)
