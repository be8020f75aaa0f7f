"""Expressions rules_c19 evaluates abstractly."""
from modepy.quadrature.jaskowiec_sukumar import JaskowiecSukumarQuadrature
from modepy.quadrature.vioreanu_rokhlin import VioreanuRokhlinSimplexQuadrature
from modepy.quadrature.witherden_vincent import WitherdenVincentQuadrature
from modepy.quadrature.xiao_gimbutas import XiaoGimbutasSimplexQuadrature

RULES = [JaskowiecSukumarQuadrature, VioreanuRokhlinSimplexQuadrature, WitherdenVincentQuadrature, XiaoGimbutasSimplexQuadrature]


def rule(i, order, dims):
    q = RULES[i](order, dims)
    return q.nodes, q.weights, q.exact_to
