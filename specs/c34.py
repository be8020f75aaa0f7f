"""Reshaping of tensor product arrays."""
import numpy as np

from modepy.spaces import PN, QN, TensorProductSpace
from modepy.tools import reshape_array_for_tensor_product_space, unreshape_array_for_tensor_product_space


def space(k):
    return TensorProductSpace([[PN(1, 1), PN(1, 2)], [PN(2, 1), PN(1, 1)], [PN(1, 2), PN(1, 1), PN(1, 3)], [PN(1, 1), PN(1, 1)], [PN(1, 0), PN(1, 2)]][k])


def dims(k):
    return [(2, 3), (3, 2), (3, 2, 4), (2, 2), (1, 3)][k]


def size(k):
    return [6, 6, 24, 4, 3][k]


def r_last(k: "0..4", x: "tup:24 real", axis: "lit 0,-1"):
    return reshape_array_for_tensor_product_space(space(k), np.array([x[i] for i in range(size(k))]), axis)


def s_last(k, x, axis):
    d = dims(k)
    if len(d) == 2:
        return np.array([[x[i + d[0]*j] for j in range(d[1])] for i in range(d[0])])
    return np.array([[[x[i + d[0]*(j + d[1]*l)] for l in range(d[2])] for j in range(d[1])] for i in range(d[0])])


def r_default(k: "0..4", x: "tup:24 real"):
    return reshape_array_for_tensor_product_space(space(k), np.array([x[i] for i in range(size(k))]))


def s_default(k, x):
    return s_last(k, x, -1)


def r_back(k: "0..4", x: "tup:24 real", axis: "lit 0,-1"):
    a = np.array([x[i] for i in range(size(k))])
    return unreshape_array_for_tensor_product_space(space(k), reshape_array_for_tensor_product_space(space(k), a, axis), axis)


def s_back(k, x, axis):
    return np.array([x[i] for i in range(size(k))])


def r_rows(k: "lit 0,1,3,4", x: "tup:3 tup:6 real", axis: "lit 1,-1"):
    """the second axis of a matrix"""
    return reshape_array_for_tensor_product_space(space(k), np.array([[x[r][i] for i in range(size(k))] for r in range(3)]), axis)


def s_rows(k, x, axis):
    d = dims(k)
    return np.array([[[x[r][i + d[0]*j] for j in range(d[1])] for i in range(d[0])] for r in range(3)])


def r_rows_back(k: "lit 0,1,3,4", x: "tup:3 tup:6 real", axis: "lit 1,-1"):
    a = np.array([[x[r][i] for i in range(size(k))] for r in range(3)])
    return unreshape_array_for_tensor_product_space(space(k), reshape_array_for_tensor_product_space(space(k), a, axis), axis)


def s_rows_back(k, x, axis):
    return np.array([[x[r][i] for i in range(size(k))] for r in range(3)])


def r_columns(k: "lit 0,1,3,4", x: "tup:6 tup:3 real", axis: "lit 0,-2"):
    """the first axis of a matrix"""
    return reshape_array_for_tensor_product_space(space(k), np.array([[x[i][r] for r in range(3)] for i in range(size(k))]), axis)


def s_columns(k, x, axis):
    d = dims(k)
    return np.array([[[x[i + d[0]*j][r] for r in range(3)] for j in range(d[1])] for i in range(d[0])])


def r_columns_back(k: "lit 0,1,3,4", x: "tup:6 tup:3 real", axis: "lit 0,-2"):
    a = np.array([[x[i][r] for r in range(3)] for i in range(size(k))])
    return unreshape_array_for_tensor_product_space(space(k), reshape_array_for_tensor_product_space(space(k), a, axis), axis)


def s_columns_back(k, x, axis):
    return np.array([[x[i][r] for r in range(3)] for i in range(size(k))])


def r_middle(x: "tup:2 tup:6 tup:3 real", axis: "lit 1,-2", there: "lit False,True"):
    """the middle axis of three"""
    a = np.array(x)
    b = reshape_array_for_tensor_product_space(space(0), a, axis)
    return b if there else unreshape_array_for_tensor_product_space(space(0), b, axis)


def s_middle(x, axis, there):
    if there:
        return np.array([[[[x[m][i + 2*j][r] for r in range(3)] for j in range(3)] for i in range(2)] for m in range(2)])
    return np.array(x)


def r_first3(x: "tup:6 tup:2 tup:3 real", axis: "lit 0,-3", there: "lit False,True"):
    """the first axis of three"""
    a = np.array(x)
    b = reshape_array_for_tensor_product_space(space(1), a, axis)
    return b if there else unreshape_array_for_tensor_product_space(space(1), b, axis)


def s_first3(x, axis, there):
    if there:
        return np.array([[[[x[i + 3*j][m][r] for r in range(3)] for m in range(2)] for j in range(2)] for i in range(3)])
    return np.array(x)


def r_three(x: "tup:2 tup:24 real", axis: "lit 1,-1", there: "lit False,True"):
    """three components"""
    a = np.array(x)
    b = reshape_array_for_tensor_product_space(space(2), a, axis)
    return b if there else unreshape_array_for_tensor_product_space(space(2), b, axis)


def s_three(x, axis, there):
    if there:
        return np.array([[[[x[m][i + 3*(j + 2*l)] for l in range(4)] for j in range(2)] for i in range(3)] for m in range(2)])
    return np.array(x)


def r_qn(x: "tup:27 real", axis: "lit 0,-1"):
    return reshape_array_for_tensor_product_space(QN(3, 2), np.array(x), axis)


def s_qn(x, axis):
    return np.array([[[x[i + 3*(j + 3*l)] for l in range(3)] for j in range(3)] for i in range(3)])


def r_other(n: "nat", d: "nat", a: "mat", axis: "lit 0,1,-1,-2,5"):
    return (reshape_array_for_tensor_product_space(PN(d, n), a, axis), unreshape_array_for_tensor_product_space(PN(d, n), a, axis))


def s_other(n, d, a, axis):
    return (a, a)


def r_badsize(x: "tup:7 real", m: "lit 1,5,7"):
    return reshape_array_for_tensor_product_space(space(0), np.array([x[i] for i in range(m)]))


def s_badsize(x, m):
    raise ValueError


def r_badaxis(x: "tup:6 real", axis: "lit 1,2,-2,-3"):
    return reshape_array_for_tensor_product_space(space(0), np.array(x), axis)


def s_badaxis(x, axis):
    raise ValueError


def r_unbadaxis(x: "tup:2 tup:3 real", axis: "lit 1,2,-2,-3"):
    return unreshape_array_for_tensor_product_space(space(0), np.array(x), axis)


def s_unbadaxis(x, axis):
    raise ValueError


def r_unbadsize(x: "tup:3 tup:2 real", axis: "lit 0,-1"):
    return unreshape_array_for_tensor_product_space(space(0), np.array(x), axis)


def s_unbadsize(x, axis):
    raise ValueError
