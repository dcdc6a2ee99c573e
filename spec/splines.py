"""What the spline layer must compute, stated through the blossom (polar form): the coefficient of a
spline with knots t belonging to B_j is the blossom of the polynomial piece at t[j+1..j+p]."""
import numpy as np


def blossom(knots, coeffs, p, m, us):
    """polar form of the polynomial on [knots[m], knots[m+1]]"""
    d = [coeffs[m - p + j] for j in range(p + 1)]
    for r in range(1, p + 1):
        u = us[r - 1]
        for k in range(p - r + 1):
            j = p - k
            i = m - p + j
            a = (u - knots[i]) / (knots[i + p + 1 - r] - knots[i])
            d[j] = (1 - a) * d[j - 1] + a * d[j]
    return d[p]


def unit(i, n):
    return [1. if j == i else 0. for j in range(n)]


def value(knots, coeffs, p, m, x):
    """value at x of the piece on [knots[m], knots[m+1]]"""
    return blossom(knots, coeffs, p, m, [x] * p)


def basis_row(knots, p, m, x):
    n = len(knots) - p - 1
    return [value(knots, unit(i, n), p, m, x) for i in range(n)]


def re_expressed(knots, p, knots2, pieces):
    """matrix taking the coefficients over `knots` to those over `knots2`; the coefficient j of the new
    spline is taken from the piece pieces[j] of the old one"""
    n = len(knots) - p - 1
    n2 = len(knots2) - p - 1
    return np.array([[blossom(knots, unit(i, n), p, pieces[j], knots2[j + 1:j + p + 1]) for i in range(n)] for j in range(n2)])


def re_coefficients(knots, coeffs, p, knots2, pieces):
    n2 = len(knots2) - p - 1
    return [blossom(knots, coeffs, p, pieces[j], knots2[j + 1:j + p + 1]) for j in range(n2)]


def hodograph(knots, coeffs, p, o):
    """coefficients and knots of the o-th derivative"""
    c, k, q = coeffs, knots, p
    for _ in range(o):
        c = [q * (c[i + 1] - c[i]) / (k[i + q + 1] - k[i + 1]) for i in range(len(c) - 1)]
        k = k[1:-1]
        q = q - 1
    return np.array(c), np.array(k), q


def primitive(knots, coeffs, p):
    """coefficients and knots of the integral vanishing at the start"""
    c = [0.]
    for i in range(len(coeffs)):
        c = c + [c[i] + coeffs[i] * (knots[i + p + 1] - knots[i]) / (p + 1)]
    k = np.r_[knots[0], knots, knots[-1]]
    return np.array(c), k, p + 1


def integral_value(knots, coeffs, p):
    s = 0.
    for i in range(len(coeffs)):
        s = s + coeffs[i] * (knots[i + p + 1] - knots[i]) / (p + 1)
    return s


def definite(knots, coeffs, p, ma, a, mb, b):
    c, k, q = primitive(knots, coeffs, p)
    return value(k, c, q, mb + 1, b) - value(k, c, q, ma + 1, a)


def greville(knots, p):
    n = len(knots) - p - 1
    return [sum([knots[i + 1 + j] for j in range(p)]) / p for i in range(n)]
