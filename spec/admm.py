"""The updates of the alternating direction method of multipliers and of dual decomposition."""
import numpy as np
from casadi import mtimes, solve


def consensus(x, l, A, b, rho):
    """the minimiser of l'(x - z) + rho/2 |x - z|^2 over A z = b"""
    c = x + l/rho
    return c - mtimes(A.T, solve(mtimes(A, A.T), mtimes(A, c) - b))


def multiplier(l, x, z, rho):
    return l + rho*(x - z)


def residuals(x, z, zp, rho):
    """squared primal, dual and combined residual"""
    p, d = x - z, z - zp
    pr, dr = mtimes(p, p), rho*mtimes(d, d)
    return [pr, dr, rho*pr + dr]


def lagrangian(x, pairs, rho):
    """what the x-update minimises on top of the objective of the vehicle: pairs of copies and multipliers of x"""
    res = 0
    for z, l in pairs:
        d = x - z
        res = res + mtimes(l, d) + rho/2*mtimes(d, d)
    return res


def linear(x, pairs):
    res = 0
    for z, l in pairs:
        res = res + mtimes(l, x - z)
    return res


def exchanged(x, ls, zs, lz):
    """what the update of vehicle and copies minimises in dual decomposition"""
    res = 0
    for l in ls:
        res = res + mtimes(l, x)
    return res - mtimes(lz, zs)


def momentum(alpha):
    return (1 + np.sqrt(1 + 4*alpha**2))/2


def ahead(x, xp, alpha):
    return x + (alpha - 1)/momentum(alpha)*(x - xp)


def distance(x, z):
    return mtimes(x - z, x - z)
