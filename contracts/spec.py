"""Specification functions shared by the contracts (independent of the package's code)."""
from fractions import Fraction as Fr
import math
import numpy as np
from pyded import terms as T

HL_ALL = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [1, 3], [2, 3], [0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3], [0, 1, 2, 3], [0, 1, 3, 5], [1, 3, 5], [0, 1, 2, 3, 4, 5], [0, 4], [3]]
HL_SYM = [[0], [1], [0, 1], [0, 1, 2], [1, 3], [0, 2], [0, 2, 3]]

def cospi(D, q):
    q = Fr(q)
    return T.cos_(T.PI * q) if D.sym else math.cos(math.pi * float(q % 2))
def sinpi(D, q):
    q = Fr(q)
    return T.sin_(T.PI * q) if D.sym else math.sin(math.pi * float(q % 2))

def nhc(h): return sum(1 if k == 0 else 2 for k in h)

def rows(h):
    """[(harmonic, cosine row, sine row or None)]"""
    r = []; p = 0
    for k in h:
        if k == 0: r.append((0, p, None)); p += 1
        else: r.append((k, p, p + 1)); p += 2
    return r

def zeros(D, shape): return D.np.zeros(shape)

def synth(D, h, U, Nt, order):
    """x^(order)(tau_i) = sum_k k^order (a_k cos(k tau + order pi/2) + b_k sin(k tau + order pi/2)), tau_i = 2 pi i/Nt"""
    nd = U.shape[1]
    X = zeros(D, (Nt, nd))
    for (k, c, s) in rows(h):
        for i in range(Nt):
            if k == 0:
                if order == 0: X[i] = X[i] + U[c]
                continue
            ph = Fr(2 * k * i, Nt) + Fr(order, 2)
            X[i] = X[i] + k ** order * (U[c] * cospi(D, ph) + U[s] * sinpi(D, ph))
    return X

def coeffs(D, h, x):
    """discrete harmonic coefficients: a_0 = mean, a_k = 2/Nt sum x cos(k tau), b_k = 2/Nt sum x sin(k tau)"""
    Nt, nd = x.shape
    V = zeros(D, (nhc(h), nd))
    for (k, c, s) in rows(h):
        for i in range(Nt):
            if k == 0: V[c] = V[c] + x[i] / Nt
            else:
                V[c] = V[c] + 2 * x[i] * cospi(D, Fr(2 * k * i, Nt)) / Nt
                V[s] = V[s] + 2 * x[i] * sinpi(D, Fr(2 * k * i, Nt)) / Nt
    return V

def harmonic_lin(D, M, C, K, w, h, U):
    """harmonics of M x'' + C x' + K x for x(t) with coefficients U ((Nhc*nd,) stacked component by component)"""
    nd = K.shape[0]
    R = zeros(D, (nhc(h) * nd,))
    for (k, c, s) in rows(h):
        a = U[c * nd:(c + 1) * nd]
        if k == 0: R[c * nd:(c + 1) * nd] = K @ a; continue
        b = U[s * nd:(s + 1) * nd]
        # x = a cos(k w t) + b sin(k w t):  x' -> cos: k w b, sin: -k w a;  x'' -> -(k w)^2 x
        R[c * nd:(c + 1) * nd] = M @ a * (-(k * w) ** 2) + C @ b * (k * w) + K @ a
        R[s * nd:(s + 1) * nd] = M @ b * (-(k * w) ** 2) - C @ a * (k * w) + K @ b
    return R

def nt_for(h, mult=1):
    m = max(h)
    for n in (4, 6, 8, 12):
        if n > 2 * m + 1: return n * mult
    n = 16
    while n <= 2 * m + 1: n *= 2
    return n * mult
def nts(h):
    m = max(h)
    return [n for n in (4, 6, 8, 12) if n > 2 * m + 1][:2] or [nt_for(h)]
