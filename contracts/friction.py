"""Specifications shared by the friction contracts."""
from .spec import *

def clip(D, x, lim): return D.np.maximum(D.np.minimum(x, lim), -lim)

def march(D, u, u0, kt, Fs, cycles=2):
    """Coulomb slider marched through the periodic samples u (Nt,) from a slider at u0 without force"""
    Nt = len(u); up, f = u0, 0 * u0; ft = D.np.zeros((Nt,))
    for _ in range(cycles):
        for i in range(Nt):
            f = clip(D, kt * (u[i] - up) + f, Fs); up = u[i]; ft[i] = f
    return ft

def margin(u, up, f, kt, lim, cycles=2):
    """numeric: smallest distance of the marched predictions from the stick/slip boundary (differentiability)"""
    m = np.inf
    for _ in range(cycles):
        for x in u:
            p = kt * (x - up) + f; m = min(m, abs(abs(p) - lim)); f = min(max(p, -lim), lim); up = x
    return m

def motions(D, h, Q, U, Nt):
    N = Q.shape[1]; Ul = D.np.zeros((nhc(h), Q.shape[0]))
    for c in range(nhc(h)): Ul[c] = Q @ U[c * N:(c + 1) * N]
    return Ul, synth(D, h, Ul, Nt, 0)

def global_force(D, h, T_, ft):
    F = coeffs(D, h, ft); N = T_.shape[0]; R = D.np.zeros((nhc(h) * N,))
    for c in range(nhc(h)): R[c * N:(c + 1) * N] = T_ @ F[c]
    return R

def plateau_draw(r, shape):
    """harmonic coefficients that often give motions with plateaus, symmetric samples or no motion at all"""
    k = r.random()
    if k < 0.5: return r.uniform(-2, 2, size=shape) * r.choice([1.0, 5.0, 0.2])
    v = np.zeros(shape)
    m = r.integers(np.size(v)); v.flat[m] = r.choice([1.0, -1.0, 2.0])
    if k > 0.8: v.flat[r.integers(np.size(v))] = r.choice([1.0, -1.0, 0.5])
    return v

def iwan_set(D, kt, Fs, chi, beta, N, alpha):
    """slider limits and weights of the four-parameter Iwan distribution: power-law density R phi^chi on (0, phimax) in N
    midpoint slices growing by alpha, and the macroslip slider of weight S at phimax"""
    a = beta + (chi + 1) / (chi + 2)
    phimax = Fs * (1 + beta) / kt / a
    R = Fs * (chi + 1) / (D.np.power(phimax, chi + 2) * a); S = Fs * beta / phimax / a
    d1 = phimax * (alpha - 1) / (alpha ** N - 1) if alpha > 1 else phimax / N
    phi, w = [], []; left = 0
    for j in range(N):
        d = d1 * alpha ** j
        phi.append(left + d / 2); w.append(R * D.np.power(phi[-1], chi) * d); left = left + d
    return phi + [phimax], w + [S]

def iwan_params(D, light=False):
    if D.sym or 'parameters' in D.fixed:
        kt, Fs, chi, beta = [Fr(x) for x in D.pick('parameters', ['2 1 0 1/2', '1 2 1 1/3', '3 1 0 0'][:1 if light else 3]).split()]
        kt, Fs, chi, beta = [T.lift(x) if D.sym else float(x) for x in (kt, Fs, chi, beta)]
    else: kt, Fs, chi, beta = D.real('kt', lo=0.2, hi=3), D.real('Fs', lo=0.2, hi=3), D.real('chi', lo=-0.8, hi=1.5), D.real('beta', lo=0, hi=2)
    return kt, Fs, chi, beta

class Sliders:
    def __init__(self, D, phi, w): self.D = D; self.phi = phi; self.w = w; self.reset(0)
    def reset(self, u0): self.up = u0; self.f = [0 * self.w[0]] * len(self.phi)
    def step(self, u, save=True):
        g = [clip(self.D, u - self.up + f, p) for f, p in zip(self.f, self.phi)]
        if save: self.up = u; self.f = g
        r = 0
        for a, b in zip(self.w, g): r = r + a * b
        return r
    def margin(self, u):
        return min(abs(abs(u - self.up + f) - p) for f, p in zip(self.f, self.phi))
