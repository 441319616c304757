from pyded.contracts_api import contract
from . import memory
from .spec import *

def maps(D, N=None, n=None):
    N = N or D.pick('N', [1, 2, 3, 4], sym=[1, 2]); n = n or D.pick('Nnl', [1, 2, 3], sym=[1, 2])
    return N, n, D.real('Q', (n, N)), D.real('T', (N, n))

def par(D, name, n, **k):
    """a coefficient given as one number or one per local force"""
    v = D.pick(name + ' kind', ['number', 'vector'])
    return (D.real(name, **k), ) * 2 if v == 'number' else (lambda a: (a, D.copyarr(a)))(D.real(name, (n,), **k))

def law(D, mk, f, vel=False, odd=True, shapes=None):
    """shared contract of element-wise elements: force = T f(Q X), slope exact, histories equal to the static law"""
    N, n, Q, T_ = maps(D)
    el, spec = mk(Q, T_, n)
    X = D.real('X', (N,)); X0 = D.copyarr(X)
    F, J = el.force(X)
    u = Q @ X0
    fs = spec(u)
    D.eq('force law', F, T_ @ fs)
    D.jac('force slope', F, J, X, lambda X: el.force(X)[0])
    D.same('input not modified', X, X0)
    Nt = D.pick('Nt', [1, 2, 5], sym=[2])
    ut, vt = D.real('ut', (Nt, n)), D.real('vt', (Nt, n)); ut0, vt0 = D.copyarr(ut), D.copyarr(vt)
    ft, du, dv = el.local_force_history(ut, vt)
    D.same('histories not modified', D.np.hstack((ut, vt)), D.np.hstack((ut0, vt0)))
    a = vt0 if vel else ut0
    for i in range(Nt):
        D.eq('history law', ft[i], spec(a[i]))
        for j in range(n):
            def g(x, i=i, j=j, which=0):
                b = D.copyarr(ut0), D.copyarr(vt0); b[which][i, j] = x
                return el.local_force_history(*b)[0][i, j]
            D.jac('history slope', ft[i, j], du[i, j], ut0[i, j], lambda x: g(x, which=0))
            D.jac('history velocity slope', ft[i, j], dv[i, j], vt0[i, j], lambda x: g(x, which=1))
    if odd: D.eq('odd', el.force(-X0)[0], -F)

@contract('C05', num=120)
def cubic(D):
    """f = kalpha u^3"""
    m = D.mod('nlforces.cubic_stiffness')
    def mk(Q, T_, n):
        k, k0 = par(D, 'k', n); return m.CubicForce(Q, T_, k), lambda u: k0 * (u * u * u)
    law(D, mk, None)

@contract('C05', num=120)
def quintic(D):
    """f = kalpha u^5"""
    m = D.mod('nlforces.quintic_stiffness')
    def mk(Q, T_, n):
        k, k0 = par(D, 'k', n); return m.QuinticForce(Q, T_, k), lambda u: k0 * (u * u * u * u * u)
    law(D, mk, None)

@contract('C05', num=120)
def damping(D):
    """f = calpha v^3, of the velocity only"""
    m = D.mod('nlforces.cubic_damping')
    def mk(Q, T_, n):
        k, k0 = par(D, 'c', n); return m.CubicDamping(Q, T_, k), lambda u: k0 * (u * u * u)
    law(D, mk, None, vel=True)

@contract('C05', num=150)
def unilateral(D):
    """f = k (u - delta) - Npreload in contact (u > delta), -Npreload out of contact"""
    m = D.mod('nlforces.unilateral_spring')
    def mk(Q, T_, n):
        k, k0 = par(D, 'k', n, pos=True); P, P0 = par(D, 'P', n, lo=0); d, d0 = par(D, 'delta', n)
        return m.UnilateralSpring(Q, T_, k, Npreload=P, delta=d), lambda u: D.np.where(u > d0, k0 * (u - d0) - P0, -P0)
    law(D, mk, None, odd=False)

@contract('C05', num=150)
def iwan_backbone(D):
    """f = sign(u) (kt |u| - E |u|^(2+chi)) below phi_max and sign(u) Fs from there on: continuous, odd, at most Fs"""
    m = D.mod('nlforces.iwan_bb_conserve')
    kt, Fs, beta = D.real('kt', pos=True), D.real('Fs', pos=True), D.real('beta', lo=0.05); chi = D.real('chi', lo=-0.9, hi=0.5)
    r = kt * (beta + (chi + 1) / (chi + 2)) / (Fs * (1 + beta))
    phi = 1 / r
    def spec(u):
        a = D.np.abs(u)
        f = kt * a - kt * r ** (1 + chi) / ((1 + beta) * (chi + 2)) * a ** (2 + chi)
        return D.np.sign(u) * D.np.where(a < phi, f, Fs)
    def mk(Q, T_, n): return m.ConservativeIwanBB(Q, T_, kt, Fs, chi, beta), spec
    law(D, mk, None)
    if not D.sym:
        u = D.real('far', (6, 1)) * 20; e = m.ConservativeIwanBB(np.eye(1), np.eye(1), kt, Fs, chi, beta)
        D.le('at most the slip force', np.abs(e.local_force_history(u, u)[0]), Fs)
        near = np.array([[phi * (1 - 1e-9)], [phi * (1 + 1e-9)]])
        D.eq('continuous at macroslip', e.local_force_history(near, near)[0], [[Fs], [Fs]], tol=1e-6)

POLY = [[[3]], [[1], [2]], [[2, 0], [0, 3]], [[1, 1], [2, 0], [0, 2]], [[2, 1], [1, 2], [3, 0]], [[1, 0], [0, 0]], [[4, 1]], [[1, 1, 1], [0, 2, 1]]]
@contract('C05', num=150)
def polynomial(D):
    """f = Emat prod(u^qq) with the full (coupled) slope matrix"""
    m = D.mod('nlforces.general_poly_stiffness')
    qq = D.pick('qq', POLY, sym=POLY[:7]); n = len(qq[0]); c = len(qq)
    N, n, Q, T_ = maps(D, n=n)
    E = D.real('E', (n, c)); E0 = D.copyarr(E); q = np.array(qq)
    el = m.GenPolyForce(Q, T_, E, q)
    X = D.real('X', (N,), nonzero=not D.sym); X0 = D.copyarr(X)
    def spec(u):
        t = D.np.ones((c,))
        for i in range(c):
            for j in range(n):
                for _ in range(qq[i][j]): t[i] = t[i] * u[j]
        return E0 @ t
    F, J = el.force(X)
    D.eq('force law', F, T_ @ spec(Q @ X0))
    D.jac('force slope', F, J, X, lambda X: el.force(X)[0])
    Nt = D.pick('Nt', [1, 2, 4], sym=[2])
    ut = D.real('ut', (Nt, n)); vt = D.real('vt', (Nt, n)); ut0 = D.copyarr(ut)
    ft, du, dv = el.local_force_history(ut, vt)
    for i in range(Nt):
        D.eq('history law', ft[i], spec(ut0[i]))
        def g(x, i=i):
            b = D.copyarr(ut0); b[i] = x; return el.local_force_history(b, vt)[0][i]
        D.jac('history slope', ft[i], du[i], ut0[i], g)
    D.eq('no velocity dependence', dv, D.np.zeros(dv.shape))
    D.same('inputs not modified', D.np.vstack((X.reshape(1, -1), X.reshape(1, -1))), D.np.vstack((X0.reshape(1, -1),) * 2))
    D.same('history not modified', ut, ut0)
from . import g05
