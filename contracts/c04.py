from pyded.contracts_api import contract
from . import memory
from .spec import *
from . import g04

@contract('C04', num=200, budget=30, maxcfg=40)
def stiffness(D):
    """E @ U equals the harmonics of M x'' + C x' + K x, entry by entry; dEdw is its exact w-derivative"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=HL_SYM + [[2], [0, 1, 3, 4]])
    n = D.pick('n', [1, 2, 3, 4], sym=[1, 2, 3])
    M, C, K = D.real('M', (n, n)), D.real('C', (n, n)), D.real('K', (n, n)); w = D.real('w')
    M0, C0, K0 = D.copyarr(M), D.copyarr(C), D.copyarr(K); ha = np.array(h)
    E, dE = hu.harmonic_stiffness(M, C, K, w, ha)
    D.same('M, C, K not modified', D.np.hstack((M, C, K)), D.np.hstack((M0, C0, K0)))
    N = nhc(h) * n
    I = D.np.eye(N)
    S = D.np.zeros((N, N))
    for j in range(N): S[:, j] = harmonic_lin(D, M0, C0, K0, w, h, I[:, j])
    D.eq('E', E, S)
    D.jac('dEdw', E.reshape(-1), dE.reshape(-1), w, lambda w: hu.harmonic_stiffness(M, C, K, w, ha)[0].reshape(-1))
    r = hu.harmonic_stiffness(M, C, K, w, ha, calc_grad=False)
    D.true('no gradient: one output', len(r) == 1)
    D.eq('E without gradient', r[0], E)

@contract('C04', num=100, budget=30, maxcfg=40)
def only_damping(D):
    """the damping-only matrix is the full matrix minus the matrix without damping; M and K are ignored"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=HL_SYM)
    n = D.pick('n', [1, 2, 3], sym=[1, 2])
    C = D.real('C', (n, n)); w = D.real('w'); ha = np.array(h)
    junk = D.pick('junk', [0, 1])
    Z = D.np.zeros((n, n))
    M, K = (None, None) if junk else (D.real('M', (n, n)), D.real('K', (n, n)))
    E, dE = hu.harmonic_stiffness(M, C, K, w, ha, only_C=True)
    N = nhc(h) * n; I = D.np.eye(N); S = D.np.zeros((N, N))
    for j in range(N): S[:, j] = harmonic_lin(D, Z, C, Z, w, h, I[:, j])
    D.eq('E damping part', E, S)
    D.jac('dEdw', E.reshape(-1), dE.reshape(-1), w, lambda w: hu.harmonic_stiffness(M, C, K, w, ha, only_C=True)[0].reshape(-1))
    r = hu.harmonic_stiffness(M, C, K, w, ha, calc_grad=False, only_C=True)
    D.eq('E without gradient', r[0], E)

@contract('C04', num=100, budget=10, maxcfg=40)
def count(D):
    """one component per zeroth and two per other harmonic; repeated harmonics are rejected"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL)
    D.true('count', int(hu.Nhc(np.array(h))) == nhc(h))
    D.raises('repeated harmonics', lambda: hu.Nhc(np.array(h + [h[0]])), AssertionError)
