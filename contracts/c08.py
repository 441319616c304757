from pyded.contracts_api import contract
from . import memory
from .friction import *

def element(D, cls='nlforces.iwan4_element:Iwan4Force', light=False, n=None, ns=None):
    m, c = cls.split(':')
    N = n or D.pick('N', [1, 2, 3], sym=[1, 2]); Q, T_ = D.real('Q', (1, N)), D.real('T', (N, 1))
    kt, Fs, chi, beta = iwan_params(D, light)
    ns = ns or D.pick('Nsliders', [1, 2, 3, 10, 40], sym=[1, 2] if not light else [1]); alpha = D.pick('alpha', [1.0, 1.2, 2.0], sym=[1, 2] if ns > 1 else [1])
    k = dict(Nsliders=ns) if alpha == 1 and not D.sym else dict(Nsliders=ns, alphasliders=alpha)
    el = getattr(D.mod(m), c)(Q, T_, kt, Fs, chi, beta, **k)
    return el, N, Q, T_, kt, Fs, chi, beta, Sliders(D, *iwan_set(D, kt, Fs, chi, beta, ns, alpha)), ns, alpha

@contract('C08', num=300, budget=90, maxcfg=40, paths=3000)
def static(D):
    """any sequence of static evaluations from a reset element: weighted sum of sliders, each within its own limit, slope of the
    active sliders, history changed exactly when asked"""
    flags = D.pick('update', [(1, 0), (1, 1, 0), (0, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1, 1)], sym=[(1, 0), (0, 1), (1, 1, 0)])
    el, N, Q, T_, kt, Fs, chi, beta, sl, ns, alpha = element(D, n=1 if D.sym else None, light=D.sym and len(flags) == 3)
    if D.pick('reset', ['no', 'yes'], sym=['no']) == 'yes':
        for k in range(2): el.force(D.real('Z%d' % k, (N,)), update_hist=True)
        el.init_history()
    for k, fl in enumerate(flags):
        X = D.real('X%d' % k, (N,)); X0 = D.copyarr(X)
        u = (Q @ X0)[0]; smooth = D.sym or sl.margin(u) > 5e-3
        F, J = el.force(X, update_hist=bool(fl))
        f = sl.step(u, bool(fl))
        D.eq('weighted slider sum', F, T_[:, 0] * f)
        D.same('input not modified', X, X0)
        if not fl and smooth: D.jac('slope of the active sliders', F, J, X0, lambda X: el.force(X, update_hist=False)[0])

@contract('C08', num=200, budget=40, maxcfg=40)
def strength(D):
    """full initial stiffness from reset, macroslip strength for large displacement, never above the sum of slider limits"""
    el, N, Q, T_, kt, Fs, chi, beta, sl, ns, alpha = element(D, n=1, ns=D.pick('sliders', [1, 2, 3, 100, 150], sym=[1, 2, 3]))
    lim = 0; k0 = 0
    for a, p in zip(sl.w, sl.phi): lim = lim + a * p; k0 = k0 + a
    u = D.real('u', lo=-50, hi=50)
    Q1 = D.np.ones((1, 1))
    el1 = type(el)(Q1, Q1, kt, Fs, chi, beta, Nsliders=ns, alphasliders=alpha)
    x = D.np.zeros((1,)); x[0] = u
    f, _ = el1.force(x, update_hist=True)
    D.le('never above the strength', D.np.abs(f[0]), lim)
    y = D.np.zeros((1,)); y[0] = u + 2 * sl.phi[-1] + 1
    g, J = el1.force(y)
    D.eq('macroslip strength', g[0], lim)
    D.eq('no stiffness in macroslip', J, D.np.zeros((1, 1)))
    el1.init_history(); g, J = el1.force(D.np.zeros((1,)))
    D.eq('initial stiffness', J[0, 0], k0); D.eq('no force at reset', g[0], 0 * u)
    if D.sym:
        if chi == 0: D.eq('stiffness parameter', k0, kt); D.eq('strength parameter', lim, Fs)
    elif ns >= 100 and alpha <= 1:
        D.true('strength parameter within quadrature error', abs(lim / Fs - 1) < 0.01)
        if chi >= 0: D.true('stiffness parameter within quadrature error', abs(k0 / kt - 1) < 0.01)

@contract('C08', num=200, budget=90, maxcfg=30, paths=3000)
def cycle(D):
    """marching a periodic motion: force and exact derivative through the history at every instant"""
    el, N, Q, T_, kt, Fs, chi, beta, sl, ns, alpha = element(D, light=True, n=1)
    h = D.pick('h', [[0], [1], [0, 1], [1, 2]], sym=[[0], [1]]); Nt = D.pick('Nt', [2, 3, 8], sym=[2]); n = nhc(h)
    cst = D.real('cst', (Nt, n)); Uh = D.real('Uh', (n, 1)); reps = D.pick('cycles', [1, 2, 3], sym=[1]); vel = D.np.zeros((Nt, 1))
    def run(Uh): return el.local_force_history(cst @ Uh, vel, np.array(h), cst, Uh[0], max_repeats=reps, atol=-1.0, rtol=-1.0)
    ft, du, dv = run(Uh)
    u = (cst @ Uh)[:, 0]; sl.reset(Uh[0, 0]); m = np.inf; S = D.np.zeros((Nt,))
    for _ in range(reps):
        for i in range(Nt):
            if not D.sym: m = min(m, sl.margin(u[i]))
            S[i] = sl.step(u[i])
    D.eq('force at every instant', ft[:, 0], S)
    D.eq('no velocity dependence', dv, D.np.zeros(dv.shape))
    if m > 1e-3 or D.sym: D.jac('derivative with the history', ft[:, 0], du[:, 0, 0, :], Uh, lambda Uh: run(Uh)[0][:, 0])

@contract('C08', num=100, sym=False)
def aft(D):
    """harmonic forces of the marching element, sliders started at the zeroth row of the local coefficients"""
    el, N, Q, T_, kt, Fs, chi, beta, sl, ns, alpha = element(D)
    h = D.pick('h', HL_ALL[:14]); Nt = D.pick('Nt', [x for x in (4, 8, 16, 32, 64) if x > 2 * max(h) + 1])
    U = D.real('U', (nhc(h) * N,), draw=plateau_draw); w = D.real('w', pos=True); ha = np.array(h)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u = motions(D, h, Q, U, Nt); sl.reset(Ul[0, 0]); ft = np.zeros((Nt, 1)); m = np.inf
    for c in range(2):
        for i in range(Nt): m = min(m, sl.margin(u[i, 0])); ft[i, 0] = sl.step(u[i, 0])
        if c == 0: D.assume(abs(ft[-1, 0]) > 1e-6 or np.max(np.abs(u - Ul[0, 0])) < 1e-12)
    D.eq('harmonic force', F, global_force(D, h, T_, ft))
    D.eq('no frequency dependence', dw, D.np.zeros(dw.shape))
    if m > 1e-3: D.jac('harmonic derivative', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])
from . import g08
