import types, warnings
from pyded.contracts_api import contract
from . import memory
from . import g24
from pyded import symnp, load
from .spec import *
from .resid import linear_part

def system(D, n, ne):
    """system with ne memoryless elements (known through their contract when symbolic)"""
    vs = D.mod('vibration_system')
    if D.sym: M, C, K = linear_part(D, n)
    else:
        def spd(r, shape, a, b):
            Q = np.linalg.qr(r.normal(size=shape))[0]; return Q @ np.diag(r.uniform(a, b, shape[0])) @ Q.T
        M = D.real('M', (n, n), draw=lambda r, s: spd(r, s, 0.5, 2) + 0.1 * r.uniform(-1, 1, s)); K = D.real('K', (n, n), draw=lambda r, s: spd(r, s, 0.3, 4)); C = D.real('C', (n, n), draw=lambda r, s: r.uniform(-.3, .3, s))
    sy = vs.VibrationSystem(M, K, C=C); els = []
    if D.sym:
        class Opaque(D.mod('nlforces.nonlinear_force').NonlinearForce):
            def __init__(self, i): self.i = i; self.Q = D.np.eye(n); self.T = D.np.eye(n)
            def nl_force_type(self): return 0
            def force(self, X): return D.fun('s%d' % self.i, n, X)
            def local_force_history(self, *a, **k): raise T.Unsupported('history call')
        els = [Opaque(i) for i in range(ne)]
    else:
        for i in range(ne):
            kd = D.pick('kind%d' % i, ['cubic', 'quintic', 'bystander']); m = D.pick('nnl%d' % i, [1, 2])
            Q, T_ = D.real('Q%d' % i, (m, n)), D.real('T%d' % i, (n, m)); kq, kt = D.real('kQ%d' % i, (m,), pos=True), D.real('kT%d' % i, (m,), pos=True)
            kl = np.diag(kt)
            if kd == 'cubic': els.append(D.mod('nlforces.cubic_stiffness').CubicForce(Q[:1], T_[:, :1], np.array([kq[0]])))
            elif kd == 'quintic': els.append(D.mod('nlforces.quintic_stiffness').QuinticForce(Q[:1], T_[:, :1], np.array([kq[0]])))
            else: els.append(Memoryless(D, Q, T_, kq))
    for e in els: sy.add_nl_force(e)
    return sy, els, (D.copyarr(M), D.copyarr(C), D.copyarr(K))

def Memoryless(D, Q, T_, k):
    class Tanh(D.mod('nlforces.nonlinear_force').NonlinearForce):
        def __init__(self): super().__init__(Q, T_)
        def nl_force_type(self): return 0
        def force(self, X):
            u = Q @ X; t = np.tanh(u); return T_ @ (k * t), T_ @ np.diag(k * (1 - t * t)) @ Q
    return Tanh()

def flow(D, els, mats, Fl, w, t, y):
    """right hand side of the equation of motion and of its linearisation"""
    M, C, K = mats; n = M.shape[0]; P = D.np; Mi = P.linalg.inv(M)
    u, v, S, q = y[:n], y[n:2 * n], y[2 * n:2 * n + 4 * n * n].reshape(2 * n, 2 * n), y[-2 * n:]
    F, dF = P.zeros((n,)), P.zeros((n, n))
    for e in els:
        a, b = e.force(u); F = F + a; dF = dF + b
    a = Mi @ (Fl[:n] * P.cos(w * t) + Fl[n:] * P.sin(w * t) - C @ v - K @ u - F)
    A = P.vstack((P.hstack((P.zeros((n, n)), P.eye(n))), P.hstack((-(Mi @ (K + dF)), -(Mi @ C)))))
    g = P.hstack((P.zeros((n,)), Mi @ (t * (Fl[n:] * P.cos(w * t) - Fl[:n] * P.sin(w * t)))))
    return P.hstack((v, a, (A @ S).reshape(-1), A @ q + g))

@contract('C24', num=0, budget=120, maxcfg=24)
def equation(D):
    """the integrated equation is the equation of motion plus its exact variation; the residual and derivatives are read from the end state"""
    if not D.sym: return
    n = D.pick('n', None, sym=[1, 2]); ne = D.pick('elements', None, sym=[0, 1, 2]); Nt = D.pick('Nt', None, sym=[3, 4]); aux = D.pick('aux', None, sym=[False, True])
    sy, els, mats = system(D, n, ne); P = D.np
    Uw, Fl = D.real('Uw', (2 * n + 1,)), D.real('Fl', (2 * n,)); w = Uw[-1]; D.assume(w > 0); Uw0, Fl0 = D.copyarr(Uw), D.copyarr(Fl); N = 4 * n * n + 4 * n
    seen = []
    Y = D.real('Y', (N, Nt + 1))
    y0s = P.hstack((Uw0[:-1], P.eye(2 * n).reshape(-1), P.zeros((2 * n,))))
    def ivp(f, span, y0, *a, **k):
        if seen or a or set(k) - {'max_step', 't_eval', 'rtol', 'atol', 'method'} or 't_eval' not in k or np.shape(y0) != (N,): raise T.Unsupported('other integration protocol')
        for x, y in zip(y0, y0s):
            if not num0(x - y): raise T.Unsupported('other state layout')
        seen.append(1); D.eq('integrates over one period', D.np.array([span[0], span[1]]), D.np.array([0 * w, 2 * D.np.pi / w]))
        te = k['t_eval']
        D.eq('time samples', te, D.np.array([2 * D.np.pi / w * i / Nt for i in range(Nt + 1)]))
        t, y = D.real('t'), D.real('y', (N,)); yk = D.copyarr(y)
        d, s = f(t, y), flow(D, els, mats, Fl0, w, t, yk)
        D.eq('velocity and acceleration of the equation of motion', d[:2 * n], s[:2 * n]); D.eq('variation with the initial state', d[2 * n:-2 * n], s[2 * n:-2 * n]); D.eq('variation with the frequency', d[-2 * n:], s[-2 * n:])
        class R(dict): __getattr__ = dict.__getitem__
        return R(y=Y.copy(), t=te, success=True, status=0)
    load.copy().scipy.integrate.contracts['solve_ivp'] = ivp
    try: r = sy.shooting_res(Uw, Fl, Nt=Nt, return_aux=aux)
    finally: load.copy().scipy.integrate.contracts.pop('solve_ivp', None)
    if not seen: raise T.Unsupported('no integration')
    e = Y[:, -1]; mono = e[2 * n:-2 * n].reshape(2 * n, 2 * n)
    D.eq('state change over the period', r[0], e[:2 * n] - Uw0[:-1]); D.eq('derivative with the state', r[1], mono - P.eye(2 * n))
    D.eq('derivative with the frequency', r[2], flow(D, els, mats, Fl0, w, 2 * P.pi / w, e)[:2 * n] * (-2 * P.pi / (w * w)) + e[-2 * n:])
    if aux: D.eq('one-period map', r[3][0], mono); D.eq('displacements', r[3][1], Y[:n]); D.eq('velocities', r[3][2], Y[n:2 * n])
    D.true('number of results', len(r) == (4 if aux else 3))
    D.same('inputs not modified', Uw, Uw0); D.same('inputs not modified', Fl, Fl0)

def num0(t):
    t = T.lift(t)
    return t.is_const() and t.const() == 0 or len(t.m) == 0

@contract('C24', num=40, sym=False)
def orbit(D):
    """against an independent high accuracy integration of the equation of motion and of its difference quotients"""
    from scipy.integrate import solve_ivp
    n = D.pick('n', [1, 2, 3]); ne = D.pick('elements', [0, 1, 1, 2, 3]); Nt = D.pick('Nt', [128, 50, 100, 200, 256, 81]); sy, els, mats = system(D, n, ne)
    x0 = D.real('x0', (2 * n,), lo=-1, hi=1); w = D.real('w', lo=0.7, hi=3); Fl = D.real('Fl', (2 * n,), lo=-1, hi=1); Uw = np.hstack((x0, w)); keep = Uw.copy(), Fl.copy()
    r = sy.shooting_res(Uw, Fl, Nt=Nt, return_aux=True); r3 = sy.shooting_res(Uw, Fl, Nt=Nt)
    for a, b in zip(r, r3): D.same('same with and without extra output', a, b)
    y0 = np.hstack((x0, np.eye(2 * n).ravel(), np.zeros(2 * n))); P = 2 * np.pi / w
    s = solve_ivp(lambda t, y: flow(D, els, mats, keep[1], w, t, y), (0, P), y0, method='DOP853', rtol=1e-9, atol=1e-11, t_eval=np.linspace(0, P, Nt + 1))
    D.assume(s.success and np.max(np.abs(s.y)) < 1e3)
    e = s.y[:, -1]; mono = e[2 * n:-2 * n].reshape(2 * n, 2 * n); tol = 2e-3
    fd = flow(D, els, mats, keep[1], w, P, e)[:2 * n] * (-P / w) + e[-2 * n:]
    D.eq('state change over the period', r[0], e[:2 * n] - x0, tol=tol); D.eq('derivative with the state', r[1], mono - np.eye(2 * n), tol=tol); D.eq('derivative with the frequency', r[2], fd, tol=5e-3)
    D.eq('one-period map', r[3][0], mono, tol=tol); D.eq('displacements', r[3][1], s.y[:n], tol=tol); D.eq('velocities', r[3][2], s.y[n:2 * n], tol=tol)
    D.same('inputs not modified', Uw, keep[0]); D.same('inputs not modified', Fl, keep[1])

@contract('C24', num=4, sym=False)
def refused(D):
    """elements with memory are refused"""
    vs = D.mod('vibration_system'); J = D.mod('nlforces.jenkins_element').JenkinsForce(np.eye(2)[:1], np.eye(2)[:, :1], 1.0, 0.5); J.init_history()
    sy = vs.VibrationSystem(np.eye(2), np.eye(2), ab=[0.1, 0])
    if D.pick('also', [0, 1]): sy.add_nl_force(D.mod('nlforces.cubic_stiffness').CubicForce(np.eye(2)[:1], np.eye(2)[:, :1], np.array([1.0])))
    sy.add_nl_force(J)
    D.raises('element with memory', lambda: sy.shooting_res(np.array([.1, .2, 0, 0, 1.]), np.zeros(4)))

@contract('C24', num=60, budget=40, maxcfg=12)
def stability(D):
    """an orbit is stable exactly when no eigenvalue of the one-period map exceeds one in magnitude"""
    ps = D.mod('postprocess.shooting'); n = D.pick('n', [1, 2, 3], sym=[1]); m = D.pick('orbits', [0, 1, 2, 5], sym=[1, 2]); Nt = D.pick('Nt', [128, 16, 7], sym=[3])
    X = D.real('X', (m, 2 * n + 1)); Fl = D.real('Fl', (2 * n,)); aux = []; lam = []; log = []
    for i in range(m):
        if D.sym:
            re, im = D.real('re%d' % i, (2 * n,)), D.real('im%d' % i, (2 * n,)); lam.append((re, im)); Mo = D.real('P%d' % i, (2 * n, 2 * n))
        else:
            B = np.zeros((2 * n, 2 * n))
            for k in range(n):
                kd = D.pick('block%d,%d' % (i, k), ['unit', 'real', 'complex', 'rotation', 'negative']); a, b = D.real('a%d,%d' % (i, k), lo=-1.3, hi=1.3), D.real('b%d,%d' % (i, k), lo=-1.3, hi=1.3)
                if kd == 'unit': Bk = np.diag([1.0, 0.5 * np.tanh(b)])
                elif kd == 'rotation': Bk = np.array([[0, -1.0], [1.0, 0]])
                elif kd == 'negative': Bk = np.diag([-abs(a), 0.3])
                elif kd == 'real': Bk = np.diag([a, b])
                else: Bk = np.array([[a, -b], [b, a]])
                B[2 * k:2 * k + 2, 2 * k:2 * k + 2] = Bk
            lam.append(B); Mo = B
        aux.append((Mo, D.real('u%d' % i, (n, Nt + 1)), D.real('v%d' % i, (n, Nt + 1)), None))
    M = D.np.eye(n)
    def res(Uw, F, Nt=128, return_aux=False):
        log.append((Uw, F, Nt, return_aux)); a = aux[len(log) - 1]; z = D.np.zeros((2 * n,))
        return (z, D.np.zeros((2 * n, 2 * n)), z, a) if return_aux else (z, D.np.zeros((2 * n, 2 * n)), z)
    vib = types.SimpleNamespace(M=M, shooting_res=res, nonlinear_forces=[])
    if D.sym:
        def eig(A, *a, **k):
            for (re, im), q in zip(lam, aux):
                if np.shape(A) == np.shape(q[0]) and all(num0(x - y) for x, y in zip(A.ravel(), q[0].ravel())): return symnp.mk([symnp.CTerm(T.lift(x), T.lift(y)) for x, y in zip(re, im)])
            raise T.Unsupported('eigenvalues of another matrix')
        D.patch(D.np.linalg, 'eigvals', eig); load.copy().scipy.linalg.contracts['eigvals'] = eig
    y, yd, st, mx = ps.time_stability(vib, X, Fl, Nt=Nt)
    D.true('one analysis per orbit', len(log) == m and all(l[2] == Nt and l[3] for l in log))
    for i in range(m):
        D.same('analysed point', log[i][0], X[i]); D.same('load', log[i][1], Fl)
        if D.sym:
            re, im = lam[i]; mag = [D.np.sqrt(a * a + b * b) for a, b in zip(re, im)]
            D.true('stable exactly when no eigenvalue exceeds one', T.as_cond(symnp.el(st[i])) if bool(T.and_(*[q <= 1 for q in mag])) else T.not_(T.as_cond(symnp.el(st[i]))))
            for q in mag: D.le('largest magnitude', q, mx[i])
        else:
            e = max(abs(np.linalg.eigvals(lam[i]))); D.eq('largest magnitude', mx[i], e, tol=1e-12); D.true('stable exactly when no eigenvalue exceeds one', bool(st[i]) == bool(e <= 1))
        D.same('displacement series', y[:, :, i], aux[i][1]); D.same('velocity series', yd[:, :, i], aux[i][2])
    D.true('one entry per orbit', np.shape(y) == (n, Nt + 1, m) and np.shape(yd) == (n, Nt + 1, m) and np.shape(st) == (m,) and np.shape(mx) == (m,))
