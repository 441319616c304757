from pyded.contracts_api import contract
from .spec import *
from . import g21
from .c20 import matrices, system, modal, solved, Modes

HL = [[1], [0, 1], [0, 1, 2], [1, 3], [0, 1, 2, 3], [1, 2]]

class Linear:
    """the linear response known through its contract (C20): linear in the load, for each frequency and number of modes"""
    def __init__(self, D, n): self.D = D; self.n = n; self.H = {}
    def at(self, w, neigs):
        k = (T.lift(w).key(), int(neigs))
        if k not in self.H: i = len(self.H); self.H[k] = self.D.real('Hr%d' % i, (self.n, self.n)), self.D.real('Hi%d' % i, (self.n, self.n))
        return self.H[k]
    def modal(self, neigs, fc, fs, w): R, I = self.at(w, neigs); return R @ fc - I @ fs, I @ fc + R @ fs
    def install(self, sys_, sol):
        def linear_frf(w, Fl, solver, neigs=3, Flsin=None):
            if solver is not sol: raise T.Unsupported('another solver')
            D = self.D; c, s = self.modal(min(int(neigs), self.n), Fl, D.np.zeros((self.n,)) if Flsin is None else Flsin, w); return D.np.hstack((c, s, w)).reshape(1, -1)
        self.D.patch(sys_, 'linear_frf', linear_frf)

def setup(D, n, neigs):
    m = min(n, 3 if neigs == 'default' else neigs); M, K = matrices(D, n); ab = D.real('ab', (2,), lo=0.01, hi=0.3) if not D.sym else D.real('ab', (2,)); s = system(D, M, K, ab)
    if D.sym: sol = object(); L = Linear(D, n); L.install(s, sol); return M, K, ab, s, sol, lambda fc, fs, w: L.modal(m, fc, fs, w)
    sol = D.mod('solvers').NonlinearSolver(); V, wn = solved(D, M, K, m); z = ab[0] / wn / 2 + ab[1] * wn / 2
    return M, K, ab, s, sol, lambda fc, fs, w: modal(D, V, wn, z, fc, fs, w)

def nonlinear(D, n):
    """system whose elements are known through their contract only (symbolic) or are real elements (numeric)"""
    s = D.mod('vibration_system').VibrationSystem(D.np.eye(n), D.np.eye(n)); seen = []
    if not D.sym:
        s.add_nl_force(D.mod('nlforces.cubic_stiffness').CubicForce(D.real('Qn', (1, n)), D.real('Tn', (n, 1)), np.array([D.real('kn', pos=True)])))
        s.add_nl_force(D.mod('nlforces.unilateral_spring').UnilateralSpring(D.real('Qm', (1, n)), D.real('Tm', (n, 1)), D.real('km', pos=True)))
        return s, lambda U, w, h: s.total_aft(U, w, h, calc_grad=False)[0], lambda: None
    nf = D.mod('nlforces.nonlinear_force')
    class El(nf.NonlinearForce):
        def __init__(self, i): self.i = i; self.Q = D.np.eye(n); self.T = D.np.eye(n)
        def nl_force_type(self): return 0
        def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
            F, P = D.fun('f%d' % self.i, U.shape[0], D.np.hstack((U, w))); return (F, P[:, :-1], P[:, -1]) if calc_grad else (F,)
    els = [El(0), El(1)]
    for e in els: s.add_nl_force(e)
    return s, lambda U, w, h: els[0].aft(U, w, h)[0] + els[1].aft(U, w, h)[0], None

@contract('C21', num=3000, budget=75, maxcfg=150)
def prediction(D):
    """linear response in the first harmonic, commanded amplitude and phase, load components, static part, superharmonic entries"""
    eq = D.pick('equation', ['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE', 'hbm_amp'], sym=['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE']); E = eq.upper()
    n = D.pick('n', [1, 2, 4], sym=[1, 2]); h = D.pick('h', HL, sym=[[1], [0, 1], [0, 1, 3]]); neigs = D.pick('neigs', ['default', 1, 2], sym=['default', 1]); ha = None
    rhi = None
    if E == 'VPRNM_AMP_PHASE': rhi = D.pick('rhi', [2, 3, 4], sym=[2, 3]); h = sorted(set(h + [rhi]))
    ha = np.array(h); h0 = n if h[0] == 0 else 0; N = nhc(h) * n; kw = {}
    M, K, ab, s, sol, lin = setup(D, n, neigs); w = D.real('w', pos=True); fc = D.real('Fc', (n,)); fs = D.real('Fs', (n,)) if E in ('HBM', 'HBM_AMP') else D.np.zeros((n,))
    Fl = D.np.hstack((D.real('F0', (h0,)), fc, fs, D.real('Frest', (N - h0 - 2 * n,)))) if not D.sym or h0 or N > h0 + 2 * n else D.np.hstack((fc, fs))
    c, sn = lin(fc, fs, w); Xs = None
    if D.pick('static solution', [0, 1]): Xs = D.real('Xstat', (n,)); kw['Xstat'] = Xs
    if neigs != 'default': kw['neigs'] = neigs
    fm = 1
    if E == 'HBM': fm = D.real('fmag'); kw['fmag'] = fm
    else:
        o = D.pick('order', [0, 1, 2]); A = D.real('amplitude', pos=True); cr = D.real('control', (n,)); kw.update(control_amp=A, control_recov=cr, control_order=o)
        if D.pick('unused fmag', [0, 1], sym=[0]): kw['fmag'] = 3.0
        x, y = cr @ c, cr @ sn; D.assume(x * x + y * y > (0 if D.sym else 1e-4)); fm = A / (D.np.sqrt(x * x + y * y) * w ** o)
    if rhi:
        snl, total, _ = nonlinear(D, n); kw.update(rhi=rhi, vib_sys_nl=snl)
        if D.pick('gradient flag', [0, 1]): kw['vprnm_calc_grad'] = False
    args = [w, Fl, ha]; keep = [D.copyarr(v) for v in (M, K, Fl)]; kx = None if Xs is None else D.copyarr(Xs)
    U = D.mod('utils.harmonic').predict_harmonic_solution(s, w, Fl, ha, sol, eq, **kw)
    extra = dict(HBM=1, HBM_AMP=2, HBM_AMP_PHASE=3, VPRNM_AMP_PHASE=4)[E]; D.true('one entry for every unknown', tuple(U.shape) == (N + extra,))
    if tuple(U.shape) != (N + extra,): return
    u1, u2 = U[h0:h0 + n], U[h0 + n:h0 + 2 * n]
    if E == 'HBM': D.eq('linear response', u1, c * fm, tol=1e-7); D.eq('linear response', u2, sn * fm, tol=1e-7); tail = [w]
    elif E == 'HBM_AMP': D.eq('linear response scaled to the amplitude', u1, c * fm, tol=1e-7); D.eq('linear response scaled to the amplitude', u2, sn * fm, tol=1e-7); tail = [fm, w]
    else:
        Fc, Fs = U[N], U[N + 1]; r = D.np.sqrt(x * x + y * y)
        D.eq('load components', D.np.array([Fc, Fs]), D.np.array([fm * x / r, -fm * y / r]), tol=1e-7)
        a, b = lin(fc * Fc, fc * Fs, w); D.eq('response to those load components', u1, a, tol=1e-7); D.eq('response to those load components', u2, b, tol=1e-7)
        D.eq('zero sine part at the control', cr @ u2, 0 * A, tol=1e-7); D.eq('commanded amplitude measure', (cr @ u1) * w ** o, A, tol=1e-7); tail = [None, None, w] + ([A] if rhi else [])
    if E == 'HBM_AMP': D.eq('commanded amplitude measure', ((cr @ u1) ** 2 + (cr @ u2) ** 2) * w ** (2 * o), A * A, tol=1e-7)
    for i, t in enumerate(tail):
        if t is not None: D.eq('trailing unknowns', U[N + i], t, tol=1e-7)
    if h0: D.eq('static part', U[:n], kx if Xs is not None else D.np.zeros((n,)))
    for k, cc, ss in rows(h):
        if k in (0, 1): continue
        got = U[cc * n:(cc + 2) * n]
        if k != rhi: D.eq('no response in other harmonics', got, D.np.zeros((2 * n,))); continue
        X0 = D.copyarr(U[:N]); X0[cc * n:(cc + 2) * n] = 0; f = total(X0, w, ha)
        a, b = lin(-f[cc * n:(cc + 1) * n], -f[(cc + 1) * n:(cc + 2) * n], rhi * w)
        D.eq('superharmonic entries: linear response to the nonlinear force', got, D.np.hstack((a, b)), tol=1e-7)
    for v, k in zip((M, K, Fl), keep): D.same('inputs not modified', v, k)
    if Xs is not None: D.same('inputs not modified', Xs, kx)

@contract('C21', num=60, sym=False)
def refused(D):
    """phase controlled guesses refuse loads with sine terms"""
    n = 2; h = np.array(D.pick('h', [[1], [0, 1, 3]])); h0 = n * (h[0] == 0); M, K, ab, s, sol, lin = setup(D, n, 'default'); Fl = np.zeros(nhc(list(h)) * n); Fl[h0 + n + D.pick('where', [0, 1])] = D.real('F', nonzero=True)
    D.raises('sine loads refused', lambda: D.mod('utils.harmonic').predict_harmonic_solution(s, 1.0, Fl, h, sol, D.pick('equation', ['HBM_AMP_PHASE', 'VPRNM_AMP_PHASE']), control_amp=1.0, control_recov=np.ones(n), control_order=0, rhi=3, vib_sys_nl=s))
