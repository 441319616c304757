"""Systems and residual cases shared by the contracts of C01 and C02."""
from .spec import *

def linear_part(D, n, symmetric=False):
    M, C, K = D.real('M', (n, n)), D.real('C', (n, n)), D.real('K', (n, n))
    if symmetric:                                    # a mass matrix (mass normalisation is a quadratic form)
        for i in range(n):
            for j in range(i): M[i, j] = M[j, i]
    return M, C, K

class Sys:
    """a system with elements known through their contract only (symbolic) or with real elements (numeric)"""
    def __init__(self, D, n, Nt, tol, symmetric=False, light=False):
        self.D = D; self.n = n; self.Nt = Nt; self.tol = tol; self.bad = []
        self.M, self.C, self.K = linear_part(D, n, symmetric)
        if light: self.M = D.rat(2, 1, 1, 3).reshape(2, 2)
        self.M0, self.C0, self.K0 = map(D.copyarr, (self.M, self.C, self.K))
        vs = D.mod('vibration_system'); nf = D.mod('nlforces.nonlinear_force')
        self.sys = vs.VibrationSystem(self.M, self.K, C=self.C)
        kind = D.pick('elements', ['none', 'one', 'two', 'real'], sym=['one', 'two'] if not light else ['one'])
        self.kind = kind
        outer = self
        def record(el, h, Nt, tol):
            if not (Nt == outer.Nt and tol == outer.tol): outer.bad.append((Nt, tol))
        if kind == 'real':
            el = D.pick('real element', ['cubic', 'damper', 'jenkins'])
            Q, T_ = D.real('Q', (1, n)), D.real('T', (n, 1))
            if el == 'cubic': e = D.mod('nlforces.cubic_stiffness').CubicForce(Q, T_, D.real('kc', pos=True))
            elif el == 'damper': e = D.mod('nlforces.cubic_damping').CubicDamping(Q, T_, D.real('kc', pos=True))
            else: e = D.mod('nlforces.jenkins_element').JenkinsForce(Q, T_, D.real('kt', pos=True), D.real('Fs', pos=True))
            self.nograd = el != 'jenkins'
            e2 = D.mod('nlforces.cubic_stiffness').CubicForce(D.real('Q2', (1, n)), D.real('T2', (n, 1)), D.real('kc2', pos=True))
            self.els = [e, e2]
        else:
            self.nograd = True
            class Opaque(nf.NonlinearForce):
                def __init__(self, i): self.i = i; self.Q = D.np.eye(n); self.T = D.np.eye(n)
                def nl_force_type(self): return 0
                def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
                    record(self, h, Nt, tol)
                    L = U.shape[0]
                    F, P = outer.fun('f%d' % self.i, L, U, w)
                    return (F, P[:, :L], P[:, L]) if calc_grad else (F,)
                def force(self, X):
                    F, P = outer.fun('s%d' % self.i, n, X, None)
                    return F, P
            self.els = [Opaque(i) for i in range({'none': 0, 'one': 1, 'two': 2}[kind])]
        for e in self.els: self.sys.add_nl_force(e)
        self.sys.init_force_history()
    def fun(self, name, m, U, w):
        D = self.D
        args = D.np.hstack((U, w)) if w is not None else U
        if D.sym:
            return D.fun(name, m, args)
        # numeric stand-in: a fixed smooth map with exact partials
        rng = np.random.default_rng(sum(map(ord, name)) + 7 * m); k = len(args)
        A = rng.uniform(-1, 1, (m, k)); B = rng.uniform(-1, 1, (m, k)); c = rng.uniform(-1, 1, (m, k))
        return A @ args + B @ np.sin(args) + c @ (args ** 2), A + B * np.cos(args) + 2 * c * args
    def nl(self, U, w, h):
        r = self.D.np.zeros(U.shape)
        for e in self.els: r = r + e.aft(U, w, np.array(h), self.Nt, self.tol)[0]
        return r
    def static(self, X):
        r = self.D.np.zeros(X.shape)
        for e in self.els: r = r + e.force(X)[0]
        return r
    def balance(self, U, w, h, Fl):
        return harmonic_lin(self.D, self.M0, self.C0, self.K0, w, h, U) + self.nl(U, w, h) - Fl
    def untouched(self):
        D = self.D
        D.same('system matrices not modified', D.np.hstack((self.sys.M, self.sys.C, self.sys.K)), D.np.hstack((self.M0, self.C0, self.K0)))
        D.true('analysis settings passed to the elements', not self.bad)

def pw(D, base, x):
    return base ** x

CASES = ['hbm', 'hbm_dFl', 'base', 'epmc', 'vprnm_eqn', 'vprnm', 'amp', 'amp_phase', 'amp_phase_dA', 'vprnm_amp_phase', 'static']

def setup(D, case, exact=False):
    """(call(x, p, **kw), spec(x, p), x, p, sys, inputs): residual of unknowns x and control parameter p"""
    n = D.pick('n', [1, 2, 3], sym=[1, 2])
    H = {'hbm': [[0], [1], [0, 1], [1, 2], [0, 1, 2], [1, 3], [0, 1, 3]], 'hbm_dFl': [[1], [0, 1], [0, 1, 3], [1, 2]], 'base': [[1], [0, 1], [0, 1, 2]], 'epmc': [[1], [0, 1], [1, 3], [0, 1, 2], [0, 1, 3]], 'amp': [[1], [0, 1], [1, 3], [0, 1, 2]], 'static': [[0]]}
    H['amp_phase'] = H['amp_phase_dA'] = H['amp']; VP = [[1, 2], [0, 1, 2], [1, 3], [0, 1, 2, 3], [1, 2, 3], [0, 1, 3, 5]]
    H['vprnm_eqn'] = H['vprnm'] = H['vprnm_amp_phase'] = VP
    small = {1: {'vprnm_eqn': VP[:4], 'vprnm': VP[:2], 'vprnm_amp_phase': VP[:2]}.get(case, H[case][:4]),
             2: {'hbm': H['hbm'][:4], 'hbm_dFl': [[1], [0, 1]], 'base': H['base'], 'static': [[0]]}.get(case, VP[:2] if case.startswith('vprnm') else [[1], [0, 1]])}
    h = D.pick('h', H[case], sym=small.get(n))
    Nt = D.pick('Nt', [64, 128, 32], sym=[64]); tol = D.pick('tol', [1e-7, 1e-5], sym=[1e-5])
    S = Sys(D, n, Nt, tol, case == 'epmc', light=D.sym and case == 'vprnm_eqn' and n == 2 and not exact); sy = S.sys; ha = np.array(h); N = nhc(h); L = N * n; h0 = 1 if h[0] == 0 else 0
    Fl = D.real('Fl', (L,)); Fl0 = D.copyarr(Fl); opt = dict(Nt=Nt, aft_tol=tol)
    U = D.real('U', (L,)); hs = D.np.hstack
    split = lambda: (cat(D, [Fl0[:h0 * n], D.np.zeros((L - h0 * n,))]), cat(D, [D.np.zeros((h0 * n,)), Fl0[h0 * n:]]))
    keep = [('Fl', Fl, Fl0)]
    if case == 'static':
        Fs = Fl
        return (lambda x, p, **k: sy.static_res(x, Fs)), (lambda x, p: S.K0 @ x + S.static(x) - Fl0), U, None, S, keep
    w = D.real('w', pos=True)
    if case == 'hbm':
        return (lambda x, p, **k: sy.hbm_res(hs((x, p)), Fl, ha, **opt, **k)), (lambda x, p: S.balance(x, p, h, Fl0)), U, w, S, keep
    if case == 'hbm_dFl':
        # unknowns are U, the control parameter is the load scaling, frequency fixed
        a = D.real('f'); st, dy = split()
        return (lambda x, p, **k: sy.hbm_res_dFl(hs((x, p)), w, Fl, ha, **opt, **k)), (lambda x, p: S.balance(x, w, h, st + p * dy)), U, a, S, keep
    if case == 'base':
        fl = D.pick('base', {1: [[False]], 2: [[True, False], [False, True]], 3: [[True, False, False], [False, True, False], [True, False, True], [False, False, True]]}[n], sym={1: [[False]], 2: [[True, False], [False, True]]}.get(n))
        fl = np.array(fl); free = [i for i in range(n) if not fl[i]]; bs = [i for i in range(n) if fl[i]]
        Ub = D.real('Ub', (N * len(bs),)); keep[:] = [('Ub', Ub, D.copyarr(Ub))]; Ub0 = D.copyarr(Ub)
        def spec(x, p):
            full = D.np.zeros((L,))
            for c in range(N):
                for k, i in enumerate(free): full[c * n + i] = x[c * len(free) + k]
                for k, i in enumerate(bs): full[c * n + i] = Ub0[c * len(bs) + k]
            R = S.balance(full, p, h, D.np.zeros((L,)))
            return cat(D, [[R[c * n + i] for c in range(N) for i in free]])
        return (lambda x, p, **k: sy.hbm_base_res(hs((x, p)), Ub, fl, ha, **opt)), spec, U[:N * len(free)], w, S, keep
    if case == 'epmc':
        xi = D.real('xi'); la = D.real('la', lo=-1, hi=0.5) if not D.sym else D.real('la'); st, dy = split()
        def spec(x, p):
            u, wx, z = x[:L], x[L], x[L + 1]; A = 10 ** p if not D.sym else D.np.power(10, p)
            us = cat(D, [u[:h0 * n], A * u[h0 * n:]])
            lin = harmonic_lin(D, S.M0, S.C0 - z * S.M0, S.K0, wx, h, us)
            c, s = u[h0 * n:(h0 + 1) * n], u[(h0 + 1) * n:(h0 + 2) * n]
            return cat(D, [lin + S.nl(us, wx, h) - st, [c @ S.M0 @ c + s @ S.M0 @ s - 1], [dy @ u]])
        x = hs((U, w, xi))
        return (lambda x, p, **k: sy.epmc_res(hs((x, p)), Fl, ha, **opt, **k)), spec, x, la, S, keep
    recov = None; order = 0
    def vp_setup():
        rhi = D.pick('rhi', [k for k in h if k > 1], sym=[h[-1]]); flt = D.pick('filter', [None, 'mode'])
        f = None if flt is None else D.rat(1, -2) if D.sym and case == 'vprnm_eqn' and n == 2 and not exact else D.real('phi', (n,))
        if f is not None: keep.append(('filter', f, D.copyarr(f)))
        if D.sym and case != 'vprnm_eqn' and n == 2:
            # the callee is replaced by its own contract (a value with exact partial derivatives in U and w)
            def eqn(U, w, h, rhi, Nt=128, aft_tol=1e-7, calc_grad=True, superharmonic_filter=None):
                v, P = D.fun('phase' + str(rhi) + str(superharmonic_filter is f), 1, hs((U[:L], w)))
                return (v[0], P[0]) if calc_grad else (v[0],)
            D.patch(sy, 'vprnm_single_eqn', eqn)
        return rhi, f
    def vp(u, wx, rhi, f):
        if D.sym and case != 'vprnm_eqn' and n == 2: return sy.vprnm_single_eqn(u, wx, ha, rhi, Nt, tol, False, f)[0]
        r = [b for a, b, c in rows(h) if a == rhi][0]
        lo = cat(D, [u[:r * n], D.np.zeros((L - r * n,))])
        F = -S.nl(lo, wx, h)[r * n:(r + 2) * n]; X = u[r * n:(r + 2) * n]
        if f is not None:
            F = cat(D, [[f @ F[:n]], [f @ F[n:]]]); X = cat(D, [[f @ (S.M0 @ X[:n])], [f @ (S.M0 @ X[n:])]])
        ff, xx = F @ F, X @ X
        D.assume((ff > 0) if D.sym else (ff > 1e-2)); D.assume((xx > 0) if D.sym else (xx > 1e-2))
        return F @ X / (D.np.sqrt(xx) * D.np.sqrt(ff))
    if case == 'vprnm_eqn':
        rhi, f = vp_setup()
        def call(x, p, **k):
            r = sy.vprnm_single_eqn(x, p, ha, rhi, **opt, superharmonic_filter=f, **k)
            return (r[0], r[1][:-1], r[1][-1]) if len(r) > 1 else r
        return call, (lambda x, p: vp(x, p, rhi, f)), U, w, S, keep
    if case == 'vprnm':
        rhi, f = vp_setup(); a = D.real('f'); cs = D.real('scale', nonzero=True) if not D.sym else D.real('scale'); st, dy = split()
        def spec(x, p): return cat(D, [S.balance(x[:L], x[L], h, st + p * dy), [cs * vp(x[:L], x[L], rhi, f)]])
        return (lambda x, p, **k: sy.vprnm_res(hs((x, p)), ha, rhi, Fl, **opt, superharmonic_filter=f, constraint_scale=cs, **k)), spec, hs((U, w)), a, S, keep
    recov = D.real('recov', (n,)); keep.append(('recov', recov, D.copyarr(recov))); order = D.pick('order', [0, 1, 2], sym=[0, 1, 2] if nhc(h) < 4 else [2]); amp = D.real('amp')
    c1, s1 = (lambda x: x[h0 * n:(h0 + 1) * n]), (lambda x: x[(h0 + 1) * n:(h0 + 2) * n])
    wp = lambda wx, k: wx ** k if k else 1
    if case == 'amp':
        a = D.real('f'); st, dy = split()
        def spec(x, p): return cat(D, [S.balance(x[:L], p, h, st + x[L] * dy), [wp(p, 2 * order) * ((recov @ c1(x)) ** 2 + (recov @ s1(x)) ** 2) - amp ** 2]])
        return (lambda x, p, **k: sy.hbm_amp_control_res(hs((x, p)), Fl, ha, recov, amp, order, **opt, **k)), spec, hs((U, a)), w, S, keep
    fc, fs = D.real('fc'), D.real('fs')
    def load(x):
        F1 = Fl0[h0 * n:(h0 + 1) * n]
        return cat(D, [Fl0[:h0 * n], x[L] * F1, x[L + 1] * F1, D.np.zeros((L - (h0 + 2) * n,))])
    def ap(x, wx, A): return cat(D, [S.balance(x[:L], wx, h, load(x)), [wp(wx, order) * (recov @ c1(x)) - A, wp(wx, order) * (recov @ s1(x))]])
    if case == 'amp_phase':
        return (lambda x, p, **k: sy.hbm_amp_phase_control_res(hs((x, p)), Fl, ha, recov, amp, order, **opt, **k)), (lambda x, p: ap(x, p, amp)), hs((U, fc, fs)), w, S, keep
    if case == 'amp_phase_dA':
        return (lambda x, p, **k: sy.hbm_amp_phase_control_dA_res(hs((x, p)), Fl, ha, recov, w, order, **opt, **k)), (lambda x, p: ap(x, w, p)), hs((U, fc, fs)), amp, S, keep
    if case == 'vprnm_amp_phase':
        rhi, f = vp_setup(); cs = D.real('scale', nonzero=True) if not D.sym else D.real('scale')
        def spec(x, p): return cat(D, [ap(x, x[L + 2], p), [cs * vp(x[:L], x[L + 2], rhi, f)]])
        return (lambda x, p, **k: sy.vprnm_amp_phase_res(hs((x, p)), Fl, ha, rhi, recov, order, **opt, superharmonic_filter=f, constraint_scale=cs, **k)), spec, hs((U, fc, fs, w)), amp, S, keep

def cat(D, parts):
    ps = []
    for p in parts:
        if isinstance(p, list): p = D.np.hstack(p) if len(p) > 1 else D.np.array(p)
        ps.append(p)
    return D.np.hstack(ps)

