import types
from pyded.contracts_api import contract
from .friction import *
from . import c11, g26

def post(D, sy, els, laws, U, w, h, Nt, **k):
    """reported quantities of every element: motion of its own degrees of freedom, force history of its law, harmonics of
    that history; mapped and summed they are the system's harmonic force"""
    ha = np.array(h); U0 = D.copyarr(U)
    r = D.mod('postprocess.harmonic').local_harmonic_forces(sy, U, w, ha, Nt=Nt, **k)
    D.same('solution not modified', U, U0); D.true('one entry per element', len(r) == len(els))
    tot = D.np.zeros(U0.shape)
    for (Uh, ut, Fh, ft), e, law in zip(r, els, laws):
        Ul, u = motions(D, h, e.Q, U0, Nt); v = w * synth(D, h, Ul, Nt, 1)
        D.eq('local displacement harmonics', Uh, Ul); D.eq('local displacement history', ut, u)
        D.eq('local force harmonics', Fh, coeffs(D, h, ft)); N = e.T.shape[0]; F = D.np.zeros(U0.shape)
        for c in range(nhc(h)): F[c * N:(c + 1) * N] = e.T @ Fh[c]
        D.eq('harmonic force of the element', F, e.aft(U0, w, ha, Nt, 1e-7)[0], tol=1e-8)
        if law is not None: D.eq('local force history', ft, law(u, v, Ul), tol=1e-8)
        tot = tot + F
    D.eq('harmonic nonlinear force of the system', tot, sy.total_aft(U0, w, ha, Nt=Nt)[0], tol=1e-8)

def system(D, N, els):
    sy = D.mod('vibration_system').VibrationSystem(D.np.eye(N), D.np.eye(N))
    for e in els: sy.add_nl_force(e)
    return sy

@contract('C26', num=100, budget=90, maxcfg=40, paths=1500)
def systems(D):
    """systems of memoryless and hysteretic elements with any local law, hysteresis marched by the analysis' own rule"""
    nf = D.mod('nlforces.nonlinear_force'); h = D.pick('h', HL_ALL[:12], sym=[[0], [1], [0, 1], [0, 2]]); Nt = D.pick('Nt', [x for x in (4, 8, 16, 32) if x > 2 * max(h) + 1], sym=nts(h)[:1])
    N = D.pick('N', [1, 2, 3], sym=[1, 2]); kinds = D.pick('elements', [[], ['i'], ['h'], ['i', 'h'], ['h', 'i', 'h'], ['s', 'h'], ['i', 's']]); els, laws = [], []; ha = np.array(h); w = D.real('w', pos=True); log = []
    for j, kd in enumerate(kinds):
        n = D.pick('n%d' % j, [1, 2, 3], sym=[1 + j % 2]); Q, T_ = D.real('Q%d' % j, (n, N)), D.real('T%d' % j, (N, n)); k = D.real('k%d' % j)
        if kd == 'i':
            class E(nf.InstantaneousForce):
                def local_force_history(self, u, v): return self.k * u * u + u * v * v + 2 * v, 2 * self.k * u + v * v, 2 * u * v + 2
            law = lambda u, v, Ul, k=k: k * u * u + u * v * v + 2 * v
        else:
            class E(nf.HystereticForce):
                """two cycles of a linear recursion started from the given position (or the element's own start u0)"""
                def nl_force_type(self): return 1
                def local_force_history(self, ut, vt, hh, cst, u0, max_repeats=2, atol=1e-10, rtol=1e-10):
                    ft = D.np.zeros(ut.shape); p, f = u0, 0 * u0; c0 = D.np.zeros((ut.shape[1], ut.shape[1], cst.shape[1]))
                    for r in range(max_repeats):
                        for i in range(len(ut)): f = self.k * (ut[i] - p) + f / 2 + vt[i] * 0; p = ut[i]; ft[i] = f
                    return ft, D.np.zeros((len(ut),) + c0.shape), D.np.zeros((len(ut),) + c0.shape)
            def law(u, v, Ul, k=k, s=None):
                ft = D.np.zeros(u.shape); p = Ul[0] if s is None else s; f = 0 * p
                for r in range(2):
                    for i in range(len(u)): f = k * (u[i] - p) + f / 2; p = u[i]; ft[i] = f
                return ft
            if kd == 's':
                class E(E):
                    """harmonic analysis starts at the element's own position u0"""
                    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
                        Ul, u = motions(D, list(h), self.Q, U, Nt); ft = self.local_force_history(u, 0 * u, h, synth(D, list(h), D.np.eye(nhc(h)), Nt, 0), self.u0)[0]
                        Z = D.np.zeros((len(U), len(U))); return global_force(D, list(h), self.T, ft), Z, D.np.zeros((len(U),))
        e = E(Q, T_); e.k = k
        if kd == 's':
            e.u0 = D.real('u0%d' % j, (n,)); law = lambda u, v, Ul, k=k, s=e.u0, g=law: g(u, v, Ul, k, s)
        els.append(e); laws.append(law)
    U = D.real('U', (nhc(h) * N,)); k = {} if D.pick('aft_tol', ['default', 'given'], sym=['default']) == 'default' else dict(aft_tol=1e-3)
    post(D, system(D, N, els), els, laws, U, w, h, Nt, **k)

ELS = ['cubic', 'damper', 'poly', 'unilateral', 'backbone', 'jenkins', 'vjenkins', 'iwan', 'viwan', 'dry2', 'dry3']
def element(D, kd, j, N):
    X = lambda a, *s, **k: D.real(a + str(j), *s, **k)
    nl = {'poly': 2, 'dry2': 2, 'dry3': 3}.get(kd, 1); Q, T_ = X('Q', (nl, N)), X('T', (N, nl)); kt, Fs = X('kt', pos=True), X('Fs', pos=True); m = lambda s: D.mod('nlforces.' + s); I = np.eye
    if kd == 'cubic': return m('cubic_stiffness').CubicForce(Q, T_, kt), lambda u, v, Ul: kt * u * u * u
    if kd == 'damper': return m('cubic_damping').CubicDamping(Q, T_, kt), lambda u, v, Ul: kt * v * v * v
    if kd == 'unilateral': return m('unilateral_spring').UnilateralSpring(Q, T_, kt, delta=Fs), lambda u, v, Ul: D.np.where(u > Fs, kt * (u - Fs), 0 * u)
    if kd == 'backbone': return m('iwan_bb_conserve').ConservativeIwanBB(Q, T_, kt, Fs, -0.3, 0.5), None
    if kd == 'poly':
        E = X('E', (2, 3))
        def law(u, v, Ul):
            r = D.np.zeros(u.shape)
            for i in range(len(u)): r[i] = E @ D.np.array([u[i, 0] * u[i, 1], u[i, 0] * u[i, 0] * u[i, 0], u[i, 1] * u[i, 1]])
            return r
        return m('general_poly_stiffness').GenPolyForce(Q, T_, E, np.array([[1, 1], [3, 0], [0, 2]])), law
    if kd in ('jenkins', 'vjenkins'):
        mm, c = ('jenkins_element', 'JenkinsForce') if kd == 'jenkins' else ('vector_jenkins', 'VectorJenkins'); e = getattr(m(mm), c)(Q, T_, kt, Fs); e.init_history(); return e, None
    if kd in ('iwan', 'viwan'):
        mm, c = ('iwan4_element', 'Iwan4Force') if kd == 'iwan' else ('vector_iwan4', 'VectorIwan4'); return getattr(m(mm), c)(Q, T_, kt, Fs, -0.3, 0.5, Nsliders=D.pick('sliders%d' % j, [1, 4, 20], sym=[1])), None
    dim = int(kd[-1]); mu = X('mu', lo=0, hi=1); st = D.pick('start%d' % j, ['default', 'none', 'number', 'array', 'set']); kw = {}; g = X('gap')
    if st == 'none': kw = dict(u0=None)
    if st == 'number': kw = dict(u0=X('u0'))
    if st == 'array': kw = dict(u0=X('u0', (dim,)))
    e = getattr(D.mod('jax.nlforces.elastic_dry_fric_%dd' % dim), 'ElasticDryFriction%dD' % dim)(Q, T_, kt, Fs, mu, meso_gap=g, **kw)
    if st == 'set': e.set_aft_initialize(X('X0', (N,)))
    return e, None

@contract('C26', num=120, budget=150, maxcfg=40, paths=1500)
def elements(D):
    """the package's own elements, with every slider start, alone and mixed; also after static use"""
    if D.sym:
        kinds = D.pick('elements', None, sym=[['cubic', 'poly'], ['damper', 'cubic'], ['jenkins'], ['dry2'], ['cubic', 'jenkins'], ['unilateral']])
        h = D.pick('h', None, sym=[[0]] if kinds == ['dry2'] else [[0], [1]] if 'jenkins' in kinds else [[1], [0, 1]]); Nt = D.pick('Nt', None, sym=[2] if 'dry2' in kinds else [4]); N = D.pick('N', None, sym=[1])
    else:
        kinds = [D.pick('element%d' % k, ELS) for k in range(D.pick('count', [1, 1, 2, 3]))]; N = D.pick('N', [1, 2, 3]); jx = any(k.startswith('dry') for k in kinds)
        h = D.pick('h', [[0], [0, 1], [1, 3]] if jx else HL_ALL[:14]); Nt = D.pick('Nt', [8] if jx else [x for x in (8, 16, 32, 128) if x > 2 * max(h) + 1])
    w = D.real('w', pos=True); made = [element(D, k, j, N) for j, k in enumerate(kinds)]; els = [e for e, l in made]; U = D.real('U', (nhc(h) * N,), draw=plateau_draw)
    sy = system(D, N, els)
    if D.pick('earlier', ['nothing', 'static', 'prestress'], sym=['nothing']) != 'nothing':
        sy.init_force_history()
        if 'iwan' not in kinds and 'viwan' not in kinds:
            sy.update_force_history(D.real('Xs', (N,)))
            if D.picks['earlier'] == 'prestress':
                sy.set_prestress_mu()
                if D.pick('restored', [0, 1]): sy.reset_real_mu()
    post(D, sy, els, [l for e, l in made], U, w, h, Nt)

@contract('C26', num=25, sym=False)
def rough(D):
    """rough contact: started at the element's own slider position"""
    mat, mu, y, gaps, wts, model, mg, kw, s, ref, pre = c11.harm(D); h = D.pick('h', [[0, 1], [0]]); N = D.pick('N', [3, 2]); Q = D.real('Q', (3, N)); T_ = D.real('T', (N, 3)); U = D.real('U', (nhc(h) * N,)) * y * 2
    el = c11.make(D, mat, gaps, wts, model, Q, T_, meso_gap=mg, **kw); c11.switch(el, pre); els = [el]
    if c11.st_through(D): el.set_aft_initialize(D.real('X0', (N,)) * y)
    if D.pick('with', ['alone', 'cubic']) == 'cubic': els.append(D.mod('nlforces.cubic_stiffness').CubicForce(Q[:1], T_[:, :1], 1.0))
    post(D, system(D, N, els), els, [None] * len(els), U, D.real('w', pos=True), h, 8)

@contract('C26', num=60, sym=False)
def tolerance(D):
    """first cycles that end almost without force converge as in the harmonic analysis, whatever tolerance is given"""
    from scipy.optimize import brentq
    kt, Fs = D.real('kt', pos=True), D.real('lim', lo=0.05, hi=0.5); Fs = Fs * kt; J = D.mod('nlforces.jenkins_element').JenkinsForce(np.eye(1), np.eye(1), kt, Fs); h = [1]; off = D.real('level', lo=-9.5, hi=-3); Nt = 64
    f = lambda p: march(D, synth(D, h, np.array([[np.cos(p)], [np.sin(p)]]), Nt, 0)[:, 0], 0.0, kt, Fs, 1)[-1] - 10 ** off
    g = np.linspace(0, 6.2, 60); v = [f(x) for x in g]; k = [i for i in range(59) if v[i] * v[i + 1] < 0]; D.assume(len(k) > 0); i = k[D.pick('crossing', [0, 1, 2]) % len(k)]
    p = brentq(f, g[i], g[i + 1], xtol=1e-14); tol = D.pick('aft_tol', [None, 1e-7, 1e-3, 1e-1]); J.init_history()
    post(D, system(D, 1, [J]), [J], [None], np.array([np.cos(p), np.sin(p)]), 1.0, h, Nt, **({} if tol is None else dict(aft_tol=tol)))
