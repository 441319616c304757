"""No hidden memory: the answer of an object that has already been used (other arguments, settings changed in between) is that of an
object built freshly and brought to the same state.  Arguments come from small pools so that parts of them repeat between calls."""
import warnings
from pyded.contracts_api import contract
from .spec import *
from .resid import cat

def flat(r):
    if isinstance(r, (tuple, list)): return [y for x in r for y in flat(x)]
    return [] if r is None else [r]

def compare(D, lab, a, b, keep=None):
    a, b = flat(a), flat(b); D.true(lab + ': same number of results', len(a) == len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if keep is None or keep(k): D.eq(lab, x if D.sym else np.asarray(x, float), y if D.sym else np.asarray(y, float))

# ---------------------------------------------------------------- elements
def element(D, kind, n, P):
    Q, T_ = P['Q'], P['T']; v = D.mod('nlforces.' + dict(cubic='cubic_stiffness', quintic='quintic_stiffness', damping='cubic_damping', poly='general_poly_stiffness', spring='unilateral_spring', backbone='iwan_bb_conserve', jenkins='jenkins_element', vjenkins='vector_jenkins', iwan='iwan4_element', viwan='vector_iwan4')[kind]) if kind not in ('dry2', 'dry3', 'jjenkins', 'jvjenkins', 'rough', 'roughmif') else None
    kt, Fs, mu = P['kt'], P['Fs'], P['mu']; Q1, T1 = Q[:1], T_[:, :1]
    if kind == 'cubic': return v.CubicForce(Q1, T1, kt)
    if kind == 'quintic': return v.QuinticForce(Q1, T1, kt)
    if kind == 'damping': return v.CubicDamping(Q1, T1, kt)
    if kind == 'poly': return v.GenPolyForce(Q[:2], T_[:, :2], np.array([[kt, Fs], [mu, 1.0]]), np.array([[3, 0], [1, 2]]))
    if kind == 'spring': return v.UnilateralSpring(Q1, T1, kt, Npreload=Fs, delta=0.1)
    if kind == 'backbone': return v.ConservativeIwanBB(Q1, T1, kt, Fs, -0.3, 0.5)
    if kind == 'jenkins': return v.JenkinsForce(Q1, T1, kt, Fs)
    if kind == 'vjenkins': return v.VectorJenkins(Q1, T1, kt, Fs)
    if kind == 'iwan': return v.Iwan4Force(Q1, T1, kt, Fs, -0.3, 0.5, Nsliders=6)
    if kind == 'viwan': return v.VectorIwan4(Q1, T1, kt, Fs, -0.3, 0.5, Nsliders=6)
    if kind == 'jjenkins': return D.mod('jax.nlforces.jenkins_element').JenkinsForce(Q1, T1, kt, Fs, u0=P['u0'])
    if kind == 'jvjenkins': return D.mod('jax.nlforces.vector_jenkins').VectorJenkins(Q1, T1, kt, Fs, u0=P['u0'])
    if kind == 'dry2': return D.mod('jax.nlforces.elastic_dry_fric_2d').ElasticDryFriction2D(Q[:2], T_[:, :2], kt, 2 * kt, mu, u0=P['u0'])
    if kind == 'dry3': return D.mod('jax.nlforces.elastic_dry_fric_3d').ElasticDryFriction3D(Q, T_, kt, 2 * kt, mu, u0=P['u0'])
    return D.mod('jax.nlforces.roughcontact.rough_contact').RoughContactFriction(Q, T_, 2.0, 0.3, 1.0, 0.2, 0.05, mu, gaps=np.array([0.0, 0.1]), gap_weights=np.array([1.0, 2.0]), tangent_model='MIF' if kind == 'roughmif' else 'TAN', N_radial_quad=5)

def par(D, n): return dict(Q=D.real('Q', (3, n)), T=D.real('T', (n, 3)), kt=D.real('kt', pos=True), Fs=D.real('Fs', pos=True), mu=D.real('mu', pos=True), u0=D.pick('u0', [0, None]))
SWITCH = ('jenkins', 'vjenkins', 'dry2', 'dry3', 'rough', 'roughmif')
START = ('dry2', 'dry3', 'rough', 'roughmif')
HIST = ('jenkins', 'vjenkins', 'iwan', 'viwan', 'dry2', 'dry3', 'rough', 'roughmif')

def elements(D, kinds, lengths=(2, 3, 4)):
    """harmonic analyses, static evaluations and settings in any order on one element"""
    kind = D.pick('kind', kinds); n = D.pick('n', [1, 2]); n = max(n, 1); P = par(D, n); P2 = dict(P, kt=P['kt'] * 3, Fs=P['Fs'] * 0.2, mu=P['mu'] * 0.1, Q=P['Q'] * 2.0, T=P['T'] * 0.5); el = element(D, kind, n, P)
    if kind in ('rough', 'roughmif') : P['u0'] = 0
    hs = [np.array([0, 1]), np.array([0, 2]), np.array([1, 3])]; Us = [D.real('U%d' % k, (12,)) for k in range(2)]; ws = [D.real('w%d' % k, pos=True) for k in range(2)]; Xs = [D.real('X%d' % k, (n,)) for k in range(2)]
    state = []; phase = D.pick('phase', ['harmonic', 'static'] if kind not in ('jjenkins', 'jvjenkins') else ['harmonic'])
    def act(e, o, k):
        X = Xs[k].copy()
        if o == 'p': e.set_prestress_mu()
        if o == 'r': e.reset_real_mu()
        if o == 'a': e.set_aft_initialize(X)
        if o == 'i': e.init_history()
        if o == 'u': e.force(X, update_hist=True)
    ops = 'q' + ('pr' if kind in SWITCH else '') + ('a' if kind in START and phase == 'harmonic' and P['u0'] is not None else '') + ('uui' if kind in HIST and phase == 'static' else '')
    if phase == 'static' and kind in HIST: el.init_history(); state.append(('i', 0))
    for j in range(D.pick('length', list(lengths))):
        o = D.pick('op%d' % j, ['q'] + list(ops)); k = D.pick('which%d' % j, [0, 1])
        if o != 'q': act(el, o, k); state.append((o, k)); continue
        ref = element(D, kind, n, P)
        for s in state: act(ref, *s)
        if phase == 'static': g = lambda e: (e.force(Xs[k].copy(), update_hist=False) if kind in HIST else e.force(Xs[k].copy()))
        else:
            h = hs[D.pick('h%d' % j, [0, 1, 2])]; Nt = D.pick('Nt%d' % j, [8, 16]); w = ws[D.pick('w%d' % j, [0, 1])]; kw = {} if kind in ('jenkins', 'vjenkins', 'iwan', 'viwan', 'jjenkins', 'jvjenkins') else dict(calc_grad=D.pick('grad%d' % j, [True, False]))
            U = Us[k][:nhc(h) * n]; g = lambda e: e.aft(U.copy(), w, h.copy(), Nt=Nt, **kw)
        want = g(ref); element(D, kind, n, P2)        # another element of the same kind must not matter
        compare(D, '%s after earlier use' % phase, g(el), want)

@contract('C05', num=150, sym=False, name='used_elements')
def c05(D): elements(D, ['cubic', 'quintic', 'damping', 'poly', 'spring', 'backbone'])
@contract('C06', num=150, sym=False, name='used_elements')
def c06(D): elements(D, ['cubic', 'quintic', 'damping', 'poly', 'spring', 'backbone', 'jenkins', 'iwan'])
@contract('C07', num=120, sym=False, name='used_elements')
def c07(D): elements(D, ['jenkins', 'vjenkins', 'jjenkins', 'jvjenkins'])
@contract('C08', num=60, sym=False, name='used_elements')
def c08(D): elements(D, ['iwan', 'viwan'])
@contract('C09', num=80, sym=False, name='used_elements')
def c09(D): elements(D, ['vjenkins', 'viwan', 'jvjenkins'])
@contract('C10', num=80, sym=False, name='used_elements')
def c10(D): elements(D, ['dry2', 'dry3'])
@contract('C11', num=24, sym=False, name='used_elements')
def c11(D): elements(D, ['rough', 'roughmif'])

# ---------------------------------------------------------------- systems
INST = ['cubic', 'quintic', 'damping', 'poly', 'spring']
def systems(D, methods, state='CcAprai', keep=None, kinds=None, num_ops=(2, 3, 5), hold=None):
    """queries and state changes in any order on one system"""
    n = D.pick('n', [1, 2], sym=[1]); P = par(D, n) if not D.sym else dict(Q=D.real('Q', (1, n)), T=D.real('T', (n, 1)), kt=D.real('kt'), Fs=D.real('Fs'), mu=D.real('mu'), u0=0)
    ks = [D.pick('element%d' % j, kinds or INST + ['dry2', 'dry3'], sym=['cubic']) for j in range(D.pick('elements', [0, 1, 2], sym=[1]))]
    M, K = D.real('M', (n, n)), D.real('K', (n, n))
    if not D.sym: M = M @ M.T + 0.5 * np.eye(n); K = K @ K.T + 0.5 * np.eye(n)
    elif n > 1: raise T.Unsupported('size')
    Cs = [D.real('C%d' % k, (n, n)) for k in range(2)]; abs_ = [D.real('ab%d' % k, (2,), pos=True) for k in range(2)]; C0 = D.real('Cs', (n, n))
    if 'shoot' in methods: P['T'] = P['Q'].T.copy(); Cs = [c @ c.T for c in Cs]; C0 = C0 @ C0.T      # bounded responses
    prop = 'frf' in methods or 'base' in methods
    hs = [np.array([0, 1, 3]), np.array([0, 2, 3]), np.array([1, 3])] if not D.sym else [np.array([1])]
    Us = [D.real('U%d' % k, (7 * n,)) for k in range(2)]; Xs = [D.real('X%d' % k, (n,)) for k in range(2)]; ws = [D.real('w%d' % k, pos=True) for k in range(2)]; Fs = [D.real('F%d' % k, (7 * n,)) for k in range(2)]; recov = D.real('recov', (n,)); z = D.real('z', pos=True)
    def build():
        s = D.mod('vibration_system').VibrationSystem(D.copyarr(M), D.copyarr(K), **(dict(ab=[0.1, 0.2]) if prop else dict(C=D.copyarr(C0))))
        for k in ks: s.add_nl_force(element(D, k, n, P))
        return s
    def act(s, o, k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if o == 'C': s.set_new_C(C=D.copyarr(Cs[k]))
            if o == 'c': s.set_new_C(ab=[abs_[k][0], abs_[k][1]])
            if o == 'A': s.add_nl_force(element(D, ['cubic', 'quintic'][k], n, P))
            if o == 'p': s.set_prestress_mu()
            if o == 'r': s.reset_real_mu()
            if o == 'a' and P['u0'] is not None: s.set_aft_initialize(D.copyarr(Xs[k]))
            if o == 'i': s.init_force_history()
            if o == 'M': s.M = D.copyarr(M) * [2, 3][k]
            if o == 'K': s.K = D.copyarr(K) * [2, 3][k]
    s = build(); done = []
    for j in range(D.pick('length', list(num_ops), sym=[3])):
        o = D.pick('op%d' % j, ['q', 'q'] + list(state), sym=['q'] if j != 1 else ['C', 'c', 'A', 'q']); k = D.pick('which%d' % j, [0, 1], sym=[0])
        if o != 'q': act(s, o, k); done.append((o, k)); continue
        m = D.pick('m%d' % j, methods, sym=[x for x in methods if x not in ('frf', 'shoot', 'epmc', 'base')][:3]) if j == 0 or not D.sym else m
        if hold and j: m = [m, D.pick('m%d' % j, methods)][0]
        h = hs[D.pick('h%d' % j, list(range(len(hs))))]; Nt = D.pick('Nt%d' % j, [8, 16], sym=[4]); w = ws[D.pick('w%d' % j, [0, 1], sym=[0])]; g = D.pick('grad%d' % j, [True, False], sym=[True]); L = nhc(h) * n; U, F = Us[k][:L], Fs[D.pick('F%d' % j, [0, 1], sym=[0])][:L]; order = D.pick('order%d' % j, [0, 1, 2], sym=[1]); kw = dict(Nt=Nt, calc_grad=g)
        def q(s):
            u, f, hh = D.copyarr(U), D.copyarr(F), h.copy()
            if m == 'hbm': return s.hbm_res(cat(D, [u, [w]]), f, hh, **kw)
            if m == 'dFl': return s.hbm_res_dFl(cat(D, [u, [z]]), w, f, hh, **kw)
            if m == 'epmc': return s.epmc_res(cat(D, [u, [w, z, z / 4]]), f, hh, **kw)
            if m == 'amp': return s.hbm_amp_control_res(cat(D, [u, [z, w]]), f, hh, D.copyarr(recov), 0.7, order, **kw)
            if m == 'phase': return s.hbm_amp_phase_control_res(cat(D, [u, [z, 0.3, w]]), f, hh, D.copyarr(recov), 0.7, order, **kw)
            if m == 'vprnm': return s.vprnm_single_eqn(u, w, hh, 3, **kw)
            if m == 'vprnm_res': return s.vprnm_res(cat(D, [u, [w, z]]), hh, 3, f, **kw)
            if m == 'aft': return s.total_aft(u, w, hh, **kw)
            if m == 'static': return s.static_res(D.copyarr(Xs[k]), f[:n])
            if m == 'frf': return s.linear_frf(np.array([w, z]), f[:n], D.mod('solvers').NonlinearSolver(), neigs=order + 1)
            if m == 'base': return s.hbm_base_res(cat(D, [u[:nhc(h) * (n - 1)], [w]]), f[:nhc(h)], np.arange(n) == 0, hh, Nt=Nt)
            if m == 'shoot': return s.shooting_res(cat(D, [0.3 * u[:2 * n], [w + 2]]), cat(D, [f[:n], f[n:2 * n]]) if L >= 2 * n else f, Nt=Nt)
        ref = build()
        for d in done: act(ref, *d)
        want = q(ref)
        if not D.sym: act(build(), 'C', k); act(build(), 'A', k); D.mod('vibration_system').VibrationSystem(M * 3, K * 2, ab=[0.5, 0.5])      # other systems must not matter
        compare(D, m + ' after earlier use', q(s), want, keep)

@contract('C01', num=200, budget=20, maxcfg=12, name='used_systems')
def c01(D): systems(D, ['hbm', 'dFl', 'epmc', 'amp', 'phase', 'vprnm', 'vprnm_res', 'static'], keep=lambda k: k >= 1)
@contract('C02', num=200, budget=20, maxcfg=12, name='used_systems')
def c02(D): systems(D, ['hbm', 'dFl', 'epmc', 'amp', 'phase', 'vprnm', 'vprnm_res', 'static'], keep=lambda k: k == 0)
@contract('C22', num=300, budget=20, maxcfg=12, name='used_systems')
def c22(D): systems(D, ['hbm', 'static', 'aft', 'dFl'], num_ops=(3, 5, 8))
@contract('C20', num=80, sym=False, name='used_systems')
def c20(D): systems(D, ['frf'], state='ccA', kinds=INST)
@contract('C24', num=25, sym=False, name='used_systems')
def c24(D): systems(D, ['shoot'], state='CcA', kinds=['cubic', 'quintic', 'spring'])

# ---------------------------------------------------------------- functions
@contract('C04', num=200, sym=False, name='used_function')
def stiffness(D):
    """matrices changed in place between calls, arguments from pools"""
    n = D.pick('n', [1, 2, 3]); A = [D.real(x, (n, n)) for x in ('M', 'C', 'K')]; hu = D.mod('utils.harmonic'); ws = [D.real('w%d' % k, pos=True) for k in range(2)]; hs = [np.array([0, 1, 3]), np.array([1, 3]), np.array([0, 1, 2])]
    for j in range(D.pick('length', [2, 4])):
        w = ws[D.pick('w%d' % j, [0, 1])]; h = hs[D.pick('h%d' % j, [0, 1, 2])]; c = D.pick('change%d' % j, [0, 1, 2, None]); U = D.real('U', (nhc(h) * n,))
        if c is not None: A[c] *= 1.5
        r = hu.harmonic_stiffness(A[0], A[1], A[2], w, h, calc_grad=D.pick('grad%d' % j, [True, False])); D.eq('stiffness after earlier use', r[0] @ U, harmonic_lin(D, A[0], A[1], A[2], w, h, U))

@contract('C03', num=150, sym=False, name='used_functions')
def fourier(D):
    hu = D.mod(D.pick('module', ['utils.harmonic', 'jax.harmonic_utils'])); hs = [(0, 1, 3), (1, 3), (0, 1, 2)]; conv = tuple if 'jax' in hu.__name__ else (lambda h: np.array(h)); nd = D.pick('columns', [1, 2])
    X = [D.real('X%d' % k, (7, nd)) for k in range(2)]; x = [D.real('x%d' % k, (16, nd)) for k in range(2)]
    for j in range(D.pick('length', [2, 4])):
        h = hs[D.pick('h%d' % j, [0, 1, 2])]; Nt = D.pick('Nt%d' % j, [8, 16]); k = D.pick('which%d' % j, [0, 1]); order = D.pick('order%d' % j, [0, 1, 2])
        if D.pick('change%d' % j, [True, False]): X[k] *= 1.5; x[k] += 0.5
        D.eq('synthesis after earlier use', np.asarray(hu.time_series_deriv(Nt, conv(h), X[k][:nhc(h)], order)), synth(D, h, X[k][:nhc(h)], Nt, order)); D.eq('analysis after earlier use', np.asarray(hu.get_fourier_coeff(conv(h), x[k][:Nt])), coeffs(D, h, x[k][:Nt]))

# ---------------------------------------------------------------- solvers and continuation
def problem(D, k, c): A = np.array([[2.0, 0.5], [-0.3, 1.5]]) * (1 + k); return lambda X, calc_grad=True: (A @ X + 0.2 * X ** 3 - c, A + np.diag(0.6 * X ** 2))
@contract('C14', num=40, sym=False, name='used_solver')
def nsolve(D):
    js = D.mod('jax.solvers'); cfg = dict(max_steps=D.pick('steps', [3, 20]), xtol=1e-10, rtol=1e-10, etol=None, verbose=-1, reform_freq=D.pick('reform', [1, 3]), line_search_iters=D.pick('line', [0, 2])); mk = lambda: js.NonlinearSolverOMP(config=dict(cfg))
    s = mk(); cs = [D.real('c%d' % k, (2,)) for k in range(2)]; xs = [D.real('x%d' % k, (2,)) for k in range(2)]
    for j in range(D.pick('length', [2, 4])):
        f = problem(D, D.pick('problem%d' % j, [0, 1]), cs[D.pick('c%d' % j, [0, 1])]); x = xs[D.pick('x%d' % j, [0, 1])]; g = lambda s: [np.asarray(v, float) for v in (lambda r: (r[0], r[1], r[-1]['success']))(s.nsolve(f, x.copy(), verbose=False))]
        want = g(mk()); js.NonlinearSolverOMP(config=dict(max_steps=1, xtol=1.0, reform_freq=7)); compare(D, 'solution after earlier use', g(s), want)

@contract('C15', num=80, sym=False, name='used_solver')
def linear(D):
    S = lambda: getattr(D.mod(md), nm)(); md, nm = D.pick('solver', [('solvers', 'NonlinearSolver'), ('jax.solvers', 'NonlinearSolverOMP')]); s = S(); n = D.pick('n', [2, 3]); As = [D.real('A%d' % k, (n, n)) + 2 * n * np.eye(n) for k in range(2)]; bs = [D.real('b%d' % k, (n,)) for k in range(2)]
    fs = [s.lin_factor(a.copy()) for a in As]
    for j in range(D.pick('length', [2, 4])):
        k, b = D.pick('A%d' % j, [0, 1]), bs[D.pick('b%d' % j, [0, 1])]; o = D.pick('op%d' % j, ['solve', 'factored', 'refactor', 'eigs'])
        if o == 'refactor': As[k] *= 1.5; fs[k] = s.lin_factor(As[k].copy())
        if o == 'eigs': H = As[k] @ As[k].T; compare(D, 'eigenvalues after earlier use', s.eigs(H.copy(), np.eye(n), subset_by_index=[0, n - 1])[0], np.linalg.eigvalsh(H)); continue
        x = s.lin_solve(As[k].copy(), b.copy()) if o == 'solve' else s.lin_factored_solve(fs[k], b.copy()); D.eq('linear solution after earlier use', As[k] @ np.asarray(x), b)

def runs(D, which):
    A = np.array([[2.0, 0.5], [-0.3, 1.5]]); cfg = dict(dsmax=0.6, dsmin=0.02, MaxSteps=D.pick('MaxSteps', [4, 12]), verbose=-1, corrector=D.pick('corrector', ['Ortho', 'Pseudo']), FracLam=D.pick('FracLam', [0.5, 0.8]), xp=None)
    cfg.pop('xp'); cto = D.pick('CtoP', [None, 2.0]); ct = None if cto is None else np.array([cto, 1.0, 1.0]); C = lambda: D.mod('continuation').Continuation(D.mod('solvers').NonlinearSolver(), ds0=0.2, CtoP=None if ct is None else ct.copy(), config=dict(cfg))
    def fun(a):
        return lambda X, calc_grad=True: (A @ X[:2] + a * X[:2] ** 3 - X[2], A + np.diag(3 * a * X[:2] ** 2), -np.ones(2))
    c = C(); l = [0.0, D.real('l1', pos=True) + 0.5, 2.0]
    for j in range(D.pick('length', [2, 3])):
        f = fun([0.1, 0.4][D.pick('f%d' % j, [0, 1])]); a, b = D.pick('range%d' % j, [(0, 1), (1, 0), (0, 2), (2, 1)]); g = lambda c: c.continuation(f, np.concatenate((np.linalg.solve(A, np.ones(2) * l[a]), [l[a]])), l[a], l[b])
        want = g(C()); D.mod('continuation').Continuation(D.mod('solvers').NonlinearSolver(), ds0=0.7, CtoP=np.array([3.0, 2.0, 1.5]), config=dict(dsmax=0.1, dsmin=0.05, MaxSteps=2, FracLam=0.1, verbose=-1, corrector='Pseudo', callback=lambda *a: None)); compare(D, which + ' after an earlier run', g(c), want)
@contract('C12', num=15, sym=False, name='used_continuation')
def c12(D): runs(D, 'points')
@contract('C13', num=15, sym=False, name='used_continuation')
def c13(D): runs(D, 'points')
