from pyded.contracts_api import contract
from . import memory
from .friction import *
from . import g07

def element(D, vector=False, n=None):
    N = n or D.pick('N', [1, 2, 3, 4], sym=[1, 2])
    Q, T_ = D.real('Q', (1, N)), D.real('T', (N, 1)); kt, Fs = D.real('kt', pos=True), D.real('Fs', pos=True)
    return N, Q, T_, kt, Fs

@contract('C07', num=400, budget=60, maxcfg=120)
def static(D):
    """any sequence of static evaluations: stick/slip law from the saved state, limit, slope of the active branch,
    history changed exactly when asked (two updates from a reset reach every admissible state)"""
    m = D.mod(D.pick('module', ['nlforces.jenkins_element', 'nlforces.vector_jenkins']))
    cls = m.JenkinsForce if m.__name__.endswith('jenkins_element') else m.VectorJenkins
    N, Q, T_, kt, Fs = element(D, n=1 if D.sym and m.__name__.endswith('vector_jenkins') else None)
    el = cls(Q, T_, kt, Fs); el.init_history()
    if not D.sym and D.pick('earlier use', [0, 1]):
        # reset returns to the zero state whatever happened before
        for k in range(3): el.force(D.real('Z%d' % k, (N,)), update_hist=True)
        el.init_history()
    flags = D.pick('update', [(1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0)], sym=[(1, 1, 0), (1, 0, 1)])
    up, fp = 0, 0
    for k, fl in enumerate(flags):
        X = D.real('X%d' % k, (N,)); X0 = D.copyarr(X)
        F, J = el.force(X, update_hist=bool(fl))
        u = (Q @ X0)[0]; f = clip(D, kt * (u - up) + fp, Fs)
        D.eq('force law', F, T_[:, 0] * f)
        D.same('input not modified', X, X0)
        D.le('within the slip force', D.np.abs(f), Fs)
        if not fl: D.jac('slope of the active branch', F, J, X0, lambda X: el.force(X, update_hist=False)[0])
        elif k == len(flags) - 1 and D.sym: D.jac('slope of the active branch', F, J, X0)
        if fl: up, fp = u, f

@contract('C07', num=200, budget=60, maxcfg=40)
def prestress(D):
    """frictionless prestress: no force while switched, every earlier slip force restored; history is kept as saved by then"""
    N, Q, T_, kt, Fs = element(D)
    el = D.mod('nlforces.jenkins_element').JenkinsForce(Q, T_, kt, Fs); el.init_history()
    ops = D.pick('operations', [('p', 'f', 'r', 'f', 'f'), ('p', 'p', 'u', 'r', 'u', 'f'), ('u', 'p', 'u', 'r', 'f'), ('r', 'u', 'f'), ('p', 'r', 'p', 'r', 'u', 'f')], sym=[('p', 'f', 'r', 'f'), ('p', 'u', 'r', 'f'), ('p', 'p', 'r', 'r', 'f')])
    lim = Fs; up, fp = 0, 0
    for k, o in enumerate(ops):
        if o == 'p': el.set_prestress_mu(); lim = Fs * 0
        elif o == 'r': el.reset_real_mu(); lim = Fs
        else:
            X = D.real('X%d' % k, (N,)); F, J = el.force(X, update_hist=o == 'u')
            u = (Q @ X)[0]; f = clip(D, kt * (u - up) + fp, lim)
            D.eq('force law', F, T_[:, 0] * f)
            if o == 'u': up, fp = u, f

@contract('C07', num=300, budget=90, maxcfg=30, paths=1500)
def cycle(D):
    """marching a periodic motion: force at every instant and its derivative through the history (slider start included)"""
    el = D.mod('nlforces.jenkins_element').JenkinsForce(np.eye(1), np.eye(1), *( [D.real('kt', pos=True), D.real('Fs', pos=True)] )) if not D.sym else None
    if D.sym:
        kt, Fs = D.real('kt', pos=True), D.real('Fs', pos=True)
        el = D.mod('nlforces.jenkins_element').JenkinsForce(D.np.eye(1), D.np.eye(1), kt, Fs)
    else: kt, Fs = D.drawn['kt'], D.drawn['Fs']
    h = D.pick('h', [[0], [1], [0, 1], [0, 1, 3], [1, 2]], sym=[[0], [1]]); Nt = D.pick('Nt', [2, 3, 5, 8, 16], sym=[2]); n = nhc(h)
    cst = D.real('cst', (Nt, n)); Uh = D.real('Uh', (n, 1)); reps = D.pick('cycles', [1, 2, 3], sym=[1, 2] if n < 2 else [1])
    vel = D.np.zeros((Nt, 1))
    def run(Uh): return el.local_force_history(cst @ Uh, vel, np.array(h), cst, Uh[0], max_repeats=reps, atol=-1.0, rtol=-1.0)
    if D.pick('earlier use', [0, 1], sym=[0]): run(Uh * 0.3); el.init_history(); el.force(Uh[0] + 1, update_hist=True)
    ft, du, dv = run(Uh)
    u = (cst @ Uh)[:, 0]
    D.eq('force at every instant', ft[:, 0], march(D, u, Uh[0, 0], kt, Fs, reps))
    D.eq('no velocity dependence', dv, D.np.zeros(dv.shape))
    if D.sym or margin(u, Uh[0, 0], 0, kt, Fs, reps) > 1e-3: D.jac('derivative with the history', ft[:, 0], du[:, 0, 0, :], Uh, lambda Uh: run(Uh)[0][:, 0])

@contract('C07', num=120, budget=60, maxcfg=20)
def aft_numpy(D):
    """harmonic forces of the marching element, slider started at the zeroth row of the local coefficients"""
    N, Q, T_, kt, Fs = element(D)
    el = D.mod('nlforces.jenkins_element').JenkinsForce(Q, T_, kt, Fs)
    h = D.pick('h', HL_ALL[:14], sym=[[0]]); Nt = D.pick('Nt', [x for x in (4, 8, 16, 32, 64) if x > 2 * max(h) + 1], sym=[2])
    U = D.real('U', (nhc(h) * N,), draw=plateau_draw); w = D.real('w', pos=True); ha = np.array(h)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u = motions(D, h, Q, U, Nt)
    if not D.sym:                                    # (a first cycle ending without force is taken as converged)
        D.assume(abs(march(D, u[:, 0], Ul[0, 0], kt, Fs, 1)[-1]) > 1e-6 or np.max(np.abs(u - Ul[0, 0])) < 1e-12)
    ft = march(D, u[:, 0], Ul[0, 0], kt, Fs).reshape(-1, 1)
    D.eq('harmonic force', F, global_force(D, h, T_, ft))
    D.eq('no frequency dependence', dw, D.np.zeros(dw.shape))
    if D.sym or margin(u[:, 0], Ul[0, 0], 0, kt, Fs) > 1e-3: D.jac('harmonic derivative', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])

@contract('C07', num=100, budget=60, maxcfg=20)
def aft_jax(D):
    """the automatic-differentiation element: same harmonic force, slider start given or the zeroth row"""
    N, Q, T_, kt, Fs = element(D)
    m = D.mod('jax.nlforces.jenkins_element')
    st = D.pick('u0', ['default', 'none', 'given', 'array']); u0 = D.real('u0') if st in ('given', 'array') else None
    a = D.np.reshape(u0, (1,)) if st == 'array' else u0
    el = m.JenkinsForce(Q, T_, kt, Fs) if st == 'default' else m.JenkinsForce(Q, T_, kt, Fs, u0=a)
    h = D.pick('h', HL_ALL[:12], sym=[[0], [1]] if st == 'default' and N == 1 else [[1]]); Nt = D.pick('Nt', [x for x in (4, 8, 16, 32) if x > 2 * max(h) + 1], sym=nts(h)[:1])
    pre = D.pick('prestress', [0, 1, 2])
    lim = Fs
    if pre: el.set_prestress_mu(); lim = Fs * 0
    if pre == 2: el.reset_real_mu(); lim = Fs
    U = D.real('U', (nhc(h) * N,), draw=plateau_draw); w = D.real('w', pos=True); ha = np.array(h)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u = motions(D, h, Q, U, Nt)
    s = Ul[0, 0] if st == 'none' else u0 if u0 is not None else 0 * Ul[0, 0]
    # the march of the element starts before the last instant of the period
    up, f = u[-1, 0], kt * (u[-1, 0] - s); ft = D.np.zeros((Nt, 1))
    for _ in range(2):
        for i in range(Nt): f = clip(D, kt * (u[i, 0] - up) + f, lim); up = u[i, 0]; ft[i, 0] = f
    D.eq('harmonic force', F, global_force(D, h, T_, ft))
    D.eq('no frequency dependence', dw, D.np.zeros(dw.shape))
    if pre != 1 and (D.sym or margin(u[:, 0], u[-1, 0], kt * (u[-1, 0] - s), kt, lim) > 1e-3): D.jac('harmonic derivative', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])
