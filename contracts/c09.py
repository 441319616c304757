from pyded.contracts_api import contract
from . import memory
from .friction import *

def quiet(D, ft1, u, u0):
    """a first cycle that ends (nearly) without force counts as converged for every implementation: outside this comparison"""
    D.assume(np.min(np.abs(ft1)) > 1e-8 or np.max(np.abs(u - u0)) < 1e-14)

HL_JIT = [[0], [1], [0, 1], [0, 1, 2, 3], [0, 1, 3]]
def settings(D, jit=False):
    h = D.pick('h', HL_JIT if jit else HL_ALL); N = D.pick('N', [1, 2, 3] if not jit else [1, 2])
    Nt = D.pick('Nt', [x for x in ((8, 12, 32) if jit else (4, 6, 8, 10, 12, 16, 18, 20, 24, 32, 36, 48, 64, 100)) if x > 2 * max(h) + 1])
    Q, T_ = D.real('Q', (1, N)), D.real('T', (N, 1)); U = D.real('U', (nhc(h) * N,), draw=plateau_draw); w = D.real('w', pos=True)
    return h, N, Nt, Q, T_, U, w

def compare(D, a, b, ok, tol=1e-9):
    D.eq('harmonic force', a[0], np.asarray(b[0]), tol=tol)
    if ok: D.eq('harmonic derivative', np.asarray(a[1]), np.asarray(b[1]), tol=1e-7)
    D.eq('frequency derivative', np.asarray(a[2]), np.asarray(b[2]), tol=tol)

@contract('C09', num=400, sym=False)
def jenkins_aft(D):
    """vectorised slider against the marching slider: harmonic force and derivative"""
    h, N, Nt, Q, T_, U, w = settings(D); kt, Fs = D.real('kt', pos=True), D.real('Fs', pos=True)
    Ul, u = motions(D, h, Q, U, Nt); quiet(D, march(D, u[:, 0], Ul[0, 0], kt, Fs, 1), u, Ul[0, 0])
    a = D.mod('nlforces.jenkins_element').JenkinsForce(Q, T_, kt, Fs).aft(U, w, np.array(h), Nt, 1e-7)
    b = D.mod('nlforces.vector_jenkins').VectorJenkins(Q, T_, kt, Fs).aft(U, w, np.array(h), Nt, 1e-7)
    compare(D, b, a, margin(u[:, 0], Ul[0, 0], 0, kt, Fs) > 1e-6)

def force_cycles(D, cls, name):
    """the callee's contract: two full cycles are marched (its convergence test only skips a repeated cycle)"""
    f = vars(cls)[name]
    D.patch(cls, name, lambda self, *a, **k: f(self, *a, **dict(k, atol=-1.0, rtol=-1.0)))

@contract('C09', num=300, budget=120, maxcfg=8, paths=4000)
def jenkins_history(D):
    """vectorised slider at every instant of an arbitrary sampled motion: force and derivative of the marching slider"""
    kt, Fs = D.real('kt', pos=True), D.real('Fs', pos=True)
    h = D.pick('h', [[0], [1], [0, 1]], sym=[[1]]); Nt = D.pick('Nt', [3, 4, 5, 8, 13], sym=[2, 3]); n = nhc(h)
    if D.sym: force_cycles(D, D.mod('nlforces.nonlinear_force').HystereticForce, 'local_force_history')
    el = D.mod('nlforces.vector_jenkins').VectorJenkins(D.np.eye(1), D.np.eye(1), kt, Fs)
    vel = D.np.zeros((Nt, 1))
    cst = D.real('cst', (Nt, n)); Uh = D.real('Uh', (n, 1)) 
    if D.sym: ut = D.real('u', (Nt, 1)); u0 = D.real('u0')
    else: ut = cst @ Uh; u0 = Uh[0, 0]; quiet(D, march(D, ut[:, 0], u0, kt, Fs, 1), ut, u0)
    ft, du, dv = el.local_force_history(ut, vel, np.array(h), cst, D.np.reshape(u0, (1,)) if not D.sym else D.np.array([u0]))
    # derivative of the active branches, marched with the force
    up, f = u0, 0 * u0; cp = D.np.zeros((n,)); cp[0] = 1; df = D.np.zeros((n,)); ok = D.sym or margin(ut[:, 0], u0, 0, kt, Fs) > 1e-6
    F = D.np.zeros((Nt,)); G = D.np.zeros((Nt, n))
    for _ in range(2):
        for i in range(Nt):
            p = kt * (ut[i, 0] - up) + f; f = clip(D, p, Fs); up = ut[i, 0]; F[i] = f
            df = D.np.where(D.np.abs(p) > Fs, 0.0, df + kt * (cst[i] - cp)) * 1.0; cp = cst[i]; G[i] = df
    D.eq('force at every instant', ft[:, 0], F)
    if ok: D.eq('derivative at every instant', du[:, 0, 0, :], G)
    D.eq('no velocity dependence', dv, D.np.zeros(dv.shape))

@contract('C09', num=300, sym=False)
def iwan_aft(D):
    """vectorised Iwan element against the marching Iwan element"""
    h, N, Nt, Q, T_, U, w = settings(D); kt, Fs, chi, beta = iwan_params(D)
    ns = D.pick('Nsliders', [1, 2, 5, 20, 100]); al = D.pick('alpha', [1.0, 1.1])
    Ul, u = motions(D, h, Q, U, Nt); sl = Sliders(D, *iwan_set(D, kt, Fs, chi, beta, ns, al)); m = np.inf
    sl.reset(Ul[0, 0])
    for c in range(2):
        ft = np.zeros(Nt)
        for i in range(Nt): m = min(m, sl.margin(u[i, 0])); ft[i] = sl.step(u[i, 0])
        if c == 0: quiet(D, ft, u, Ul[0, 0])
    a = D.mod('nlforces.iwan4_element').Iwan4Force(Q, T_, kt, Fs, chi, beta, Nsliders=ns, alphasliders=al).aft(U, w, np.array(h), Nt, 1e-7)
    b = D.mod('nlforces.vector_iwan4').VectorIwan4(Q, T_, kt, Fs, chi, beta, Nsliders=ns, alphasliders=al).aft(U, w, np.array(h), Nt, 1e-7)
    compare(D, b, a, m > 1e-6)

@contract('C09', num=100, budget=120, maxcfg=6, paths=4000)
def iwan_history(D):
    """vectorised Iwan element at every instant of an arbitrary sampled motion"""
    kt, Fs, chi, beta = iwan_params(D, light=True); ns = D.pick('Nsliders', [1, 2, 7], sym=[1])
    h = D.pick('h', [[0], [1], [0, 1]], sym=[[0]]); Nt = D.pick('Nt', [3, 4, 5, 8, 13], sym=[2, 3]); n = nhc(h)
    m = D.mod('nlforces.vector_iwan4')
    if D.sym: force_cycles(D, m.VectorIwan4, 'local_force_history_crit')
    el = m.VectorIwan4(D.np.eye(1), D.np.eye(1), kt, Fs, chi, beta, Nsliders=ns)
    cst = D.real('cst', (Nt, n)); Uh = D.real('Uh', (n, 1))
    if D.sym: ut = D.real('u', (Nt, 1)); u0 = D.real('u0')
    else: ut = cst @ Uh; u0 = Uh[0, 0]
    sl = Sliders(D, *iwan_set(D, kt, Fs, chi, beta, ns, 1)); sl.reset(u0); mg = np.inf
    cp = D.np.zeros((n,)); cp[0] = 1; ds = [D.np.zeros((n,)) for _ in sl.phi]; F = D.np.zeros((Nt,)); G = D.np.zeros((Nt, n))
    for c in range(2):
        for i in range(Nt):
            u = ut[i, 0]
            if not D.sym: mg = min(mg, sl.margin(u))
            ds = [D.np.where(D.np.abs(u - sl.up + f) > p, 0.0, d + (cst[i] - cp)) * 1.0 for d, f, p in zip(ds, sl.f, sl.phi)]
            F[i] = sl.step(u); cp = cst[i]; g = 0
            for a, d in zip(sl.w, ds): g = g + a * d
            G[i] = g
        if c == 0 and not D.sym: quiet(D, F.copy(), ut, u0)
    ft, du, dv = el.local_force_history(ut, D.np.zeros((Nt, 1)), np.array(h), cst, D.np.array([u0]))
    D.eq('force at every instant', ft[:, 0], F)
    if D.sym or mg > 1e-6: D.eq('derivative at every instant', du[:, 0, 0, :], G)
    D.eq('no velocity dependence', dv, D.np.zeros(dv.shape))

@contract('C09', num=120, budget=60, maxcfg=6)
def jax_aft(D):
    """automatic-differentiation sliders, vectorised and marching, against the array-library slider"""
    if D.sym:
        h = D.pick('h', [[0], [1]]); N = 1; Nt = 4; Q, T_, U, w = D.real('Q', (1, N)), D.real('T', (N, 1)), D.real('U', (nhc(h) * N,)), D.real('w', pos=True)
        st = D.pick('u0', ['none', 'given'])
    else: h, N, Nt, Q, T_, U, w = settings(D, True); st = D.pick('u0', ['none', 'given', 'default'])
    kt, Fs = D.real('kt', pos=True), D.real('Fs', pos=True); ha = np.array(h)
    u0 = D.real('u0') if st == 'given' else None
    k = {} if st == 'default' else dict(u0=u0)
    Ul, u = motions(D, h, Q, U, Nt)
    s = Ul[0, 0] if st == 'none' else 0 if st == 'default' else u0
    b = D.mod('jax.nlforces.vector_jenkins').VectorJenkins(Q, T_, kt, Fs, **k).aft(U, w, ha, Nt, 1e-7)
    ok = D.sym or (margin(u[:, 0], s, 0, kt, Fs) > 1e-6)
    a = D.mod('jax.nlforces.jenkins_element').JenkinsForce(Q, T_, kt, Fs, **k).aft(U, w, ha, Nt, 1e-7)
    if ok or D.sym: compare(D, b, a, ok)
    else: D.eq('harmonic force', b[0], np.asarray(a[0]), tol=1e-9)
    if st == 'none' and not D.sym:
        if np.min(np.abs(march(D, u[:, 0], s, kt, Fs, 1))) > 1e-8:
            c = D.mod('nlforces.jenkins_element').JenkinsForce(Q, T_, kt, Fs).aft(U, w, ha, Nt, 1e-7)
            compare(D, a, c, ok)
