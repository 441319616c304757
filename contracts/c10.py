from pyded.contracts_api import contract
from . import memory
from .friction import *

def element(D, dim, N, n, kw):
    m = D.mod('jax.nlforces.elastic_dry_fric_%dd' % dim); cls = getattr(m, 'ElasticDryFriction%dD' % dim)
    Q, T_ = (D.real('Q', (dim * n, N)), D.real('T', (N, dim * n))) if N else (D.np.eye(dim * n), D.np.eye(dim * n))
    kt, kn, mu = D.real('kt', pos=True), D.real('kn', pos=True), D.real('mu', lo=0, hi=1.5)
    return cls(Q, T_, kt, kn, mu, **kw), Q, T_, kt, kn, mu

def law(D, dim, u, up, fp, kt, kn, mu, gap):
    """contact law of every slider: (force, closest distance to a non-smooth point)"""
    f = D.np.zeros(u.shape); m = np.inf
    for s in range(len(u) // dim):
        z = dim * s + dim - 1; N = D.np.maximum(kn * (u[z] - gap), 0 * u[z]); f[z] = N
        if not D.sym: m = min(m, abs(u[z] - gap))
        for t in range(dim - 1):
            p = kt * (u[dim * s + t] - up[s * (dim - 1) + t]) + fp[s * (dim - 1) + t]
            f[dim * s + t] = clip(D, p, mu * N)
            if not D.sym and N > 0: m = min(m, abs(abs(p) - mu * N) if mu else 1.0)
    return f, m
def tang(x, dim): return [x[i] for i in range(len(x)) if i % dim != dim - 1]

def opts(D, n):
    dim = D.pick('dim', [2, 3]); gap = D.pick('gap', ['zero', 'given']); g = D.real('gap') if gap == 'given' else 0
    return dim, g, ({} if gap == 'zero' else dict(meso_gap=g))

@contract('C10', num=300, budget=90, maxcfg=40, paths=1500)
def static(D):
    """any sequence of static evaluations with and without saving, including frictionless prestress and resets"""
    n = D.pick('sliders', [1, 2, 3], sym=[1]); dim, gap, kw = opts(D, n); N = 1 if D.sym else D.pick('N', [1, 2, 4])
    ops = D.pick('operations', [('u', 'f', 'u', 'f'), ('u', 'u', 'f', 'i', 'f'), ('u', 'p', 'f', 'u', 'r', 'f'), ('p', 'p', 'r', 'u', 'f'), ('r', 'u', 'p', 'r', 'f', 'u', 'f'), ('f',), ('i', 'u', 'u', 'u', 'f')],
                 sym=[('u', 'f'), ('u', 'i', 'f'), ('p', 'u', 'r', 'f'), ('f',)])
    if D.sym: N = 1 if ops == ('f',) else dim       # (sequences with unit maps; the maps are covered by the single evaluation)
    el, Q, T_, kt, kn, mu = element(D, dim, 0 if D.sym and N == dim else N, n, kw)
    nt = n * (dim - 1); up, fp = [0] * nt, [0] * nt; m_ = mu
    for k, o in enumerate(ops):
        if o == 'p': el.set_prestress_mu(); m_ = 0 * mu
        elif o == 'r': el.reset_real_mu(); m_ = mu
        elif o == 'i': el.init_history(); up, fp = [0] * nt, [0] * nt
        else:
            X = D.real('X%d' % k, (N,)); X0 = D.copyarr(X)
            F, J = el.force(X, update_hist=o == 'u'); u = Q @ X0
            f, mg = law(D, dim, u, up, fp, kt, kn, m_, gap)
            D.eq('force law', F, T_ @ f)
            D.same('input not modified', X, X0)
            if o == 'u': up, fp = tang(u, dim), tang(f, dim)
            if o == 'f' and (D.sym or mg > 1e-3) and (m_ is mu): D.jac('slope of the active branch', F, J, X0, lambda X: el.force(X)[0])

def start(D, dim, n, Ul0):
    """slider start: constructor number, none, array, or through set_aft_initialize"""
    st = D.pick('u0', ['default', 'none', 'number', 'array']); nl = dim * n
    if st == 'default': return {}, [0] * nl
    if st == 'none': return dict(u0=None), None
    if st == 'number': x = D.real('u0'); return dict(u0=x), [x] * nl
    x = D.real('u0', (nl,)); return dict(u0=x), [x[i] for i in range(nl)]

def cycles(D, dim, u, s, kt, kn, mu, gap):
    """two marched cycles; the march starts one sample before the period with the stick force from the slider start"""
    Nt = len(u); st = tang(s, dim); up = tang(u[-1], dim); fp = [kt * (a - b) for a, b in zip(up, st)]
    ft = D.np.zeros(u.shape); mg = np.inf
    for _ in range(2):
        for i in range(Nt):
            f, m = law(D, dim, u[i], up, fp, kt, kn, mu, gap); mg = min(mg, m); ft[i] = f; up, fp = tang(u[i], dim), tang(f, dim)
    return ft, mg

@contract('C10', num=200, budget=90, maxcfg=16, paths=1500)
def history(D):
    """local force history of arbitrary sampled motions: contact law at every instant of the second cycle"""
    n = D.pick('sliders', [1, 2], sym=[1]); dim, gap, kw = opts(D, n); Nt = D.pick('Nt', [2, 3, 4, 8, 16], sym=[1]); h = [0]
    u = D.real('u', (Nt, dim * n)); w0 = D.real('uh0', (dim * n,)); k, s = start(D, dim, n, w0)
    el, Q, T_, kt, kn, mu = element(D, dim, 1, n, dict(kw, **k))
    pre = D.pick('prestress', [0, 1, 2], sym=[0, 1])
    if pre: el.set_prestress_mu()
    if pre == 2: el.reset_real_mu()
    m_ = mu if pre != 1 else 0 * mu
    u1 = D.copyarr(u)
    ft = el.local_force_history(u, D.np.zeros(u.shape), np.array(h), D.np.ones((Nt, 1)), w0)[0]
    sp, mg = cycles(D, dim, u1, s if s is not None else w0, kt, kn, m_, gap)
    D.eq('force at every instant', np.asarray(ft) if not D.sym else ft, sp)
    D.same('input not modified', u, u1)
    for i in range(Nt):
        for a in range(n):
            z = dim * a + dim - 1
            D.le('never pulls', 0 * ft[i, z], ft[i, z])
            for t in range(dim - 1):
                D.le('within the Coulomb limit', ft[i, dim * a + t], m_ * ft[i, z]); D.le('within the Coulomb limit', -ft[i, dim * a + t], m_ * ft[i, z])

@contract('C10', num=120, budget=120, maxcfg=16, paths=1500)
def aft(D):
    """harmonic forces and derivatives: harmonics of the marched contact forces, slider start as configured"""
    n = D.pick('sliders', [1, 2], sym=[1]); dim, gap, kw = opts(D, n)
    if not D.sym and 'dim' not in D.fixed and n == 2 and dim == 3: n = D.picks['sliders'] = 1      # (compilation time)
    h = D.pick('h', [[0], [0, 1], [1, 3]], sym=[[0]] if dim == 3 else [[0], [1]]); Nt = D.pick('Nt', [8], sym=[4]); N = D.pick('N', [1, 2, 3], sym=[1])
    k, s = start(D, dim, n, None)
    el, Q, T_, kt, kn, mu = element(D, dim, N, n, dict(kw, **k))
    how = D.pick('start through', ['constructor', 'set_aft_initialize'], sym=['constructor'] if h != [0] else ['constructor', 'set_aft_initialize'])
    if how == 'set_aft_initialize': X0 = D.real('X0', (N,)); el.set_aft_initialize(X0); s = list(Q @ X0)
    pre = D.pick('prestress', [0, 1, 2], sym=[0])
    if pre: el.set_prestress_mu()
    if pre == 2: el.reset_real_mu()
    m_ = mu if pre != 1 else 0 * mu
    U = D.real('U', (nhc(h) * N,), draw=plateau_draw); w = D.real('w', pos=True); ha = np.array(h); U1 = D.copyarr(U)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u = motions(D, h, Q, U1, Nt)
    ft, mg = cycles(D, dim, u, s if s is not None else Ul[0], kt, kn, m_, gap)
    D.eq('harmonic force', F, global_force(D, h, T_, ft))
    D.same('input not modified', U, U1)
    D.eq('no frequency dependence', dw, D.np.zeros(dw.shape))
    D.eq('force without gradients', el.aft(U, w, ha, Nt, 1e-7, calc_grad=False)[0], F)
    if D.sym and (kw or (k and h != [0])): return          # derivatives are proved for the zero gap and the default start
    if pre != 1 and (D.sym or mg > 1e-3): D.jac('harmonic derivative', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])
