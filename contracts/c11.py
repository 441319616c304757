from pyded.contracts_api import contract
from . import memory
from .friction import *

# (the material constants are compile-time constants of the element: few sets, so that compiled code is reused)
MATERIALS = [[100.0, 1.0, 1.0, 0.3, 2.0], [60.0, 0.7, 2.5, 0.2, 0.0], [192.0, 1.7, 0.6, 0.35, 38.0]]

def material(D):
    if D.sym:
        E, R, S, mu = D.real('E', pos=True), D.real('R', pos=True), D.real('S', pos=True), D.real('mu', pos=True); nu = T.lift(Fr(3, 10)); Et = E / 10
    else:
        E, R, S, nu, Et = D.pick('material', MATERIALS); mu = D.real('mu', lo=0, hi=1)
    return E, nu, R, Et, S, mu

def consts(D, E, nu, S, R):
    """contact moduli of two equal bodies and the displacement at first yield"""
    Es = E / 2 / (1 - nu * nu); Gs = E / 2 / (1 + nu) / 2 / (2 - nu)
    y = (D.np.pi * (1.295 * D.np.exp(0.736 * nu)) * S / (4 * Es)) ** 2 * (4 * R)
    return Es, Gs, y

def make(D, mat, gaps, wts, model, Q=None, T_=None, **kw):
    m = D.mod('jax.nlforces.roughcontact.rough_contact')
    I = D.np.eye(3)
    return m.RoughContactFriction(I if Q is None else Q, I if T_ is None else T_, *mat, gaps=gaps, gap_weights=wts, tangent_model=model, N_radial_quad=5 if D.sym else 12, **kw)

def hertz(D, Es, R, x):
    x = D.np.maximum(x, 0 * x)
    return 4 * Es * D.np.sqrt(R) * D.np.sqrt(x) * x / 3, D.np.sqrt(R * x)

def pressed(r, shape):
    v = r.uniform(-1, 1, size=shape); v[..., -1] = r.uniform(-0.2, 1.0, size=shape[:-1] if len(shape) > 1 else None) * r.choice([1.0, 0.2, 0.05])
    v[..., :2] *= r.choice([1e-3, 0.05, 1.0, 0.0])
    return v

@contract('C11', num=60, sym=False)
def elastic(D):
    """below yield: Hertz force and radius, tangential stick stiffness 8 G* a limited by friction, from any saved state,
    with the frictionless-prestress switch; slopes of the active branch"""
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R)
    g = D.real('g', lo=0, hi=1) * y; mg = D.pick('meso', [0, 1], sym=[0]); mg = D.real('meso gap', lo=-1, hi=1) * y if mg else 0; wt = D.real('wt', pos=True)
    Q, T_ = (D.real('Q', (3, 3)), D.real('T', (3, 3))) if not D.sym else (D.np.eye(3), D.np.eye(3))
    el = make(D, mat, D.np.array([g]), D.np.array([wt]), 'TAN', Q, T_, meso_gap=mg)
    ops = D.pick('operations', ['uf', 'uuf', 'fuif', 'puf', 'purf', 'upprrf', 'uufuf'], sym=['f', 'uf', 'uif', 'purf'])
    up, fp, m_ = [0 * mu, 0 * mu], [0 * mu, 0 * mu], mu
    for k, o in enumerate(ops):
        if o == 'p': el.set_prestress_mu(); m_ = 0 * mu
        elif o == 'r': el.reset_real_mu(); m_ = mu
        elif o == 'i': el.init_history(); up, fp = [0 * mu] * 2, [0 * mu] * 2
        else:
            if D.sym: u = D.real('u%d' % k, (3,)); X = u
            else:
                u = D.real('u%d' % k, (3,), draw=pressed); u[2] = u[2] * 1.8 * y + g + mg
                if abs(np.linalg.det(Q)) < 0.05: Q = Q + 3 * np.eye(3); el.Q = Q
                X = np.linalg.solve(Q, u); u = Q @ X
            d = u[2] - mg - g
            D.assume(d < 1.9 * y)
            D.assume(mg + g > -1.9 * y)
            fn, a = hertz(D, Es, R, d); f = D.np.zeros((3,)); f[2] = wt * fn; new = []
            for c in range(2):
                new.append(clip(D, 8 * Gs * a * (u[c] - up[c]) + fp[c], m_ * fn)); f[c] = wt * new[c]
            X0 = D.copyarr(X); r = el.force(X, update_hist=o == 'u')
            D.eq('contact law', r[0], T_ @ f, tol=1e-9)
            D.same('input not modified', X, X0)
            if o == 'f' and not D.sym and abs(d) > 0.02 * y:
                sc = 0.05 * min(abs(d), 1.9 * y - d); D.jac('slope of the active branch', r[0], r[1], X0, lambda X: el.force(X)[0], scale=sc, tol=1e-3)
            if o == 'u': up, fp = [u[0], u[1]], new


def internal(m, *names):
    """callee contracts are stated on functions of the module; where a change removed them, the run-time contracts remain"""
    for n in names:
        if not hasattr(m, n): raise T.Unsupported('no function ' + n)

@contract('C11', num=0, budget=40, maxcfg=6)
def normal_law(D):
    """below yield the general asperity law is Hertz; zero force and radius when separated; branch selection between loading,
    yielding (opaque loading curve) and unloading for every history"""
    m = D.mod('jax.nlforces.roughcontact._asperity_functions'); internal(m, '_normal_asperity_general', '_normal_pl_asperity_loading', '_normal_asperity_unloading')
    E, R, S, nu = D.real('E', pos=True), D.real('R', pos=True), D.real('S', pos=True), D.real('nu', lo=0, hi=0.5); y = D.real('y', pos=True)
    u, dm, Fm = D.real('u'), D.real('dm'), D.real('Fm', lo=0); A = lambda x: D.np.array([x])
    case = D.pick('case', ['elastic', 'separated', 'yielding', 'unloading'])
    pl, un = D.real('pl', (4, 1)), D.real('un', (4, 1))
    D.patch(m, '_normal_pl_asperity_loading', lambda *a, **k: tuple(pl[i] for i in range(4)))
    D.patch(m, '_normal_asperity_unloading', lambda *a, **k: tuple(un[i] for i in range(4)))
    lim = D.np.array([1.9])[0] * y
    if case == 'elastic': D.assume(u < lim); D.assume(dm < lim)
    if case == 'separated': D.assume(u < 0); D.assume(dm < lim)
    if case == 'yielding': D.assume(u > lim); D.assume(u > dm)
    if case == 'unloading': D.assume(u < dm); D.assume(dm > lim)
    r = m._normal_asperity_general(A(u), A(dm), A(Fm), R, nu, E, E, E / 10, y, S)
    if case == 'elastic': fn, a = hertz(D, E, R, u); D.eq('Hertz force', r[0], A(fn)); D.eq('Hertz radius', r[1], A(a))
    if case == 'separated': D.eq('no force', r[0], A(0 * u)); D.eq('no radius', r[1], A(0 * u))
    if case == 'yielding': D.eq('loading curve', r[0], pl[0]); D.eq('loading radius', r[1], pl[1])
    if case == 'unloading': D.eq('unloading curve', r[0], un[0]); D.eq('unloading radius', r[1], un[1])

@contract('C11', num=0, budget=40, maxcfg=6)
def unloading_law(D):
    """unloading is Hertzian with residual displacement and effective radius such that it meets the recorded maximum;
    no force below the residual displacement"""
    m = D.mod('jax.nlforces.roughcontact._asperity_functions'); internal(m, '_normal_asperity_unloading')
    E, R, dm, Fm = D.real('E', pos=True), D.real('R', pos=True), D.real('dm', pos=True), D.real('Fm', pos=True); A = lambda x: D.np.array([x])
    where = D.pick('at', ['maximum', 'below', 'residual'])
    top = Fm / (4 * E / 3 * D.np.sqrt(R) * D.np.sqrt(dm)); res = dm - top      # (residual displacement)
    if where == 'maximum':
        r = m._normal_asperity_unloading(A(dm), A(dm), A(Fm), R, E)
        D.eq('meets the recorded maximum, squared', r[0] * r[0], A(Fm * Fm)); D.true('same sign', r[0][0] >= 0)
    elif where == 'below':
        u = D.real('u'); D.assume(u < res)
        r = m._normal_asperity_unloading(A(u), A(dm), A(Fm), R, E); D.eq('no force', r[0], A(0 * u)); D.eq('no radius', r[1], A(0 * u))
    else:
        u = D.real('u'); r = m._normal_asperity_unloading(A(u), A(dm), A(Fm), R, E); D.eq('residual displacement', r[2], A(res))
        D.eq('effective radius', r[3] * (16 * E * E / 9) * top * top * top, A(Fm * Fm))

@contract('C11', num=0, budget=60, maxcfg=12)
def static_law(D):
    """element with opaque nonnegative asperity forces and radii (contract of the normal law): weighted totals, tangential
    stick prediction limited by friction, exact derivatives, history, prestress switch"""
    a = D.mod('jax.nlforces.roughcontact._asperity_functions'); internal(a, '_normal_asperity_general')
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R); n = D.pick('asperities', [1, 2]); calls = []
    gaps, wts = D.real('g', (n,)), D.real('wt', (n,)); mg = D.real('mg')
    def general(un, dm, Fm, *rest):
        f = D.np.array([D.ufun('force', un[i], dm[i], Fm[i]) for i in range(n)]); rad = D.np.array([D.ufun('radius', un[i], dm[i], Fm[i]) for i in range(n)])
        h = [D.here(x) for x in (D.np.array([1 * un[i] for i in range(n)]), D.np.array([1 * dm[i] for i in range(n)]), D.np.array([1 * Fm[i] for i in range(n)]), f, rad)]
        D.assume(h[3] >= 0); D.assume(h[4] >= 0); calls.append(h)
        return f, rad, 0 * f, 0 * f
    D.patch(a, '_normal_asperity_general', general)
    I = D.np.eye(3); el = make(D, mat, gaps, wts, 'TAN', I, I, meso_gap=mg)
    ops = D.pick('operations', ['f', 'uf', 'uif', 'purf']); up, fp, m_ = [0 * mu, 0 * mu], [[0 * mu, 0 * mu]] * n, mu; top = 0 * mu; Fm = [0 * mu] * n
    for k, o in enumerate(ops):
        if o == 'p': el.set_prestress_mu(); m_ = 0 * mu
        elif o == 'r': el.reset_real_mu(); m_ = mu
        elif o == 'i': el.init_history(); up, fp = [0 * mu] * 2, [[0 * mu] * 2] * n; top = 0 * mu; Fm = [0 * mu] * n
        else:
            u = D.real('u%d' % k, (3,)); F, J = el.force(u, update_hist=o == 'u')
            un, dm, fm, fn, rad = calls[-1]
            f = D.np.zeros((3,)); new = []
            for i in range(n):
                D.eq('penetration', un[i], u[2] - mg - gaps[i]); D.eq('recorded maximum displacement', dm[i], top - mg - gaps[i]); D.eq('recorded maximum force', fm[i], Fm[i])
                t = [clip(D, 8 * Gs * rad[i] * (u[c] - up[c]) + fp[i][c], m_ * fn[i]) for c in range(2)]; new.append(t)
                for c in range(2): f[c] = f[c] + wts[i] * t[c]
                f[2] = f[2] + wts[i] * fn[i]
            D.eq('weighted totals', F, f)
            if o == 'f' and k == 0: D.jac('slope of the active branch', F, J, u)
            if o == 'u': up, fp = [u[0], u[1]], new; top = D.np.maximum(top, u[2]); Fm = [D.np.maximum(p, q) for p, q in zip(Fm, fn)]
def tangential(D, model, uxy, u0, f0, fn, a, Gs, mu, r0, rn, wr):
    """tangential law from the saved state: whole asperity (TAN) or local tractions over rings interpolated to the current radii (MIF)"""
    if model == 'TAN':
        f = [np.clip(8 * Gs * a * (uxy[c] - u0[c]) + f0[c], -mu * fn, mu * fn) for c in range(2)]
        return f, f, r0
    rc = a * rn; t = np.zeros((len(rn), 2)); f = np.zeros(2)
    if fn > 0:
        with np.errstate(all='ignore'):
            k = 0.8709 + (1 - 0.8709) / np.sqrt(1 - rn ** 2) + 0.0629 * rn - 0.8915 * rn ** 2 + 0.6998 * rn ** 3; k = np.where(np.isfinite(k), k, 0)
        lim = mu * 3 * fn / (2 * np.pi * a * a) * np.sqrt(1 - rn ** 2)
        for c in range(2):
            old = np.interp(rc, r0, f0[:, c], left=0.0, right=0.0) if np.max(r0) > 0 else np.where(rc > 0, 0.0, f0[-1, c])
            t[:, c] = np.clip(8 * Gs / (a * np.pi) * k * (uxy[c] - u0[c]) + old, -lim, lim)
        f = 2 * np.pi * a * a * (t * rn[:, None]).T @ wr
    return f, t, rc

class Ref:
    """one asperity with its history; the yielded loading curve itself is taken from a fresh element"""
    def __init__(self, D, mat, gap, model, mu, mg, rings):
        self.E, self.nu, self.R, self.Et, self.S, _ = mat; self.D = D; self.mat = mat; self.gap = gap + mg; self.model = model; self.mu = mu
        self.Es, self.Gs, self.y = consts(D, self.E, self.nu, self.S, self.R)
        self.rn = np.linspace(0, 1, rings); w = 2 * np.ones(rings); w[0] = w[-1] = 1; self.wr = w / w.sum()
        self.reset()
    def reset(self):
        self.dm = 0 - self.gap; self.Fm = 0.0; self.u0 = np.zeros(2); self.f0 = np.zeros(2) if self.model == 'TAN' else np.zeros((len(self.rn), 2)); self.r0 = np.zeros(len(self.rn))
    def virgin(self, d):
        el = make(self.D, self.mat, np.zeros(1), np.ones(1), 'TAN'); F, J, aux = el.force(np.array([0, 0, d]), return_aux=True)
        return float(F[2]), float(np.asarray(aux[4])[0])
    def normal(self, d):
        lim = 1.9 * self.y
        if d < lim and self.dm < lim: return hertz(np_dom, self.Es, self.R, np.float64(d))
        if d > self.dm and d > lim: return self.virgin(d)
        db = self.dm * (1 - self.Fm / (4 / 3 * self.Es * np.sqrt(self.R) * self.dm ** 1.5))
        Rb = self.Fm ** 2 / ((4 / 3 * self.Es) ** 2 * (self.dm - db) ** 3)
        x = max(d - db, 0.0)
        return 4 / 3 * self.Es * np.sqrt(Rb) * x ** 1.5, np.sqrt(Rb * x)
    def step(self, u, save):
        d = u[2] - self.gap; fn, a = self.normal(d)
        f, t, r = tangential(None, self.model, u[:2], self.u0, self.f0, fn, a, self.Gs, self.mu, self.r0, self.rn, self.wr)
        if save: self.dm = max(self.dm, d); self.Fm = max(self.Fm, fn); self.u0 = np.array(u[:2]); self.f0 = t if self.model == 'MIF' else np.array(f); self.r0 = r
        return np.array([f[0], f[1], fn]), a
class np_dom: np = np

@contract('C11', num=60, sym=False)
def static(D):
    """sequences of static evaluations over a gap distribution, both tangential models, elastic and yielded: totals are the
    weighted sums over the asperities; unilateral, friction limited; history only when asked; prestress switch"""
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R)
    n = 3; gaps = np.sort(D.real('gaps', (n,), lo=0, hi=1)) * y; wts = D.real('wts', (n,), pos=True); mg = D.pick('meso', [0, 1]); mg = D.real('meso gap', lo=-1, hi=1) * y if mg else 0
    model = D.pick('model', ['TAN', 'MIF', 'mif'])
    Q = D.real('Q', (3, 3)) + 3 * np.eye(3); T_ = D.real('T', (3, 3))
    el = make(D, mat, gaps, wts, model, Q, T_, meso_gap=mg); model = model.upper()
    ref = [Ref(D, mat, g, model, mu, mg, 12) for g in gaps]
    ops = D.pick('operations', ['f', 'uf', 'uuuf', 'fuuf', 'uuif', 'puuruf', 'uppufrrf', 'uuuuff', 'ufufuf'])
    for k, o in enumerate(ops):
        if o in 'pr':
            (el.set_prestress_mu if o == 'p' else el.reset_real_mu)()
            for a in ref: a.mu = 0.0 if o == 'p' else mu
        elif o == 'i':
            el.init_history(); [a.reset() for a in ref]
        else:
            u = D.real('u%d' % k, (3,), draw=pressed); u[2] = u[2] * 12 * y; u[:2] = u[:2] * y * 3
            if D.pick('repeat%d' % k, [0, 0, 1]) and k and ops[k - 1] in 'uf': u = D.np.array(last)
            last = u.copy(); X = np.linalg.solve(Q, u); u = Q @ X
            F, J, aux = el.force(X, update_hist=o == 'u', return_aux=True)
            st = [a.step(u, o == 'u') for a in ref]
            f = sum(w * s[0] for w, s in zip(wts, st))
            D.eq('weighted sum of the asperity forces', F, T_ @ f, tol=1e-7)
            D.eq('contact radii', np.asarray(aux[4]), np.array([s[1] for s in st]), tol=1e-7)
            fl = np.linalg.solve(T_, np.asarray(F)) if abs(np.linalg.det(T_)) > 0.1 else f
            D.true('unilateral', fl[2] >= -1e-9)
            if model == 'TAN':
                for c in range(2): D.le('friction limit', abs(fl[c]), ref[0].mu * fl[2], tol=1e-8)
            if ref[0].mu == 0:
                D.eq('no friction while switched', fl[:2], np.zeros(2), tol=1e-8)
                if abs(np.linalg.det(T_)) > 0.1: D.eq('no tangential stiffness while switched', np.linalg.solve(T_, np.asarray(J))[:2] / Gs, np.zeros((2, 3)), tol=1e-7)
            D.true('derivatives are finite', np.all(np.isfinite(np.asarray(J))))
            if o == 'f' and mu > 0.02:
                near = min(min(abs(u[2] - a.gap), abs(u[2] - a.gap - a.dm), abs(u[2] - a.gap - 1.9 * y)) for a in ref)
                if near > 0.05 * y and model == 'TAN': D.jac('slope of the active branch', F, J, X, lambda X: el.force(X)[0], scale=0.02 * y, tol=2e-3)

@contract('C11', num=60, sym=False)
def meets_maximum(D):
    """after loading past yield the unloading curve passes through the recorded maximum load point"""
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R)
    el = make(D, mat, np.zeros(1), np.ones(1), 'TAN')
    d = D.real('load', lo=0.1, hi=30) * y; q = D.real('back', lo=0, hi=1)
    F1, J1, a1 = el.force(np.array([0, 0, d]), update_hist=True, return_aux=True)
    F2, J2, a2 = el.force(np.array([0, 0, d]), return_aux=True)
    D.true('loaded force positive', F1[2] > 0); D.true('contact radius positive', np.asarray(a1[4])[0] > 0)
    D.eq('force at the recorded maximum', F2, F1, tol=1e-7)
    F3 = el.force(np.array([0, 0, d * q]))[0]; F4 = el.force(np.array([0, 0, d * q]), update_hist=True)[0]; F5 = el.force(np.array([0, 0, d]))[0]
    D.le('unloading stays below the maximum', F3[2], F1[2]); D.le('nonnegative', 0, F3[2])
    D.eq('unloading keeps the recorded maximum', F5[2], F1[2], tol=1e-7)
    D.eq('evaluations are repeatable', F4, F3)
    F6 = el.force(np.array([0, 0, -d]), update_hist=True)[0]; D.eq('no force when separated', F6, np.zeros(3))

def cycle(D, ref, u, s, repeats):
    """history over a periodic motion: unloading curve anchored at the cycle's largest penetration"""
    top = np.max(u[:, 2]); F = np.zeros(u.shape)
    for a in ref:
        a.reset(); d = top - a.gap; fn, _ = a.normal(d); a.Fm = fn; a.dm = d; a.u0 = np.array(s[:2])
        a.r0 = a.rn.copy() if a.model == 'MIF' else a.r0
    for _ in range(repeats):
        for i in range(len(u)):
            F[i] = 0
            for a in ref:
                d = u[i, 2] - a.gap
                db = a.dm * (1 - a.Fm / (4 / 3 * a.Es * np.sqrt(a.R) * a.dm ** 1.5)) if a.dm > 0 else 0.0
                Rb = a.Fm ** 2 / ((4 / 3 * a.Es) ** 2 * (a.dm - db) ** 3) if a.dm > 0 else 0.0
                x = max(d - db, 0.0); fn, r = 4 / 3 * a.Es * np.sqrt(Rb) * x ** 1.5, np.sqrt(Rb * x)
                f, t, rc = tangential(None, a.model, u[i, :2], a.u0, a.f0, fn, r, a.Gs, a.mu, a.r0, a.rn, a.wr)
                a.u0 = u[i, :2].copy(); a.f0 = t if a.model == 'MIF' else np.array(f); a.r0 = rc
                F[i] += a.wt * np.array([f[0], f[1], fn])
    return F

def harm(D):
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R)
    n = 2; gaps = np.sort(D.real('gaps', (n,), lo=0, hi=1)) * y; wts = D.real('wts', (n,), pos=True)
    model = D.pick('model', ['TAN', 'MIF']); mg = D.pick('meso', [0, 1]); mg = D.real('meso gap', lo=-1, hi=1) * y if mg else 0
    st = D.pick('u0', ['default', 'number', 'pair', 'array']); kw = {}; s = np.zeros(3)
    if st == 'number': kw = dict(u0=D.real('u0') * y); s[:2] = kw['u0']
    if st == 'pair': kw = dict(u0=D.real('u0', (2,)) * y); s[:2] = kw['u0']
    if st == 'array': kw = dict(u0=D.real('u0', (3,)) * y); s = kw['u0'].copy()
    ref = [Ref(D, mat, g, model, mu, mg, 12) for g in gaps]
    for a, w in zip(ref, wts): a.wt = w
    pre = D.pick('prestress', [0, 0, 1, 2])
    for a in ref: a.mu = 0.0 if pre == 1 else mu
    return mat, mu, y, gaps, wts, model, mg, kw, s, ref, pre

def switch(el, pre):
    if pre: el.set_prestress_mu()
    if pre == 2: el.reset_real_mu()

@contract('C11', num=50, sym=False)
def history(D):
    """local force history of sampled motions against the asperity-by-asperity march"""
    mat, mu, y, gaps, wts, model, mg, kw, s, ref, pre = harm(D)
    el = make(D, mat, gaps, wts, model, meso_gap=mg, **kw); switch(el, pre)
    Nt = 8; u = D.real('u', (Nt, 3), draw=pressed); u[:, 2] *= 6 * y; u[:, :2] *= 3 * y; s0 = D.real('start', (3,)) * y; u1 = u.copy()
    reps = D.pick('repeats', [2, 1])
    ft = np.asarray(el.local_force_history(u, u * 0, np.array([0]), np.ones((Nt, 1)), s0, max_repeats=reps)[0])
    D.same('input not modified', u, u1)
    D.eq('force at every instant', ft, cycle(D, ref, u, s0, reps), tol=1e-7)
    D.true('unilateral', np.all(ft[:, 2] >= -1e-12))
    if model == 'TAN': D.le('friction limit', np.abs(ft[:, 0]), ref[0].mu * ft[:, 2], tol=1e-8); D.le('friction limit', np.abs(ft[:, 1]), ref[0].mu * ft[:, 2], tol=1e-8)

@contract('C11', num=30, sym=False)
def aft(D):
    """harmonic forces: harmonics of the marched history, started at the configured slider position; exact derivatives"""
    mat, mu, y, gaps, wts, model, mg, kw, s, ref, pre = harm(D)
    h = D.pick('h', [[0, 1], [0], [0, 1, 3]]); Nt = 8; N = D.pick('N', [3, 2]); ha = np.array(h)
    Q = D.real('Q', (3, N)); T_ = D.real('T', (N, 3)); U = D.real('U', (nhc(h) * N,)) * y * 2; w = D.real('w', pos=True)
    el = make(D, mat, gaps, wts, model, Q, T_, meso_gap=mg, **kw); switch(el, pre)
    if st_through(D): X0 = D.real('X0', (N,)) * y; el.set_aft_initialize(X0); s = Q @ X0
    U1 = U.copy(); F, J, dw = el.aft(U, w, ha, Nt, 1e-7); Ul, u = motions(D, h, Q, U1, Nt)
    D.same('input not modified', U, U1)
    D.eq('harmonic force', F, global_force(D, h, T_, cycle(D, ref, u, s, 2)), tol=1e-7)
    D.eq('force without gradients', el.aft(U, w, ha, Nt, 1e-7, calc_grad=False)[0], F)
    D.eq('no frequency dependence', dw, np.zeros(len(U)))
    D.true('derivatives are finite', np.all(np.isfinite(J)))
    if pre != 1 and model == 'TAN' and mu > 0.05: D.jac('harmonic derivative', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7, calc_grad=False)[0], scale=0.02 * y, tol=2e-3)
def st_through(D): return D.pick('start through', ['constructor', 'constructor', 'set_aft_initialize']) == 'set_aft_initialize'

@contract('C11', num=30, sym=False)
def frictionless(D):
    """while switched to frictionless prestress there is neither tangential force nor tangential stiffness, also for
    motions without any tangential displacement"""
    mat = material(D); E, nu, R, Et, S, mu = mat; Es, Gs, y = consts(D, E, nu, S, R)
    n = 2; gaps = np.sort(D.real('gaps', (n,), lo=0, hi=1)) * y; model = D.pick('model', ['TAN', 'MIF']); h = D.pick('h', [[0, 1], [0]])
    el = make(D, mat, gaps, D.real('wts', (n,), pos=True), model); el.set_prestress_mu(); z = D.pick('tangential motion', [0, 1])
    u = D.real('u', (3,), draw=pressed) * y * 6; u[:2] *= z
    F, J = el.force(u)[:2]; D.eq('no tangential force', np.asarray(F)[:2], np.zeros(2)); D.eq('no tangential stiffness', np.asarray(J)[:2] / Gs, np.zeros((2, 3)), tol=1e-12)
    U = D.real('U', (nhc(h), 3), draw=pressed) * y * 2; U[:, :2] *= z
    F, J, w = el.aft(U.ravel(), 1.0, np.array(h), 8, 1e-7); F, J = np.asarray(F).reshape(-1, 3), np.asarray(J).reshape(nhc(h), 3, -1)
    D.eq('no tangential harmonics', F[:, :2], np.zeros((nhc(h), 2))); D.eq('no tangential harmonic stiffness', J[:, :2] / Gs, np.zeros((nhc(h), 2, 3 * nhc(h))), tol=1e-12)
