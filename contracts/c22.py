import copy
import warnings
from pyded.contracts_api import contract
from . import memory
from . import g22
from .spec import *

class Model:
    """expected state of one element: slider position, friction factor, start of the harmonic analysis"""
    def __init__(self, kind, D, k, n):
        self.kind = kind; self.D = D; self.A, self.B, self.mu = D.real('A%d' % k, (n, n)), D.real('B%d' % k, (n, n)), D.real('mu%d' % k, pos=True); self.n = n; self.fresh()
    def fresh(self): self.up = self.D.np.zeros((self.n,)); self.on = True; self.start = None
    def force(self, X, up, on):
        f, J = self.B @ X, self.D.copyarr(self.B)
        if 'h' in self.kind and on: f = f + (self.A @ (X - up)) * self.mu; J = J + self.A * self.mu
        return f, J

def recorder(D, m, n, log, base):
    """an element with documented behaviour: hysteretic ('h') or not, with friction switch ('m'), with harmonic start ('a')"""
    class E(base):
        def __init__(self):
            self.Q = self.T = None; self.up = D.np.zeros((n,)); self.on = True; self.start = None; self.log = log
        def nl_force_type(self): return 1 if 'h' in m.kind else 0
        def force(self, X, update_hist=False):
            r = m.force(X, self.up, self.on)
            if update_hist:
                if 'h' not in m.kind: log.append('an element without history was asked to update it')
                self.up = D.copyarr(X)
            return r
        def init_history(self):
            if 'h' not in m.kind: log.append('an element without history was initialised')
            self.up = D.np.zeros((n,))
        def aft(self, *a, **k): raise T.Unsupported('harmonic analysis')
    if 'm' in m.kind:
        def off(self): self.on = False
        def back(self): self.on = True
        E.set_prestress_mu = off; E.reset_real_mu = back
    if 'a' in m.kind:
        def st(self, X): self.start = D.copyarr(X)
        E.set_aft_initialize = st
    return E()

KINDS = [['hma', 'i'], ['i', 'hma', 'h'], ['im', 'hm', 'ha'], ['hma', 'hma'], ['i'], [], ['h', 'im', 'hma'], ['hm', 'i', 'i', 'hma']]
def operate(s, els, o, X):
    if o == 'i': s.init_force_history()
    if o == 'u': s.update_force_history(X)
    if o == 'p': s.set_prestress_mu()
    if o == 'r': s.reset_real_mu()
    if o == 'a': s.set_aft_initialize(X)

@contract('C22', num=1500, budget=60, maxcfg=120)
def states(D):
    """any sequence of state changes on any mix of elements: every element that supports the change is in exactly the
    expected state afterwards, no other is touched, another system is unaffected; static residual and slope"""
    n = D.pick('n', [1, 2, 3], sym=[1, 2]); kinds = D.pick('elements', KINDS); vs = D.mod('vibration_system'); nf = D.mod('nlforces.nonlinear_force')
    ops = ''.join(D.pick('op%d' % k, list('iuprasu'), sym=list('iupra')) for k in range(D.pick('length', [1, 3, 6, 10], sym=[3])))
    K, F = D.real('K', (n, n)), D.real('F', (n,)); log = []
    M = [Model(k, D, j, n) for j, k in enumerate(kinds)]; els = [recorder(D, m, n, log, nf.NonlinearForce) for m in M]
    s = vs.VibrationSystem(D.np.eye(n), K); t = vs.VibrationSystem(D.np.eye(n), D.np.eye(n))
    for k, e in enumerate(els):
        s.add_nl_force(e); D.true('adding affects only that system', len(t.nonlinear_forces) == 0 and len(s.nonlinear_forces) == k + 1)
    other = Model('hma', D, 9, n); oe = recorder(D, other, n, log, nf.NonlinearForce); t.add_nl_force(oe); D.true('adding affects only that system', len(s.nonlinear_forces) == len(els))
    twin = copy.copy(s); twin.add_nl_force(oe); D.true('adding to a copied system affects only the copy', len(s.nonlinear_forces) == len(els) and len(twin.nonlinear_forces) == len(els) + 1)
    Ks, Fs = D.copyarr(K), D.copyarr(F)
    def look(lab):
        X = D.real('X' + lab, (n,)); X0 = D.copyarr(X); R, J = s.static_res(X, F); r, j = Ks @ X0 - Fs, D.copyarr(Ks)
        for m in M: f, g = m.force(X0, m.up, m.on); r = r + f; j = j + g
        D.eq('static residual', R, r); D.eq('static slope', J, j); D.same('displacement not modified', X, X0)
        for m, e in zip(M, els):
            D.eq('history of every element', e.up, m.up); D.true('friction of every element', e.on == m.on)
            D.true('harmonic start of every element', (e.start is None) == (m.start is None))
            if m.start is not None and e.start is not None: D.eq('harmonic start of every element', e.start, m.start)
    look('a')
    for k, o in enumerate(ops):
        X = D.real('U%d' % k, (n,)) if o in 'ua' else None; X0 = None if X is None else D.copyarr(X)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); operate(s, els, o, X)
        for m in M:
            if o == 'i' and 'h' in m.kind: m.up = D.np.zeros((n,))
            if o == 'u' and 'h' in m.kind: m.up = X0
            if o in 'pr' and 'm' in m.kind: m.on = o == 'r'
            if o == 'a' and 'a' in m.kind: m.start = X0
        if X is not None: D.same('displacement not modified', X, X0)
        if not D.sym: look('b%d' % k)
    if D.sym: look('b')
    s.reset_real_mu()
    for m in M:
        if 'm' in m.kind: m.on = True
    for m, e in zip(M, els): D.true('friction restored', e.on == m.on)
    D.true('other systems untouched', oe.on and oe.start is None); D.eq('other systems untouched', oe.up, D.np.zeros((n,)))
    D.true('elements are only asked for what they support: %s' % (log[:1] or ''), not log)
    D.same('stiffness not modified', K, Ks); D.same('load not modified', F, Fs)

@contract('C22', num=600, budget=30, maxcfg=80)
def damping(D):
    """constructor and later damping changes in any sequence: exactly the requested matrix, unchanged when nothing is given"""
    n = D.pick('n', [1, 2, 3], sym=[1, 2]); vs = D.mod('vibration_system'); M, K = D.real('M', (n, n)), D.real('K', (n, n)); k0 = D.pick('constructor', ['none', 'C', 'ab', 'both']); kw = {}; C = D.np.zeros((n, n))
    if k0 in ('C', 'both'): kw['C'] = C = D.real('C', (n, n)); C = D.copyarr(C)
    if k0 in ('ab', 'both'): ab = D.real('ab', (2,)); kw['ab'] = D.pick('type', [list, tuple, np.asarray], sym=[list, tuple])(ab); C = M * ab[0] + K * ab[1]
    keep = [D.copyarr(v) for v in (M, K)]; s = vs.VibrationSystem(M, K, **kw); D.eq('damping from the constructor', s.C, C)
    for k in range(D.pick('changes', [1, 2, 4], sym=[1, 2])):
        o = D.pick('change%d' % k, ['none', 'C', 'ab', 'both']); kw = {}
        if o in ('C', 'both'): c = D.real('C%d' % k, (n, n)); kw['C'] = c; C = D.copyarr(c)
        if o in ('ab', 'both'): ab = D.real('ab%d' % k, (2,)); kw['ab'] = [ab[0], ab[1]]; C = keep[0] * ab[0] + keep[1] * ab[1]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); s.set_new_C(**kw)
        D.eq('requested damping', s.C, C); D.eq('mass unchanged', s.M, keep[0]); D.eq('stiffness unchanged', s.K, keep[1])
        if o in ('C', 'both'): D.same('given matrix not modified', kw['C'], kw['C'])
    D.same('arguments not modified', M, keep[0]); D.same('arguments not modified', K, keep[1])

def real_elements(D, n, kinds, tag):
    els = []
    for j, k in enumerate(kinds):
        r = np.random.default_rng(int(D.picks['element seed'] * 17 + j)); Q, T_ = r.uniform(-1, 1, (3, n)), r.uniform(-1, 1, (n, 3)); kt, Fs, mu = r.uniform(0.5, 2, 3)
        if k == 'cubic': e = D.mod('nlforces.cubic_stiffness').CubicForce(Q[:1], T_[:, :1], np.array([kt]))
        if k == 'spring': e = D.mod('nlforces.unilateral_spring').UnilateralSpring(Q[:1], T_[:, :1], kt)
        if k == 'jenkins': e = D.mod('nlforces.jenkins_element').JenkinsForce(Q[:1], T_[:, :1], kt, Fs)
        if k == 'vjenkins': e = D.mod('nlforces.vector_jenkins').VectorJenkins(Q[:1], T_[:, :1], kt, Fs)
        if k == 'iwan': e = D.mod('nlforces.iwan4_element').Iwan4Force(Q[:1], T_[:, :1], kt, Fs, -0.3, 0.5, Nsliders=6)
        if k == 'dry2': e = D.mod('jax.nlforces.elastic_dry_fric_2d').ElasticDryFriction2D(Q[:2], T_[:, :2], kt, 2 * kt, mu)
        if k == 'dry3': e = D.mod('jax.nlforces.elastic_dry_fric_3d').ElasticDryFriction3D(Q, T_, kt, 2 * kt, mu)
        els.append(e)
    return els
FRIC = ['jenkins', 'vjenkins', 'dry2', 'dry3']

@contract('C22', num=150, sym=False)
def real(D):
    """the same with the package's own elements against identically built elements operated one by one"""
    n = D.pick('n', [2, 3]); kinds = [D.pick('element%d' % k, ['cubic', 'spring', 'jenkins', 'vjenkins', 'dry2', 'dry3', 'iwan']) for k in range(D.pick('count', [1, 2, 4]))]; D.pick('element seed', list(range(1000)))
    K, F = D.real('K', (n, n)), D.real('F', (n,)); s = D.mod('vibration_system').VibrationSystem(np.eye(n), K); A, B = real_elements(D, n, kinds, 'a'), real_elements(D, n, kinds, 'b')
    for e in A: s.add_nl_force(e)
    s.init_force_history(); [e.init_history() for e, k in zip(B, kinds) if k in FRIC + ['iwan']]
    opts = 'iuff' if 'iwan' in kinds else 'iuprff'; hist = [k in FRIC + ['iwan'] for k in kinds]
    for k in range(D.pick('length', [2, 5, 9])):
        o = D.pick('op%d' % k, list(opts)); X = D.real('X%d' % k, (n,))
        if o == 'f':
            R, J = s.static_res(X, F); g = [e.force(X) for e in B]
            D.eq('static residual', R, K @ X + sum((np.asarray(f[0]) for f in g), np.zeros(n)) - F); D.eq('static slope', J, K + sum((np.asarray(f[1]) for f in g), np.zeros((n, n)))); continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); operate(s, A, o, X)
        for e, t, h in zip(B, kinds, hist):
            if o == 'i' and h: e.init_history()
            if o == 'u' and h: e.force(X, update_hist=True)
            if o in 'pr' and t in FRIC: (e.set_prestress_mu if o == 'p' else e.reset_real_mu)()
    if 'iwan' not in kinds: s.reset_real_mu(); [e.reset_real_mu() for e, t in zip(B, kinds) if t in FRIC]
    X = D.real('Xend', (n,))
    for e, g in zip(A, B): D.eq('element state', np.asarray(e.force(X)[0]), np.asarray(g.force(X)[0]))
