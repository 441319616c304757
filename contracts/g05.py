"""C05 for any number of degrees of freedom, local displacements and time points: the element-wise laws"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum, Wrt

def check(G, mk, spec, odd=True, vel=False, slope=None):
    """force = T f(Q X) with its exact slope; history force and slopes entry by entry"""
    N, n, Nt = G.size('N', 1), G.size('n', 1), G.size('Nt', 1)
    el = mk(G.array('Q', n, N), G.array('T', N, n), n); part = G.pick('part', ['force', 'slope', 'odd', 'history']); r, s = G.index('r', N), G.index('s', N)
    X = G.array('X', N); u = lambda k: gsum(0, N, lambda a: T.app('Q', k, a) * T.app('X', a))
    if part == 'history':
        t, k, q = G.index('t', Nt), G.index('k', n), G.index('q', n)
        ut, vt = G.array('u', Nt, n), G.array('v', Nt, n); ft, du, dv = (g.as_g(x) for x in el.local_force_history(ut, vt))
        G.eq('histories not modified', ut.get((t, k)), T.app('u', t, k)); G.eq('velocities not modified', vt.get((t, k)), T.app('v', t, k))
        G.true('size of the history', g.same_dim(ft.shape[0], Nt) and g.same_dim(ft.shape[1], n))
        x = T.app('v' if vel else 'u', t, k); f = ft.get((t, k)); G.eq('history law', f, spec(x, k))
        G.eq('history slope', du.get((t, k)), slope(x, k) if slope else Wrt('u', (t, k), {}).d(f)); G.eq('history velocity slope', dv.get((t, k)), Wrt('v', (t, k), {}).d(f))
        G.eq('entries do not depend on other entries', Wrt('u', (t, q), {}).d(f) if g.yes(T.not_(T.cmp_(q, '==', k))) else 0, 0)
        return
    F, J = el.force(X); F, J = g.as_g(F), g.as_g(J)
    G.eq('input not modified', X.get((r,)), T.app('X', r))
    if part == 'force':
        G.true('size of the force', g.same_dim(F.shape[0], N)); G.eq('force law', F.get((r,)), gsum(0, n, lambda k: T.app('T', r, k) * spec(u(k), k)))
    elif part == 'slope':
        G.true('size of the slope', g.same_dim(J.shape[0], N) and g.same_dim(J.shape[1], N)); G.eq('force slope', J.get((r, s)), gsum(0, n, lambda k: T.app('T', r, k) * slope(u(k), k) * T.app('Q', k, s)) if slope else Wrt('X', (s,), {}).d(F.get((r,))))
    elif odd: G.eq('odd', g.as_g(el.force(g.new((N,), lambda i: -T.app('X', *i)))[0]).get((r,)), -F.get((r,)))

def coef(G, name, n):
    if G.pick(name + ' kind', ['number', 'vector']) == 'number': return (lambda a: (a, lambda k: a))(G.scalar(name))
    return G.array(name, n), lambda k: T.app(name, k)

def powers(G, mod, cls, p, vel=False):
    c = {}
    def mk(Q, Tm, n): c['a'], c['k'] = coef(G, 'alpha', n); return getattr(G.mod(mod), cls)(Q, Tm, c['a'])
    check(G, mk, lambda u, k: c['k'](k) * u ** p, vel=vel)

@gen('C05', budget=60, replay=('cubic',))
def cubic_any_size(G): powers(G, 'nlforces.cubic_stiffness', 'CubicForce', 3)
@gen('C05', budget=60, replay=('quintic',))
def quintic_any_size(G): powers(G, 'nlforces.quintic_stiffness', 'QuinticForce', 5)
@gen('C05', budget=60, replay=('damping',))
def damping_any_size(G): powers(G, 'nlforces.cubic_damping', 'CubicDamping', 3, vel=True)

@gen('C05', budget=60, replay=('unilateral',))
def unilateral_any_size(G):
    c = {}
    def mk(Q, Tm, n):
        for x in ('k', 'P', 'delta'): c[x] = coef(G, x, n)
        return G.mod('nlforces.unilateral_spring').UnilateralSpring(Q, Tm, c['k'][0], Npreload=c['P'][0], delta=c['delta'][0])
    k_, P, d = (lambda k: c['k'][1](k)), (lambda k: c['P'][1](k)), (lambda k: c['delta'][1](k)); contact = lambda u, k: k_(k) * (u - d(k)) > 0      # for a positive stiffness: u > delta
    check(G, mk, lambda u, k: T.ite(contact(u, k), k_(k) * (u - d(k)) - P(k), -P(k)), odd=False, slope=lambda u, k: T.ite(contact(u, k), k_(k), T.ZERO))

@gen('C05', budget=60, replay=('iwan_backbone',))
def iwan_backbone_any_size(G):
    kt, Fs, beta, chi = (G.scalar(x) for x in ('kt', 'Fs', 'beta', 'chi'))
    for x in (kt, Fs, beta): G.assume(x > 0)
    G.assume(chi > -1)
    r = kt * (beta + (chi + 1) / (chi + 2)) / (Fs * (1 + beta))
    def spec(u, k):
        a = abs(u); s = T.ite(u > 0, T.UNIT, T.ite(u < 0, -T.UNIT, T.ZERO))
        return s * T.ite(a < 1 / r, kt * a - kt * r ** (1 + chi) / ((1 + beta) * (chi + 2)) * a ** (2 + chi), Fs)
    check(G, lambda Q, Tm, n: G.mod('nlforces.iwan_bb_conserve').ConservativeIwanBB(Q, Tm, kt, Fs, chi, beta), spec, slope=lambda u, k: T.ite(abs(u) < 1 / r, kt - kt * r ** (1 + chi) / (1 + beta) * abs(u) ** (1 + chi), T.ZERO))
