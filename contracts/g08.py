"""C08 for any number of sliders and harmonics: the slider set of the constructor, and one step from any slider history."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum
from .g07 import marching

def at(x, *i):
    x = g.as_g(x); return val(x.get(i[len(i) - x.ndim:] if x.ndim < len(i) else i))

def build(G, Ns, alpha):
    kt, Fs, chi, beta = (G.scalar(x) for x in ('kt', 'Fs', 'chi', 'beta'))
    for x in (kt, Fs, beta): G.assume(x > 0)
    G.assume(chi > -1)
    e = G.mod('nlforces.iwan4_element').Iwan4Force(G.array('Q', 1, 1), G.array('T', 1, 1), kt, Fs, chi, beta, Nsliders=Ns, alphasliders=alpha)
    if any(getattr(e, k, None) is None for k in ('phisliders', 'sliderweights', 'up', 'fpsliders')): raise T.Unsupported('slider state not visible')
    return e, kt, Fs, chi, beta

@gen('C08', budget=60, replay=('static', 'strength'))
def sliders_any_number(G):
    """midpoints of graded intervals of [0, phimax] and the macroslip slider; weights are density times interval length"""
    Ns = G.size('Ns', 1); graded = G.pick('graded', [False, True]); alpha = G.scalar('alpha') if graded else 1.0
    if graded: G.assume(alpha > 1)
    e, kt, Fs, chi, beta = build(G, Ns, alpha); i = G.index('i', Ns)
    den = beta + (chi + 1) / (chi + 2); phimax = Fs * (1 + beta) / kt / den
    d1 = phimax * (alpha - 1) / (alpha ** Ns - 1) if graded else phimax / Ns
    width = lambda j: d1 * alpha ** j if graded else d1
    pos = gsum(0, i + 1, width) - width(i) / 2
    G.true('number of sliders', g.same_dim(g.as_g(e.phisliders).shape[0], Ns + 1) and g.same_dim(g.as_g(e.sliderweights).shape[0], Ns + 1) and g.same_dim(g.as_g(e.fpsliders).shape[0], Ns + 1))
    G.eq('slider positions', at(e.phisliders, i), pos); G.eq('macroslip slider', at(e.phisliders, Ns), phimax)
    G.eq('slider weights', at(e.sliderweights, i), Fs * (chi + 1) / phimax ** (chi + 2) / den * pos ** chi * width(i)); G.eq('weight of the macroslip slider', at(e.sliderweights, Ns), Fs * beta / phimax / den)
    G.eq('no force at the start', at(e.fpsliders, i), T.ZERO); G.eq('zero start position', at(e.up), T.ZERO)

@gen('C08', budget=60, replay=('static', 'cycle'))
def iwan_step(G):
    """one step from any admissible slider history: weighted sum of stick/slip sliders, derivative of the active ones through the
    history, new history exactly when asked"""
    Ns = G.size('Ns', 1); n = Ns + 1; harmonic = G.pick('harmonic', [True, False]); zero = G.pick('zero', [True, False]) if harmonic else True; keep = G.pick('update', [True, False])
    e, kt, Fs, chi, beta = build(G, Ns, 1.0); u, v, up = G.scalar('u'), G.scalar('v'), G.scalar('up'); k = G.index('k', n)
    phi = lambda j: T.app('ph', j); w = lambda j: T.app('sw', j); fs = lambda j: T.app('fs', j)
    old = G.array('fs', n); vec = lambda x: g.new((1,), lambda i: x)
    e.phisliders, e.sliderweights, e.fpsliders, e.up, e.fp = g.new((n,), lambda i: phi(i[0]) ** 2), G.array('sw', n), old, vec(up), vec(T.var('fp0'))         # limits are nonnegative
    lim = lambda j: phi(j) ** 2; x = lambda j: u - up + fs(j); stick = lambda j: T.and_(x(j) <= lim(j), x(j) >= -lim(j)); f = lambda j: T.ite(x(j) > lim(j), lim(j), T.ite(x(j) < -lim(j), -lim(j), x(j)))
    if harmonic:
        nh = G.size('nh', 1); nhc = 2 * nh + (1 if zero else 0); h = G.harmonics(zero, nh); c = G.index('c', nhc)
        e.init_history_harmonic(vec(T.var('s0')), h)
        if any(getattr(e, q, None) is None for q in ('dupduh', 'dfpduh', 'dfpslidersduh')): raise T.Unsupported('derivative history not visible')
        G.eq('start of the slider forces', at(e.fpsliders, k), T.ZERO); G.eq('start of the slider derivatives', at(e.dfpslidersduh, k, c), T.ZERO); G.eq('start position', at(e.up, T.ZERO), T.var('s0'))
        G.eq('derivative of the start position', at(e.dupduh, c), T.UNIT if g.yes(T.cmp_(c, '==', T.ZERO)) else T.ZERO)
        e.fpsliders, e.up = old, vec(up); e.dupduh, e.dfpduh, e.dfpslidersduh = G.array('dup', nhc), g.new((1, 1, nhc), lambda i: T.app('dfp', i[2])), G.array('dfs', n, nhc); cst = G.array('cst', nhc)
        F, J, V = e.instant_force_harmonic(vec(u), vec(v), h, cst, update_prev=keep)
        ds = lambda j: T.ite(stick(j), T.app('cst', c) - T.app('dup', c) + T.app('dfs', j, c), T.ZERO)
        G.eq('weighted slider sum', at(F, T.ZERO), gsum(0, n, lambda j: w(j) * f(j)))
        G.eq('derivative of the active sliders with the history', at(J, T.ZERO, T.ZERO, c), gsum(0, n, lambda j: w(j) * ds(j))); G.eq('derivative in the velocity', at(V, T.ZERO, T.ZERO, c), T.ZERO)
        if keep: G.eq('new derivative of the position', at(e.dupduh, c), T.app('cst', c)); G.eq('new slider derivatives', at(e.dfpslidersduh, k, c), ds(k))
    else:
        e.Q, e.T = G.array('Q', 1, 1), G.array('T', 1, 1); X = G.array('X', 1); q0, t0, x0 = T.app('Q', T.ZERO, T.ZERO), T.app('T', T.ZERO, T.ZERO), T.app('X', T.ZERO)
        sub = {g.vid(u): q0 * x0}
        F, J = e.force(X, update_hist=keep)
        G.eq('weighted slider sum', at(F, T.ZERO), t0 * gsum(0, n, lambda j: w(j) * T.subst(f(j), sub))); G.eq('slope of the active sliders', at(J, T.ZERO, T.ZERO), t0 * q0 * gsum(0, n, lambda j: w(j) * T.subst(T.ite(stick(j), T.UNIT, T.ZERO), sub)))
        f, u = (lambda j, f=f: T.subst(f(j), sub)), q0 * x0
    G.eq('new slider forces' if keep else 'slider forces kept', at(e.fpsliders, k), f(k) if keep else fs(k)); G.eq('new position' if keep else 'position kept', at(e.up, T.ZERO), u if keep else up)
    G.eq('the given slider forces are not overwritten', at(old, k), fs(k)); nw = f(k); G.true('every slider within its limit', T.and_(nw <= lim(k), nw >= -lim(k)))

@gen('C08', budget=60, replay=('cycle',), name='marching_any_length')
def march8(G): marching(G)
