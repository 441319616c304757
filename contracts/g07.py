"""Hysteretic elements for any number of time points, harmonics and sliders.

marching: loop contracts of HystereticForce.local_force_history over an arbitrary element (any force and derivative at every
call), which fix the order of the calls, the instants they are made for and what is returned.  step: one call of the element's
law from an arbitrary admissible history.  Together: the law holds at every instant of every history (induction)."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum, lift

class Cycles:
    """before a cycle: c cycles are done; for c > 0 the stored history is that of cycle c - 1"""
    def __init__(self, r): self.r = r
    def entry(self, v): self.r.G.true('history started before the first cycle', self.r.started == 1 and not self.r.calls)
    def havoc(self, v):
        r = self.r; G, n, nhc, Nt = r.G, r.n, r.nhc, r.Nt; self.seen = True
        r.first = g.yes(T.var('c0') > 0)
        if r.first: r.c = T.ZERO; return {k: v[k] for k in ('its', 'ft', 'fp', 'acheck', 'rcheck', 'dfduh', 'dfdudh') if k in v}
        r.c = T.var('c', 'I'); G.assume(r.c >= 1); G.assume(r.c <= r.most)
        prev = r.c - 1; last = lambda j, c: T.app('f', c, Nt - 1, j)
        out = dict(its=r.c, ft=g.new((Nt, n), lambda i: T.app('f', prev, *i)), dfduh=g.new((Nt, n, n, nhc), lambda i: T.app('fh', prev, *i)), dfdudh=g.new((Nt, n, n, nhc), lambda i: T.app('fd', prev, *i)), fp=g.new((n,), lambda i: last(i[0], prev)))
        a = [T.var('change%d' % j) for j in range(n)]; rel = [T.var('relative%d' % j) for j in range(n)]
        for x in a + rel: G.assume(x >= 0)
        r.checks = (a, rel); out['acheck'], out['rcheck'] = g.GNP.array(a), g.GNP.array(rel)
        return out
    def step(self, v):
        r = self.r; G, n, Nt = r.G, r.n, r.Nt; j = r.j; self.turned = True
        G.eq('cycles counted', val(v['its']), r.c + 1); G.true('within the limit of cycles', val(v['its']) <= r.most); prev = (lambda q: T.app('f', r.c - 1, Nt - 1, q)) if not r.first else (lambda q: T.app('start', lift(q)))
        for q in range(n):
            ch = abs(T.app('f', r.c, Nt - 1, T.lift(q)) - prev(T.lift(q))); G.eq('change of the end force', g.as_g(v['acheck']).get((q,)), ch)
            G.eq('end force kept', g.as_g(v['fp']).get((q,)), T.app('f', r.c, Nt - 1, T.lift(q)))
        G.eq('history of the cycle', v['ft'].get((r.t, j)), T.app('f', r.c, r.t, j)); G.eq('derivatives of the cycle', v['dfduh'].get((r.t, j, r.q, r.d)), T.app('fh', r.c, r.t, j, r.q, r.d))

class Instants:
    """before instant k of a cycle: the law was called once for every earlier instant, in order; those rows hold its results"""
    def __init__(self, r): self.r = r
    def entry(self, v): self.v = dict(v); self.r.G.true('no call before the first instant of the cycle', not self.r.calls)
    def havoc(self, v):
        r = self.r; G, n, nhc, Nt = r.G, r.n, r.nhc, r.Nt; k = r.k = T.var('k', 'I'); G.assume(k >= 0); G.assume(k <= Nt); self.old = {q: g.as_g(v[q]).frozen() for q in ('ft', 'dfduh')}
        row = lambda nm, s: lambda i: T.app(s, r.c, *i) if g.yes(i[0] < k) else val(self.old.get(nm, lambda i: T.ZERO)(i))
        out = dict(ft=g.new((Nt, n), row('ft', 'f')), dfduh=g.new((Nt, n, n, nhc), row('dfduh', 'fh')), ti=k - 1)
        if 'dfdudh' in v: out['dfdudh'] = g.new((Nt, n, n, nhc), row('dfdudh', 'fd')); self.old['dfdudh'] = g.as_g(v['dfdudh']).frozen(); out['dfdudh'] = g.new((Nt, n, n, nhc), row('dfdudh', 'fd'))
        return out
    def item(self, it):
        r = self.r; g.from_zero(it); r.G.true('every instant once', g.same_dim(it.hi, r.Nt))
        return ('turn', it.item(r.k)) if g.yes(r.k < r.Nt) else ('exit', None)
    def step(self, v):
        r = self.r; G = r.G; G.true('one call per instant', len(r.calls) == 1)
        for nm, s, i in (('ft', 'f', (r.k, r.j)), ('dfduh', 'fh', (r.k, r.j, r.q, r.d))): G.eq('row of the instant', v[nm].get(i), T.app(s, r.c, *i))
        t = r.t; 
        if g.yes(t < r.k): G.eq('earlier rows kept', v['ft'].get((t, r.j)), T.app('f', r.c, t, r.j)); G.eq('earlier rows kept', v['dfduh'].get((t, r.j, r.q, r.d)), T.app('fh', r.c, t, r.j, r.q, r.d))

def marching(G):
    G.peel(False)
    class R: pass
    r = R(); r.G = G; r.n = n = G.pick('displacements', [1, 2]); r.Nt = Nt = G.size('Nt', 1); zero = G.pick('zero', [True, False]); r.nh = G.size('nh', 1); r.nhc = nhc = 2 * r.nh + (1 if zero else 0); h = G.harmonics(zero, r.nh); r.calls = []; r.started = 0; r.first = True; r.c = T.ZERO; r.k = T.ZERO
    r.j, r.q = (T.lift(G.pick(s, list(range(n)))) for s in ('row', 'column')); r.t, r.d = G.index('t', Nt), G.index('d', nhc); r.most = G.size('max_repeats', 1); at, rt = G.scalar('atol'), G.scalar('rtol'); G.assume(at > 0); G.assume(rt > 0)
    u, v, cst, u0 = G.array('u', Nt, n), G.array('v', Nt, n), G.array('cst', Nt, nhc), G.array('u0', n); nf = G.mod('nlforces.nonlinear_force')
    class E(nf.HystereticForce):
        def __init__(self): self.Q = None; self.T = None
        def init_history_harmonic(self, x0, hh=None):
            r.started += 1; G.eq('start position', g.as_g(x0).get((r.j,)), T.app('u0', r.j)); G.true('harmonics of the start', hh is h); self.fp = g.new((n,), lambda i: T.app('start', *i))
        def instant_force_harmonic(self, a, b, hh, cc, update_prev=False):
            G.true('history advanced by every call', bool(update_prev)); G.true('harmonics given', hh is h); i = r.k; r.calls.append(i)
            G.eq('displacement of the instant', g.as_g(a).get((r.j,)), T.app('u', i, r.j)); G.eq('velocity of the instant', g.as_g(b).get((r.j,)), T.app('v', i, r.j)); G.eq('basis of the instant', g.as_g(cc).get((r.d,)), T.app('cst', i, r.d))
            return g.new((n,), lambda x: T.app('f', r.c, i, *x)), g.new((n, n, nhc), lambda x: T.app('fh', r.c, i, *x)), g.new((n, n, nhc), lambda x: T.app('fd', r.c, i, *x))
    cy, ins = Cycles(r), Instants(r); cy.seen = cy.turned = False; G.loop('local_force_history', 0, cy); G.loop('local_force_history', 1, ins)
    ft, fh, fd = E().local_force_history(u, v, h, cst, u0, max_repeats=r.most, atol=at, rtol=rt)
    if not cy.seen: raise T.Unsupported('cycle loop not found')
    G.true('at least one cycle', not r.first)
    if r.first: return
    prev = r.c - 1; G.eq('returned history: the last cycle', ft.get((r.t, r.j)), T.app('f', prev, r.t, r.j)); G.eq('returned derivatives: the last cycle', fh.get((r.t, r.j, r.q, r.d)), T.app('fh', prev, r.t, r.j, r.q, r.d))
    a, rel = r.checks; G.true('stops at the limit or when the cycle repeats', T.or_(T.cmp_(r.c, '>=', r.most), T.and_(*[T.or_(x <= at, y <= rt) for x, y in zip(a, rel)])))

@gen('C07', budget=60, replay=('cycle',), name='marching_any_length')
def march7(G): marching(G)

def clamp(x, lim): return T.ite(x > lim, lim, T.ite(x < -lim, -lim, x))

@gen('C07', budget=60, replay=('cycle', 'static'))
def jenkins_step(G):
    """one step from any admissible history: force law, slip limit, derivatives through the history, new history"""
    zero = G.pick('zero', [True, False]); nh = G.size('nh', 1); nhc = 2 * nh + (1 if zero else 0); h = G.harmonics(zero, nh); cls = G.pick('class', ['jenkins_element.JenkinsForce', 'vector_jenkins.VectorJenkins']); m, c = cls.split('.')
    kt, Fs = G.scalar('kt'), G.scalar('Fs'); G.assume(kt > 0); G.assume(Fs > 0); e = getattr(G.mod('nlforces.' + m), c)(G.array('Q', 1, 1), G.array('T', 1, 1), kt, Fs)
    # start of a history through the public interface
    d = G.index('d', nhc); e.init_history_harmonic(g.new((1,), lambda i: T.var('s0')), h)
    st = [getattr(e, k, None) for k in ('up', 'fp', 'dupduh', 'dfpduh')]
    if any(x is None for x in st): raise T.Unsupported('history not visible')
    at = lambda x, *i: val(g.as_g(x).get(i if g.as_g(x).ndim else ()))
    G.eq('start position', at(st[0], 0), T.var('s0')); G.eq('start force', at(st[1], 0), T.ZERO); G.eq('derivative of the start position', at(st[2], d), T.ONE if False else T.ind(T.cmp_(d, '==', T.ZERO)) if not isinstance(g.yes(T.cmp_(d, '==', T.ZERO)), bool) else T.UNIT if g.yes(T.cmp_(d, '==', T.ZERO)) else T.ZERO); G.eq('derivative of the start force', at(st[3], 0, 0, d), T.ZERO)
    e.up, e.fp, e.dupduh, e.dfpduh = g.new((1,), lambda i: T.var('up')), g.new((1,), lambda i: T.var('fp')), G.array('dup', nhc), g.new((1, 1, nhc), lambda i: T.app('dfp', i[2]))
    up, fp = T.var('up'), T.var('fp'); G.assume(fp <= Fs); G.assume(fp >= -Fs); u = T.var('u'); cst = G.array('cst', nhc); x = kt * (u - up) + fp; f = clamp(x, Fs)
    stick = g.yes(T.and_(x <= Fs, x >= -Fs)); F, J, V = e.instant_force_harmonic(g.new((1,), lambda i: u), g.new((1,), lambda i: T.var('v')), h, cst, update_prev=True)
    G.eq('force law', at(F, 0), f); G.true('within the slip force', T.and_(at(F, 0) <= Fs, at(F, 0) >= -Fs)); want = kt * (T.app('cst', d) - T.app('dup', d)) + T.app('dfp', d) if stick else T.ZERO
    G.eq('derivative through the history', at(J, 0, 0, d), want); G.eq('derivative in the velocity', at(V, 0, 0, d), T.ZERO)
    G.eq('new position', at(e.up, 0), u); G.eq('new force', at(e.fp, 0), f); G.eq('new derivative of the position', at(e.dupduh, d), T.app('cst', d)); G.eq('new derivative of the force', at(e.dfpduh, 0, 0, d), want)
