"""C24 for any number of degrees of freedom and nonlinear elements: the function given to the integrator is the equation of
motion with its exact variation.  The elements return an opaque force f and its exact slope p; inv(M) is used through its contract."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, gsum

@gen('C24', budget=100, replay=('equation', 'orbit'))
def equation_any_size(G):
    G.peel(False); vs = G.mod('vibration_system'); nf = G.mod('nlforces.nonlinear_force'); n = G.size('n', 1, block=True); ne = G.size('elements', 0); N = 4 * n * n + 4 * n
    M, C, K = (G.array(x, n, n) for x in 'MCK'); seen = []; A = lambda q, *i: T.app(q, *i)
    class E(nf.NonlinearForce):
        def __init__(self, k): self.k = k
        def nl_force_type(self): return 0
        def force(self, X):
            k = self.k; seen.append(('force', g.as_g(X).frozen(), g.as_g(X).shape))
            return g.new((n,), lambda i: A('f', k, i[0])), g.new((n, n), lambda i: A('p', k, *i))
    def inv(X):
        i, j = G.index('mi', n), G.index('mj', n); G.eq('matrix inverted', g.as_g(X).get((i, j)), A('M', i, j)); return g.new((n, n), lambda i: A('Mi', *i))
    def solve(X, b):
        Y = inv(X); return Y @ b
    g.LIN.update(inv=inv, solve=solve)
    sy = vs.VibrationSystem(M, K, C=C); sy.nonlinear_forces = g.GList(ne, E)
    Fl = G.array('Fl', 2 * n); w, t = G.scalar('w'), G.scalar('t'); G.assume(w > 0); Nt = G.size('Nt', 1)
    Uw = G.array('Uw', 2 * n + 1); w = val(Uw.get((2 * n,))); G.assume(w > 0)
    y = lambda i: A('y', i); fs = {}
    fn = []
    class Stop(Exception): pass
    def ivp(f, span, y0, *a, **k):
        if a or set(k) - {'max_step', 't_eval', 'rtol', 'atol', 'method'}: raise T.Unsupported('other integration protocol')
        y0 = g.as_g(y0)
        if not g.same_dim(y0.shape[0], N): raise T.Unsupported('other state layout')
        fn.append((f, span, y0))
        if what != 'end': raise Stop
        class R(dict): __getattr__ = dict.__getitem__
        return R(y=G.array('Y', N, 17), t=k.get('t_eval'), success=True, status=0)
    if not hasattr(vs, 'solve_ivp'): raise T.Unsupported('solve_ivp not used')
    G.patch(vs, 'solve_ivp', ivp)
    what = G.pick('obligation', ['start', 'state', 'variation', 'frequency', 'end'])
    aux = G.pick('aux', [False, True]) if what == 'end' else False; res = None
    try: res = sy.shooting_res(Uw, Fl, Nt=16, return_aux=aux)
    except Stop: pass
    if not fn: raise T.Unsupported('no integration')
    f, span, y0 = fn[0]
    # position of an entry: block b of the state (0: displacement, 1: velocity) and degree of freedom i
    b = G.pick('block', [0, 1]); i = G.index('i', n); r = n * b + i
    if what == 'start':
        G.eq('start of the period', val(span[0]), T.ZERO); G.eq('length of the period', val(span[1]) * w, 2 * T.var('pi'))
        c = G.pick('column', [0, 1]); j = G.index('j', n); s = n * c + j
        G.eq('start state', y0.get((r,)), A('Uw', r)); G.eq('start of the variation', y0.get((2 * n + 2 * n * r + s,)), T.UNIT if b == c and g.yes(T.cmp_(i, '==', j)) else T.ZERO); G.eq('start of the frequency sensitivity', y0.get((4 * n * n + 2 * n + r,)), T.ZERO)
        return
    if what == 'end':
        c = G.pick('column', [0, 1]); j = G.index('j', n); s = n * c + j; Y = lambda q: A('Y', q, lift(16)); o = 4 * n * n + 2 * n; mono = Y(2 * n + 2 * n * r + s); wt = 2 * T.var('pi')
        G.true('number of results', len(res) == (4 if aux else 3)); G.true('sizes', g.same_dim(g.as_g(res[0]).shape[0], 2 * n) and all(g.same_dim(x, 2 * n) for x in g.as_g(res[1]).shape + g.as_g(res[2]).shape))
        G.eq('state change over the period', res[0].get((r,)), Y(r) - A('Uw', r)); G.eq('derivative with the state', res[1].get((r, s)), mono - (T.UNIT if b == c and g.yes(T.cmp_(i, '==', j)) else T.ZERO))
        S = lambda f: gsum(0, n, f)
        acc = gsum(0, n, lambda k: A('Mi', i, k) * (A('Fl', k) * T.cos_(wt) + A('Fl', n + k) * T.sin_(wt) - S(lambda j: A('C', k, j) * Y(n + j)) - S(lambda j: A('K', k, j) * Y(j)) - gsum(0, ne, lambda e: A('f', e, k))))
        G.eq('derivative with the frequency', res[2].get((r,)), (acc if b else Y(n + i)) * (-2 * T.var('pi') / (w * w)) + Y(o + r))
        if aux:
            q = G.index('q', 17); G.eq('one-period map', res[3][0].get((r, s)), mono); G.eq('displacements', res[3][1].get((i, q)), A('Y', i, q)); G.eq('velocities', res[3][2].get((i, q)), A('Y', n + i, q))
        e = G.index('e', 2 * n); G.eq('inputs not modified', Fl.get((e,)), A('Fl', e)); e = G.index('e2', 2 * n + 1); G.eq('inputs not modified', Uw.get((e,)), A('Uw', e))
        return
    ya = G.array('y', N); d = g.as_g(f(t, ya)); G.true('size of the derivative', g.same_dim(d.shape[0], N))
    forces = [x for x in seen if x[0] == 'force']; some = g.yes(ne > 0)
    G.true('every element is evaluated', len(forces) >= 1 or not some)
    for x in forces: G.eq('displacements given to the elements', x[1]((i,)), y(i)); G.true('size of the displacements', g.same_dim(x[2][0], n))
    F = lambda k: gsum(0, ne, lambda e: A('f', e, k)); P = lambda k, j: gsum(0, ne, lambda e: A('p', e, k, j)); Mi = lambda i, f: gsum(0, n, lambda k: A('Mi', i, k) * f(k)); S = lambda f: gsum(0, n, f)
    wt = w * t
    if what == 'state':
        acc = Mi(i, lambda k: A('Fl', k) * T.cos_(wt) + A('Fl', n + k) * T.sin_(wt) - S(lambda j: A('C', k, j) * y(n + j)) - S(lambda j: A('K', k, j) * y(j)) - F(k))
        G.eq('velocity and acceleration of the equation of motion', d.get((r,)), acc if b else y(n + i)); return
    def jac(z):        # linearised equation applied to z
        return -Mi(i, lambda k: S(lambda j: (A('K', k, j) + P(k, j)) * z(j)) + S(lambda j: A('C', k, j) * z(n + j))) if b else z(n + i)
    if what == 'variation':
        c = G.pick('column', [0, 1]); j = G.index('j', n); s = n * c + j
        G.eq('variation with the initial state', d.get((2 * n + 2 * n * r + s,)), jac(lambda q: y(2 * n + 2 * n * q + s)))
    else:
        o = 4 * n * n + 2 * n
        G.eq('variation with the frequency', d.get((o + r,)), jac(lambda q: y(o + q)) + (Mi(i, lambda k: t * (A('Fl', n + k) * T.cos_(wt) - A('Fl', k) * T.sin_(wt))) if b else T.ZERO))
