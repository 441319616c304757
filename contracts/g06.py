"""C06 for any number of degrees of freedom, local displacements, harmonics and time points.

The Fourier synthesis and analysis are used through the contract checked in C03: both act linearly and column by column,
synthesis(X)(t) = sum_c B(t, c) X(c), analysis(x)(c) = sum_t A(c, t) x(t), B independent of X and A of x."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import GNP, val, lift, Wrt, gsum

class Motion:
    def __init__(self, G):
        self.G = G; G.peel(False); zero = G.pick('zero', [True, False])
        self.N, self.n = N, n = G.size('N', 1, block=True), G.size('n', 1, block=True)
        self.nh = nh = G.size('nh', 1); self.z = z = 1 if zero else 0; self.h = h = G.harmonics(zero, nh); self.nhc = nhc = 2 * nh + z
        self.Nt = Nt = G.size('Nt', 4)
        self.Q, self.Tm, self.U = G.array('Q', n, N), G.array('T', N, n), G.array('U', N * nhc); self.w = G.scalar('w'); G.assume(self.w > 0)
        hu = G.mod('utils.harmonic')
        def synth(Nt_, h_, X, order):
            if h_ is not h or not g.same_dim(Nt_, Nt): raise T.Unsupported('synthesis with other settings')
            X = g.as_g(X); f = X.frozen(); G.true('coefficients given to the synthesis', g.same_dim(X.shape[0], nhc)); B = 'B%d' % order
            return g.new((Nt, X.shape[1]), lambda idx: gsum(0, nhc, lambda c: T.app(B, idx[0], c) * val(f((c, idx[1])))))
        def analysis(h_, x):
            if h_ is not h: raise T.Unsupported('analysis with other harmonics')
            x = g.as_g(x); f = x.frozen(); G.true('time points given to the analysis', g.same_dim(x.shape[0], Nt))
            return g.new((nhc, x.shape[1]), lambda idx: gsum(0, Nt, lambda t: T.app('A', idx[0], t) * val(f((t, idx[1])))))
        G.patch(hu, 'time_series_deriv', synth); G.patch(hu, 'get_fourier_coeff', analysis)
        self.r, self.c, self.s, self.d = G.index('r', N), G.index('c', nhc), G.index('s', N), G.index('d', nhc)
    def u(self, t, k, order=0):
        """local displacement k at time t (order 1: its derivative over w)"""
        return gsum(0, self.nhc, lambda c: T.app('B%d' % order, t, c) * self.Unl(c, k))
    def Unl(self, c, k):
        return gsum(0, self.N, lambda a: T.app('Q', k, a) * T.app('U', self.N * c + a))
    def force(self, f):
        """row (r, c) of the global harmonic force of the local force f(t, k)"""
        return gsum(0, self.n, lambda k: T.app('T', self.r, k) * gsum(0, self.Nt, lambda t: T.app('A', self.c, t) * val(f(t, k))))

@gen('C06', budget=100, replay=('instantaneous',))
def instantaneous_any_size(G):
    """InstantaneousForce.aft for every element-wise local law f(u, u') with exact local slopes"""
    m = Motion(G); nf = G.mod('nlforces.nonlinear_force'); n, Nt, N = m.n, m.Nt, m.N; opaque = {}
    seen = []
    class E(nf.InstantaneousForce):
        def __init__(self): self.Q = m.Q; self.T = m.Tm
        def local_force_history(self, u, v):
            u, v = g.as_g(u), g.as_g(v); fu, fv = u.frozen(), v.frozen(); seen.append((u, v))
            opaque['f'] = lambda a, w: T.app('fu', *a) * T.deriv(val(fu(a)), w) + T.app('fv', *a) * T.deriv(val(fv(a)), w)
            return tuple(g.new((Nt, n), (lambda q: lambda idx: T.app(q, *idx))(q)) for q in ('f', 'fu', 'fv'))
    F, J, dw = E().aft(m.U, m.w, m.h, Nt, 1e-7)
    G.true('the local law is evaluated', len(seen) == 1)
    row, col = N * m.c + m.r, N * m.d + m.s
    Fi = val(F.get((row,)))
    t, k = G.index('t', Nt), G.index('k', n); kind = G.pick('obligation', ['force', 'motion', 'dU', 'dw'])
    if kind == 'force':
        G.true('size of the force', g.same_dim(g.as_g(F).shape[0], N * m.nhc)); G.eq('harmonics of the local force', Fi, m.force(lambda t, k: T.app('f', t, k)))
    elif kind == 'motion':
        G.eq('displacements the law is evaluated on', seen[0][0].get((t, k)), m.u(t, k)); G.eq('velocities the law is evaluated on', seen[0][1].get((t, k)), m.w * m.u(t, k, 1))
    elif kind == 'dU':
        G.true('size of the derivative', all(g.same_dim(x, N * m.nhc) for x in g.as_g(J).shape)); G.eq('derivative in the displacements', J.get((row, col)), Wrt('U', (col,), opaque).d(Fi))
    else: G.eq('derivative in frequency', dw.get((row,)), Wrt('w', None, opaque).d(Fi))

@gen('C06', budget=100, replay=('hysteretic',))
def hysteretic_any_size(G):
    """HystereticForce.aft for every local force history with exact derivatives in the local harmonics"""
    m = Motion(G); nf = G.mod('nlforces.nonlinear_force'); n, Nt, N, nhc = m.n, m.Nt, m.N, m.nhc; opaque = {}; seen = []
    class E(nf.HystereticForce):
        def __init__(self): self.Q = m.Q; self.T = m.Tm
        def local_force_history(self, u, v, h, cst, u0, **k):
            seen.append((g.as_g(u), g.as_g(v), g.as_g(cst), g.as_g(u0), k))
            if h is not m.h: raise T.Unsupported('other harmonics')
            opaque['f'] = lambda a, w: gsum(0, n, lambda q: gsum(0, nhc, lambda c: T.app('fh', a[0], a[1], q, c) * T.deriv(m.Unl(c, q), w)))
            return g.new((Nt, n), lambda idx: T.app('f', *idx)), g.new((Nt, n, n, nhc), lambda idx: T.app('fh', *idx)), g.new((Nt, n, n, nhc), lambda idx: T.app('fvh', *idx))
    F, J, dw = E().aft(m.U, m.w, m.h, Nt, 1e-7)
    G.true('the local history is evaluated once', len(seen) == 1); u, v, cst, u0, kw = seen[0]
    row, col = N * m.c + m.r, N * m.d + m.s; Fi = val(F.get((row,))); t, k = G.index('t', Nt), G.index('k', n)
    kind = G.pick('obligation', ['force', 'motion', 'dU', 'dw'])
    if kind == 'force':
        G.true('size of the force', g.same_dim(g.as_g(F).shape[0], N * nhc)); G.eq('harmonics of the local force', Fi, m.force(lambda t, k: T.app('f', t, k)))
    elif kind == 'motion':
        G.eq('displacements the law is evaluated on', u.get((t, k)), m.u(t, k)); G.eq('velocities the law is evaluated on', v.get((t, k)), m.w * m.u(t, k, 1))
        G.eq('basis given to the law', cst.get((t, m.d)), T.app('B0', t, m.d)); G.eq('reference displacement given to the law', u0.get((k,)), m.Unl(T.ZERO, k))
    elif kind == 'dU':
        G.true('size of the derivative', all(g.same_dim(x, N * nhc) for x in g.as_g(J).shape)); G.eq('derivative in the displacements', J.get((row, col)), Wrt('U', (col,), opaque).d(Fi))
    else: G.eq('derivative in frequency', dw.get((row,)), Wrt('w', None, opaque).d(Fi))
