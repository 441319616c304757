"""C20 for any number of degrees of freedom, modes and frequencies; the eigen solver through its contract (C15): modes V(:, k) with
stiffness values wn(k)^2 for the matrices and the range of modes it is given."""
import io, contextlib
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum, lift

@gen('C20', budget=60, replay=('direct', 'base'))
def response_any_size(G):
    n = G.size('n', 1); ask = G.size('neigs', 1); m = ask if g.yes(ask <= n) else n
    a, b = G.scalar('a'), G.scalar('b'); M, K = G.array('M', n, n), G.array('K', n, n); seen = []
    s = G.mod('vibration_system').VibrationSystem(M, K, ab=[a, b])
    wn = lambda k: T.app('wn', k)
    class Solver:
        def eigs(self, K_, M_=None, subset_by_index=(0, 2)):
            if M_ is None: raise T.Unsupported('another eigenproblem')
            i, j = G.index('ei', n), G.index('ej', n); seen.append(1)
            G.eq('eigenproblem of the stiffness', g.as_g(K_).get((i, j)), T.app('K', i, j)); G.eq('eigenproblem of the mass', g.as_g(M_).get((i, j)), T.app('M', i, j))
            G.eq('lowest mode', val(subset_by_index[0]), T.ZERO); G.eq('highest mode', val(subset_by_index[1]), m - 1)
            return g.new((m,), lambda i: wn(*i) ** 2), G.array('V', n, m)
    many = G.pick('frequencies', ['number', 'array']); nw = G.size('nw', 1) if many == 'array' else T.UNIT
    w = G.array('w', nw) if many == 'array' else G.scalar('w'); q = G.index('q', nw) if many == 'array' else T.ZERO; wq = T.app('w', q) if many == 'array' else w
    sine = G.pick('sine load', [True, False]); kw = dict(Flsin=G.array('fs', n)) if sine else {}
    with contextlib.redirect_stdout(io.StringIO()): X = g.as_g(s.linear_frf(w, G.array('fc', n), Solver(), neigs=ask, **kw))
    G.true('one eigenproblem', len(seen) == 1)
    G.true('one row for every frequency', X.ndim == 2 and g.same_dim(X.shape[0], nw) and g.same_dim(X.shape[1], 2 * n + 1)); r = G.index('r', n)
    f = lambda nm, k: gsum(0, n, lambda j: T.app('V', j, k) * T.app(nm, j))
    def mode(k):
        """amplitudes of the modal equations (wn^2 - w^2) c + w d s = fc, (wn^2 - w^2) s - w d c = fs, d = a + b wn^2"""
        A, D = wn(k) ** 2 - wq ** 2, (a / wn(k) / 2 + b * wn(k) / 2) * 2 * wn(k) * wq; fc = f('fc', k); fs = f('fs', k) if sine else T.ZERO; q2 = A * A + D * D
        return (A * fc - D * fs) / q2, (D * fc + A * fs) / q2
    what = G.pick('part', ['cosine', 'sine', 'frequency', 'modal equations'])
    if what == 'cosine': G.eq('cosine response', X.get((q, r)), gsum(0, m, lambda k: T.app('V', r, k) * mode(k)[0]))
    elif what == 'sine': G.eq('sine response', X.get((q, n + r)), gsum(0, m, lambda k: T.app('V', r, k) * mode(k)[1]))
    elif what == 'frequency': G.eq('frequency', X.get((q, 2 * n)), wq)
    else:
        k = G.index('k', m); c, s_ = mode(k); A, d = wn(k) ** 2 - wq ** 2, a + b * wn(k) ** 2; G.assume(wn(k) > 0); G.assume(A * A + wq ** 2 * d * d > 0)
        G.eq('cosine balance of a mode', A * c + wq * d * s_, f('fc', k)); G.eq('sine balance of a mode', A * s_ - wq * d * c, f('fs', k) if sine else T.ZERO)
