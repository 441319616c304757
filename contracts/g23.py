"""C23 for any number of degrees of freedom, harmonics and extra unknowns"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, gsum

@gen('C23', budget=60, replay=('conditioning',))
def conditioning_any_size(G):
    hu = G.mod('utils.harmonic'); zero = G.pick('zero', [True, False]); z = 1 if zero else 0
    n, nh = G.size('n', 1, block=True), G.size('nh', 1); h = G.harmonics(zero, nh); m = G.size('extra', 1) if G.pick('extra', [True, False]) else 0
    N = n * (2 * nh + z); X = G.array('X', N + m); kind = G.pick('delta', ['number', 'list'])
    if kind == 'number': dl = 0.5; low = lambda k: lift(T.Fr(1, 2)) if hasattr(T, 'Fr') else T.const(0.5)
    else: dl = G.array('dl', nh + z + (1 if m is not 0 else 0)); low = lambda k: T.app('dl', k)
    C = g.as_g(hu.harmonic_wise_conditioning(X, n, h, delta=dl))
    G.true('one value per unknown', g.same_dim(C.shape[0], N + m))
    x = lambda i: abs(T.app('X', i))
    what = G.pick('entry', ['harmonic'] + (['zeroth'] if zero else []) + (['extra'] if m is not 0 else []))
    if what == 'extra':
        e = G.index('e', m); G.eq('extra unknown', C.get((N + e,)), T.maximum_(low(nh + z), x(N + e))); return
    if what == 'zeroth':
        a = G.index('a', n); lo, cnt, k = T.ZERO, n, T.ZERO; i = a
    else:
        k = G.index('k', nh); a = G.index('a', 2 * n); lo, cnt = n * (2 * k + z), 2 * n; i = lo + a; k = k + z
    G.eq('harmonic entry', C.get((lift(i),)), T.maximum_(low(k), gsum(lo, lo + cnt, x) / cnt))
    i = G.index('i', N + m); G.eq('solution not modified', X.get((i,)), T.app('X', i))
