"""C17 for any number of degrees of freedom, harmonics, solutions and trailing columns"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift

@gen('C17', budget=60, replay=('rotation',))
def rotation_any_size(G):
    hu = G.mod('utils.harmonic'); zero = G.pick('zero', [True, False]); z = 1 if zero else 0
    n, nh, r, m = G.size('n', 1, block=True), G.size('nh', 1), G.size('rows', 1), G.size('extra', 0); h = G.harmonics(zero, nh)
    N = n * (2 * nh + z); U = G.array('U', r, N + m); hr = G.scalar('hr'); G.assume(hr > 0)
    ph = G.scalar('phi') if G.pick('phase', ['number', 'per row']) == 'number' else G.array('phi', r)
    R = g.as_g(hu.rotate_subtract_phase(U, n, h, ph, hr))
    q, k, a = G.index('q', r), G.index('k', nh), G.index('a', n); hk = T.app('hh', k, sort='I'); th = hk * ((val(ph) if isinstance(ph, T.Term) else T.app('phi', q)) / hr)
    G.true('shape', g.same_dim(R.shape[0], r) and g.same_dim(R.shape[1], N + m))
    c, s = n * (2 * k + z) + a, n * (2 * k + z + 1) + a; u = lambda i: T.app('U', q, i)
    what = G.pick('entry', ['cosine', 'sine', 'trailing'] + (['zeroth'] if zero else []))
    if what == 'cosine': G.eq('cosine entry', R.get((q, c)), u(c) * T.cos_(th) - u(s) * T.sin_(th))
    elif what == 'sine': G.eq('sine entry', R.get((q, s)), u(c) * T.sin_(th) + u(s) * T.cos_(th))
    elif what == 'zeroth': G.eq('zeroth harmonic', R.get((q, a)), u(a))
    else: e = G.index('e', m); G.eq('trailing column', R.get((q, N + e)), u(N + e))
    i = G.index('i', N + m); G.eq('input not modified', U.get((q, i)), u(i))
