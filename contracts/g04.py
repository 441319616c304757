"""C04 for every number of degrees of freedom and every list of harmonics"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
GNP = g.GNP

def setup(G, zero):
    nd = G.size('nd', 1, block=True); nh = G.size('nh', 1); h = G.harmonics(zero, nh)
    return nd, nh, h, (1 if zero else 0)

@gen('C04', replay=('stiffness', 'only_damping'))
def stiffness_any_size(G):
    """every entry of E and dEdw for any nd and any harmonics: block (b, c), entry (r, s)"""
    hu = G.mod('utils.harmonic')
    zero = G.pick('zero', [True, False]); only_C = G.pick('only_C', [False, True])
    nd, nh, h, z = setup(G, zero)
    M, C, K = G.array('M', nd, nd), G.array('C', nd, nd), G.array('K', nd, nd); w = G.scalar('w')
    E, dE = hu.harmonic_stiffness(M, C, K, w, h, only_C=only_C)
    r, s = G.index('r', nd), G.index('s', nd)
    Nb = 2 * nh + z
    G.true('shape', T.and_(T.cmp_(g.lift(E.shape[0]), '==', Nb * nd), T.cmp_(g.lift(E.shape[1]), '==', Nb * nd), T.cmp_(g.lift(dE.shape[0]), '==', Nb * nd), T.cmp_(g.lift(dE.shape[1]), '==', Nb * nd)))
    kind = G.pick('block', ['diagonal', 'other', 'zeroth'] if zero else ['diagonal', 'other'])
    km = 0 if only_C else 1
    A = lambda X: T.app(X, r, s)
    if kind == 'zeroth':
        G.eq('E zeroth', E[r, s], km * A('K')); G.eq('dEdw zeroth', dE[r, s], 0)
        c = G.index('c', Nb, 1)
        G.eq('E zeroth row', E[r, nd * c + s], 0); G.eq('dEdw zeroth row', dE[r, nd * c + s], 0)
        G.eq('E zeroth column', E[nd * c + r, s], 0); G.eq('dEdw zeroth column', dE[nd * c + r, s], 0)
        return
    k = G.index('k', nh); hk = T.app('hh', k, sort='I')
    b = 2 * k + z
    if kind == 'diagonal':
        X = A('K') - hk * hk * w * w * A('M')
        for p in (0, 1):
            G.eq('E cos/cos, sin/sin', E[nd * (b + p) + r, nd * (b + p) + s], km * X)
            G.eq('dEdw cos/cos, sin/sin', dE[nd * (b + p) + r, nd * (b + p) + s], km * (-2) * hk * hk * w * A('M'))
        G.eq('E cos/sin', E[nd * b + r, nd * (b + 1) + s], hk * w * A('C')); G.eq('dEdw cos/sin', dE[nd * b + r, nd * (b + 1) + s], hk * A('C'))
        G.eq('E sin/cos', E[nd * (b + 1) + r, nd * b + s], -hk * w * A('C')); G.eq('dEdw sin/cos', dE[nd * (b + 1) + r, nd * b + s], -hk * A('C'))
    else:
        l = G.index('l', nh); c = 2 * l + z
        G.assume(T.not_(T.cmp_(k, '==', l)))
        for p in (0, 1):
            for q in (0, 1):
                G.eq('E between harmonics', E[nd * (b + p) + r, nd * (c + q) + s], 0)
                G.eq('dEdw between harmonics', dE[nd * (b + p) + r, nd * (c + q) + s], 0)
