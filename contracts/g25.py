"""C25 for any number of degrees of freedom, harmonics, unknowns and previously saved points."""
import os
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum, lift, GNP

def scratch():
    from . import c25
    return c25.scratch()

@gen('C25', budget=40, replay=('history',))
def history_any_length(G):
    """one more save onto a file with any number of points (numpy.savez / numpy.load through their contract, as in history)"""
    G.peel(False); n = G.size('n', 1); state = G.pick('file', ['absent', 'existing']); m = G.mod('utils.continuation'); store = {}
    def savez(f, *a, **k):
        if a or not isinstance(f, str): raise T.Unsupported('savez protocol')
        store[f] = {q: g.new(g.as_g(v).shape, g.as_g(v).frozen()) for q, v in k.items()}; open(f, 'a').close()
    class Z(dict):
        files = property(lambda s: list(s))
        def __enter__(s): return s
        def __exit__(s, *a): return False
        def close(s): pass
    def load(f, *a, **k):
        if f not in store: raise FileNotFoundError(f)
        return Z({q: v.copy() for q, v in store[f].items()})
    cls = type(GNP); had = {q: getattr(GNP, q, None) for q in ('savez', 'load', 'savez_compressed')}
    for q, f in (('savez', savez), ('savez_compressed', savez), ('load', load)): GNP.__dict__[q] = f
    try:
        with scratch() as tmp:
            fn = os.path.join(tmp, 'run.npz'); fo = os.path.join(tmp, 'other.npz'); K = T.ZERO
            if state == 'existing': K = G.size('K', 1); savez(fn, XlamP=G.array('X', K, n), dirP_prev=G.array('D', K, n))
            savez(fo, XlamP=G.array('Y', 1, n), dirP_prev=G.array('E', 1, n)); x, d = G.array('x', n), G.array('d', n)
            m.continuation_save(x, d, fn); z = store.get(fn); G.true('file written', z is not None and set(z) == {'XlamP', 'dirP_prev'}); j = G.index('j', n)
            for nm, old, new in (('XlamP', 'X', 'x'), ('dirP_prev', 'D', 'd')):
                a = g.as_g(z[nm]); G.true('one more point', len(a.shape) == 2 and g.same_dim(a.shape[0], K + 1) and g.same_dim(a.shape[1], n)); G.eq('appended point', a.get((K, j)), T.app(new, j))
                if state == 'existing': i = G.index('i', K); G.eq('earlier points', a.get((i, j)), T.app(old, i, j))
            G.eq('point not modified', x.get((j,)), T.app('x', j)); G.eq('direction not modified', d.get((j,)), T.app('d', j)); G.eq('other files', store[fo]['XlamP'].get((0, j)), T.app('Y', T.ZERO, j))
    finally:
        for q, f in had.items():
            GNP.__dict__.pop(q, None)

@gen('C25', budget=60, replay=('statistics',))
def statistics_any_size(G):
    from . import c25
    G.peel(False); kind = G.pick('kind', c25.KINDS); zero = G.pick('zero', [True, False]); n = G.size('n', 1, block=True); nh = G.size('nh', 1); z = 1 if zero else 0; h = G.harmonics(zero, nh); N = n * (2 * nh + z); start = G.pick('file', ['new', 'resumed'])
    order = G.pick('order', [0, 1, 2]) if kind != 'epmc' else 0; extra = {'epmc': 3, 'hbm_amp': 2, 'hbm_amp_phase': 3, 'vprnm': 2, 'vprnm_amp_phase': 4}[kind]
    nout = G.pick('outputs', [1, 2]) if kind.startswith('vprnm') else 1; P2 = 2 * T.PI; x = lambda i: T.app('X', lift(i)); L = N + extra
    X = G.array('X', L); d = G.array('d', L); fr = {'epmc': -3, 'hbm_amp': -1, 'vprnm': -2, 'vprnm_amp_phase': -2}.get(kind)
    if fr is not None: G.assume(x(L + fr) > 0)
    ps = [G.index('p%d' % q, nh) for q in range(nout)]; ks = [T.app('hh', p, sort='I') for p in ps]; rec = [G.array('recov%d' % q, n) for q in range(nout)]; outs = list(zip(rec, ks))
    def response(q, w):
        S = lambda o: gsum(0, n, lambda a: T.app('recov%d' % q, a) * x(n * (2 * ps[q] + z + o) + a)); a, b = S(0), S(1); return T.sqrt_(a * a + b * b) * (ks[q] * w) ** order
    m = G.mod('utils.continuation'); T.printed.clear()
    class DS: sym = True
    with scratch() as tmp:
        fn = os.path.join(tmp, 'stats.dat'); prev = ''
        if start == 'resumed': prev = 'HEAD & HEAD \n 1.000 & 2.000 \n'; open(fn, 'w').write(prev)
        for c in (0, 1):
            if kind == 'epmc': m.print_epmc_stats(X, d, fn); e = [x(L - 1), x(L - 3) / P2, x(L - 2) / 2 / x(L - 3)]
            elif kind == 'hbm_amp': m.print_hbm_amp_stats(X, d, fn, h, order, rec[0], ks[0]); e = [x(L - 1) / P2, x(L - 2), response(0, x(L - 1))]
            elif kind == 'hbm_amp_phase':
                w, a = G.scalar('freq'), G.scalar('amp'); G.assume(w > 0); m.print_hbm_amp_phase_stats(X, d, fn, w, a, h, order, rec[0], ks[0]); e = [w / P2, a, x(L - 3), x(L - 2), response(0, w)]
            elif kind == 'vprnm': m.print_vprnm_stats(X, d, fn, h, order, outs); e = [x(L - 1), x(L - 2) / P2] + [response(q, x(L - 2)) for q in range(nout)]
            else: m.print_vprnm_amp_phase_stats(X, d, fn, h, 0, order, outs); e = [x(L - 1), x(L - 4), x(L - 3), x(L - 2) / P2] + [response(q, x(L - 2)) for q in range(nout)]
            txt = open(fn).read(); G.true('earlier lines are kept', txt.startswith(prev)); new = [c25.parse(DS, l) for l in txt[len(prev):].split('\n') if l.strip()]; prev = txt
            heads = [v for v in new if v is None]; G.true('header only in a new file', (len(heads) > 0) == (c == 0 and start == 'new') and all(v is None for v in new[:len(heads)])); rows = new[len(heads):]
            G.true('one line per call', len(rows) == 1 and txt.endswith('\n'))
            if len(rows) == 1:
                G.true('columns', len(rows[0]) == len(e))
                for i, (a, b) in enumerate(zip(rows[0], e)): G.eq('column %d' % i, lift(a), b)
    i = G.index('i', L); G.eq('point not modified', X.get((i,)), x(i))
