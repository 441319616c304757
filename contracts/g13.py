"""C13 for any number of unknowns"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import GNP, val, lift, Wrt, gsum, GArr, opaque_vec

def setup(G, kind):
    n = G.size('n', 1); Cn = G.mod('continuation'); b = G.scalar('b'); G.assume(b >= 0); G.assume(b <= 1); rp = G.scalar('rp')
    cto = G.array('cto', n + 1); sol = type('S', (), {})()
    C = Cn.Continuation(sol, ds0=1, CtoP=cto, RPtoC=rp, config=dict(FracLam=b, corrector=kind, verbose=-1))
    opaque = {}; calls = []
    def fun(X, calc_grad=True):
        X = g.as_g(X); f = X.frozen(); calls.append((f, calc_grad)); G.true('size of the point', g.same_dim(X.shape[0], n + 1))
        opaque['R'] = opaque_vec(f, n + 1, 'P')
        R = g.new((n,), lambda idx: T.app('R', idx[0]))
        if not calc_grad: return (R,)
        return R, g.new((n, n), lambda idx: T.app('P', *idx)), g.new((n,), lambda idx: T.app('P', idx[0], n))
    return n, C, b, rp, fun, opaque, calls, (lambda j: abs(T.app('cto', j)))

@gen('C13', budget=60, replay=('corrector',))
def corrector_any_size(G):
    kind = G.pick('corrector', ['Pseudo', 'Ortho']); n, C, b, rp, fun, opaque, calls, cto = setup(G, kind)
    X, X0, d = G.array('X', n + 1), G.array('X0', n + 1), G.array('d', n + 1); ds = G.scalar('ds'); G.assume(ds > 0)
    x, x0, dd = (lambda j: T.app('X', j)), (lambda j: T.app('X0', j)), (lambda j: T.app('d', j))
    nn = gsum(0, n, lambda j: x0(j) * x0(j)); G.assume(nn > 0); c = (1 - b) / nn
    row = G.pick('row', ['residual', 'arc']); i = G.index('i', n) if row == 'residual' else n
    Ra, J = C.correct_res(fun, X, X0, ds, d); r = val(Ra.get((lift(i),)))
    what = G.pick('obligation', ['value', 'no gradient', 'derivative'])
    if what == 'value':
        G.true('size', g.same_dim(Ra.shape[0], n + 1)); j = G.index('j', n + 1)
        G.eq('point given to the residual', val(calls[0][0]((j,))), x(j) * cto(j))
        df = lambda j: x(j) - x0(j)
        if row == 'residual': e = rp * T.app('R', lift(i))
        elif kind == 'Pseudo': e = (c * gsum(0, n, lambda j: df(j) * df(j)) + b * df(n) * df(n) - ds * ds) / (ds * ds)
        else: e = (c * gsum(0, n, lambda j: (df(j) - ds * dd(j)) * dd(j)) + b * (df(n) - ds * dd(n)) * dd(n)) / ds
        G.eq('residual rows are scaled, then the arc-length equation', r, e)
    elif what == 'no gradient':
        q = C.correct_res(fun, X, X0, ds, d, calc_grad=False)
        G.true('one output', len(q) == 1 and not calls[-1][1]); G.eq('same without gradient', q[0].get((lift(i),)), r)
    else:
        G.true('shape', g.same_dim(J.shape[0], n + 1) and g.same_dim(J.shape[1], n + 1))
        j = G.index('j', n) if G.pick('column', ['unknown', 'parameter']) == 'unknown' else n
        G.eq('derivative of the corrector', J.get((lift(i), lift(j))), Wrt('X', (lift(j),), opaque).d(r))

@gen('C13', budget=60, replay=('predictor',))
def predictor_any_size(G):
    kind = G.pick('corrector', ['Pseudo', 'Ortho']); n, C, b, rp, fun, opaque, calls, cto = setup(G, kind); seen = []
    def lin_solve(A, r):
        seen.append((g.as_g(A).frozen(), g.as_g(r).frozen(), g.as_g(A).shape)); return G.array('z', n + 1)
    C.solver.lin_solve = lin_solve
    X0, Xp, dp = G.array('X0', n + 1), G.array('Xp', n + 1), G.array('dp', n + 1)
    x0 = lambda j: T.app('X0', j) / cto(j); z = lambda j: T.app('z', j)
    sq = lambda f: gsum(0, n, lambda j: f(j) * f(j))
    nn = sq(x0); G.assume(nn > 0); c = (1 - b) / nn; step = c * sq(z) + b * z(n) * z(n); G.assume(step > 0)
    d = g.as_g(C.predict(fun, X0, Xp, dp)); D = lambda j: val(d.get((lift(j),)))
    i, j, l = G.index('i', n), G.index('j', n + 1), G.index('l', n + 1)
    what = G.pick('obligation', ['system', 'unit', 'direction', 'arc'])
    if what == 'system':
        A, r, sh = seen[0]
        G.true('shape of the system', g.same_dim(sh[0], n + 1) and g.same_dim(sh[1], n + 1)); G.true('one linear solve', len(seen) == 1)
        G.eq('rows of the linearised residual', val(A((i, j))), T.app('P', i, j) * cto(j)); G.eq('right-hand side of these rows', val(r((i,))), 0)
        G.eq('last row: previous direction', val(A((lift(n), j))), T.app('dp', j)); G.eq('last right-hand side', val(r((lift(n),))), 1)
        G.eq('parallel to the solution of the system', D(j) * z(l), D(l) * z(j))
        G.eq('point given to the residual', val(calls[0][0]((j,))), T.app('X0', j))
    elif what == 'unit': G.eq('unit length', c * sq(D) + b * D(n) * D(n), 1)
    elif what == 'direction':
        s = lambda j: (T.app('X0', j) - T.app('Xp', j)) / cto(j)
        G.true('along the previous step', T.cmp_(c * gsum(0, n, lambda j: D(j) * s(j)) + b * D(n) * s(n), '>=', T.ZERO))
    else:
        ds = G.scalar('ds'); G.assume(ds > 0); XC = g.new((n + 1,), lambda idx: x0(idx[0]))
        P = g.new((n + 1,), lambda idx: x0(idx[0]) + ds * D(idx[0]))
        e = C.correct_res(fun, P, XC, ds, d, calc_grad=False)[0]
        G.eq('the predicted point satisfies the arc-length equation', e.get((lift(n),)), 0)
