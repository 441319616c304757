"""C15 for any number of unknowns: the scaled function of the solvers' conditioning wrapper"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift

@gen('C15', budget=40, replay=('conditioned',))
def conditioned_any_size(G):
    n = G.size('n', 1); s = G.mod('solvers').NonlinearSolver() if G.pick('solver', ['base', 'jax']) == 'base' else G.mod('jax.solvers').NonlinearSolverOMP()
    per = G.pick('unknown scaling', ['vector', 'number']); rows = G.pick('residual scaling', ['number', 'vector', 'default']); extra = G.pick('outputs', [2, 3]); calls = []
    cto = G.array('c', n) if per == 'vector' else G.scalar('c'); rp = G.array('r', n) if rows == 'vector' else G.scalar('r'); X = G.array('X', n)
    c = lambda i: T.app('c', i) if per == 'vector' else cto
    r = lambda i: T.app('r', i) if rows == 'vector' else rp if rows == 'number' else T.UNIT
    def fun(Xp, calc_grad=True):
        calls.append((g.as_g(Xp).frozen(), g.same_dim(g.as_g(Xp).shape[0], n), calc_grad)); R, J = G.array('R', n), G.array('J', n, n)
        return (R, J, 7)[:extra] if calc_grad else (R,)
    f = s.conditioning_wrapper(fun, cto) if rows == 'default' else s.conditioning_wrapper(fun, cto, rp); other = s.conditioning_wrapper(fun, G.array('c2', n), G.scalar('r2'))
    other(G.array('Y', n)); del calls[:]
    grad = G.pick('gradient', [True, False]); out = f(X) if grad else f(X, calc_grad=False)
    G.true('one evaluation', len(calls) == 1 and calls[0][1] and bool(calls[0][2]) == grad and len(out) == (2 if grad else 1)); i, k = G.index('i', n), G.index('k', n)
    G.eq('evaluated at the physical point', val(calls[0][0]((i,))), T.app('X', i) * c(i))
    G.eq('scaled residual', g.as_g(out[0]).get((i,)), r(i) * T.app('R', i))
    if grad: G.true('shape of the Jacobian', all(g.same_dim(d, n) for d in g.as_g(out[1]).shape)); G.eq('scaled Jacobian', g.as_g(out[1]).get((i, k)), r(i) * T.app('J', i, k) * c(k))
    G.eq('point not modified', X.get((i,)), T.app('X', i))
    if per == 'vector': G.eq('scaling not modified', g.as_g(cto).get((i,)), c(i))
