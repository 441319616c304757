"""C14 for any number of unknowns, any iteration limit, any reform frequency and any line-search limit: contracts of the
solver's iteration loop, of its quasi-Newton update loops and of the line search's bisection loop.

The function is arbitrary (every evaluation returns an arbitrary residual and matrix, either of which may be undefined); the
linear solver returns an arbitrary vector.  Invariant of the iteration loop before iteration i: i evaluations were counted,
nothing undefined was met, success is not yet claimed, and for i > 0 the recorded measures are those of iteration i - 1."""
import io, contextlib
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, gsum

KEYS = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']
def norm(f, n): return T.sqrt_(gsum(0, n, lambda j: f(j) * f(j)))
def dot(a, b, n): return gsum(0, n, lambda j: a(j) * b(j))
def entries(a):
    f = g.as_g(a).frozen(); return lambda j: val(f((lift(j),)))

class Solve:
    def __init__(self, G):
        G.peel(False); self.G = G; self.n = n = G.size('n', 1); self.mx = mx = G.size('max_steps', 1); me = self
        stop = G.pick('stopping', [['xtol'], ['rtol', 'xtol_rel'], ['etol'], ['etol_rel', 'rtol_rel'], []]); acc = G.pick('accepting', [[], ['rtol'], ['xtol_rel', 'etol']] if stop in (['xtol'], []) else [[]])
        self.rf = rf = G.size('reform', 2) if G.pick('reform', ['every iteration', 'less often']) == 'less often' else 1; self.ls = G.pick('line search', [False, True])
        self.tol = {k: G.scalar(k) for k in KEYS}
        for k in KEYS: G.assume(self.tol[k] > 0)
        how = G.pick('xtol', ['config', 'argument', 'default']) if stop == ['xtol'] and not acc else 'config'
        self.cfg = dict(self.tol, max_steps=mx, reform_freq=rf, stopping_tol=list(stop), accepting_tol=list(acc), line_search_iters=G.size('li', 1) if self.ls else 0, verbose=False, line_search_same_sign=True); self.args = {}
        if how == 'argument': self.args = dict(xtol=G.scalar('xarg')); G.assume(self.args['xtol'] > 0); self.tol['xtol'] = self.args['xtol']
        if how == 'default': self.cfg['xtol'] = None; self.tol['xtol'] = n * T.const(T.from_float(1e-6).const())
        self.stop, self.acc = stop, acc
        self.s = G.mod('jax.solvers').NonlinearSolverOMP(config=self.cfg); self.keep = {k: (list(v) if isinstance(v, list) else v) for k, v in self.s.config.items()}
        s = self.s
        for m in ('lin_factor', 'lin_factored_solve', 'line_search'):
            if not hasattr(s, m): raise T.Unsupported('no method ' + m)
        s.lin_factor = lambda A: ('factors', g.as_g(A).frozen()); s.lin_factored_solve = self.solve; s.line_search = self.search
        self.evals = []; self.solves = []; self.searches = []; self.flags = []; g.LIN['isnan'] = self.isnan; self.i = None; self.j = G.index('j', n)
    def fun(self, X, calc_grad=True):
        k = len(self.evals); n = self.n; self.G.true('size of the point', g.same_dim(g.as_g(X).shape[0], n)); e = dict(X=entries(X), grad=bool(calc_grad), k=k, R=lambda j: T.app('R%d' % k, j), J=lambda i, j: T.app('J%d' % k, i, j)); self.evals.append(e)
        R = self.G.array('R%d' % k, n)
        return (R, self.G.array('J%d' % k, n, n)) if calc_grad else (R,)
    def solve(self, f, b):
        if f[0] != 'factors': raise T.Unsupported('other factors')
        k = len(self.solves); self.solves.append((f[1], entries(b))); return self.G.array('y%d' % k, self.n)
    def search(self, fun, X, R, dX):
        k = len(self.searches); a = T.var('alpha%d' % k); self.G.assume(a > 0); self.G.assume(a <= 1); self.searches.append((entries(X), entries(R), entries(dX), a))
        return a, {'R(alpha)': None, 'nfev': 1}
    def isnan(self, x):
        if not isinstance(x, T.Term): raise T.Unsupported('isnan of an array')
        b = g.yes(T.var('undefined%d' % len(self.flags)) > 0); self.flags.append((x, b)); return b
    def measures(self, R, d, i):
        """error measures of the iteration in progress: its residual, its direction before the line search, the step before"""
        n = self.n; m = {'rtol': norm(R, n), 'xtol': norm(d, n)}
        if i > 0: m['etol'] = dot(R, self.taken, n)
        return m
    def meets(self, m, keys):
        out = []
        for k in keys:
            t = self.tol[k]
            if k in m: out.append(abs(m[k]) < t)
            elif k == 'xtol_rel': out.append(abs(m['xtol'] / self.u0(m)) < t)
            elif k == 'rtol_rel': out.append(abs(m['rtol'] / self.r0(m)) < t)
            elif k == 'etol_rel' and 'etol' in m: out.append(abs(m['etol'] / self.e0(m)) < t)
        return T.or_(*out) if out else T.FALSE
    def u0(self, m): return m['xtol'] if self.case == 0 else T.var('u0')
    def r0(self, m): return m['rtol'] if self.case == 0 else T.var('r0')
    def e0(self, m): return abs(m['etol']) if self.case == 1 else T.var('e0')

class Iteration:
    def __init__(self, r): self.r = r
    def entry(self, v):
        G, r = self.r.G, self.r
        G.true('nothing evaluated before the first iteration', not r.evals and v['sol']['nfev'] == 0 and v['sol']['njev'] == 0 and not v['sol']['success'] and v['no_nan_vals'])
        G.eq('iterations start at the given point', v['X'].get((r.j,)), T.app('X0', r.j)); G.true('the first iteration forms the matrix', v['bfgs_ind'] == 0)
    def havoc(self, v):
        r = self.r; G, n = r.G, r.n; i = T.var('i', 'I'); G.assume(i >= 0); G.assume(i <= r.mx); r.i = i
        r.case = c = 0 if g.yes(T.cmp_(i, '==', T.ZERO)) else 1 if g.yes(T.cmp_(i, '==', T.UNIT)) else 2
        nj = T.var('nj', 'I'); G.assume(nj >= 0); self.nj = nj if c else T.ZERO
        r.evals.clear(); r.flags.clear(); r.solves.clear(); r.searches.clear(); r.taken = (lambda j: T.app('taken', j))
        out = dict(X=G.array('X', n) if c else v['X'], no_nan_vals=True, sol={'message': 'failed', 'nfev': i, 'njev': self.nj, 'success': False})
        if r.rf == 1: b = 0
        else:
            b = T.var('b', 'I'); G.assume(b >= 0); G.assume(b < r.rf)
            if not c: G.assume(T.cmp_(b, '==', T.ZERO)); b = T.ZERO
        out['bfgs_ind'] = self.b = b
        self.Xh = entries(out['X'])
        for k in ('elist', 'rlist', 'ulist'):
            if k in v: out[k] = G.array('_' + k, r.mx + 1)
        if c:
            out.update(R=G.array('Rp', n), Rminus1=G.array('Rp', n), deltaXminus1=G.array('taken', n), dRdX=G.array('Jp', n, n), r0=T.var('r0'), u0=T.var('u0'), r_curr=T.var('rp'), u_curr=T.var('up'), factored_data=('factors', G.array('Jf', n, n).frozen()))
            G.assume(T.var('r0') > 0); G.assume(T.var('u0') > 0)
            for k in ('bfgs_s', 'bfgs_y'): out[k] = G.array('_' + k, n, r.rf - 1)
            out['bfgs_p'] = G.array('_bfgs_p', r.rf - 1)
            if c == 1: out.update(e0=g.GNP.inf, e_curr=g.GNP.inf)
            else: out.update(e0=T.var('e0'), e_curr=T.var('ep')); G.assume(T.var('e0') > 0)
            out = {k: x for k, x in out.items()}
        else: out.update(deltaXminus1=v['deltaXminus1'], Rminus1=v['Rminus1'])
        return out
    def item(self, it):
        r = self.r
        g.from_zero(it); r.G.true('as many iterations as allowed', g.same_dim(it.hi, r.mx))
        if g.yes(r.i < r.mx): self.out = False; return ('turn', it.item(r.i))
        self.out = True; return ('exit', None)
    def ghost(self, v):
        """measures of this iteration from the evaluation, direction and step seen by the callees"""
        r = self.r; G, n = r.G, r.n; G.true('one evaluation per iteration', len(r.evals) == 1); e = r.evals[0]
        G.eq('evaluated at the iterate', e['X'](r.j), self.Xh(r.j)); first = self.b is 0 or g.yes(T.cmp_(lift(self.b), '==', T.ZERO)); G.true('the matrix is formed when due', e['grad'] == first or r.rf == 1)
        if first and r.solves:
            i2, j2 = G.index('mi', n), G.index('mj', n); A, b = r.solves[-1]
            G.eq('linear system: matrix', val(A((i2, j2))), e['J'](i2, j2)); G.eq('linear system: right-hand side', abs_free(b(r.j), e['R'](r.j)), T.ZERO)
        return e
    def linear(self, e, d):
        """without quasi-Newton updates the direction is the negative solution of the linear system"""
        r = self.r
        if not r.inexact and r.solves: r.G.eq('direction of the linear system', d(r.j), -T.app('y%d' % (len(r.solves) - 1), r.j))
    def step(self, v):
        r = self.r; G, n, j = r.G, r.n, r.j; e = self.ghost(v); R = e['R']
        G.eq('count of evaluations', val(v['sol']['nfev']), r.i + 1); G.eq('count of gradient evaluations', val(v['sol']['njev']), self.nj + (1 if e['grad'] else 0)); G.true('no success claimed yet', not v['sol']['success'] and v['no_nan_vals'])
        taken = lambda q: val(v['X'].get((q,))) - self.Xh(q); d = r.searches[-1][2] if r.ls else taken
        self.linear(e, d)
        G.true('nothing undefined', not any(b for x, b in r.flags)); G.true('the residual was examined', any(T.is_zero(x - gsum(0, n, R)) for x, b in r.flags))
        if 1:
            G.eq('step along the direction', taken(j), d(j) * (r.searches[-1][3] if r.ls else 1)); m = r.measures(R, d, r.case); G.eq('measure of the step', val(v['u_curr']), m['xtol'])
            if r.case == 0: G.eq('reference step', val(v['u0']), m['xtol'])
        m = r.measures(R, lambda q: T.ZERO, r.case); G.eq('measure of the residual', val(v['r_curr']), m['rtol'])
        if r.case == 0: G.eq('reference residual', val(v['r0']), m['rtol']); G.true('no energy in the first iteration', v['e0'] == g.GNP.inf and v['e_curr'] == g.GNP.inf)
        else:
            G.eq('energy', val(v['e_curr']), m['etol'])
            if r.case == 1: G.eq('reference energy', val(v['e0']), abs(m['etol']))
            else: G.eq('reference energy kept', val(v['e0']), T.var('e0'))
            G.eq('reference residual kept', val(v['r0']), T.var('r0')); G.eq('reference step kept', val(v['u0']), T.var('u0'))
        G.eq('residual kept for the next iteration', val(v['Rminus1'].get((j,))), R(j)); G.eq('step kept for the next iteration', val(v['deltaXminus1'].get((j,))), taken(j))
        if r.rf != 1: b = val(v['bfgs_ind']); G.true('update count in range', T.and_(b >= 0, b < r.rf))
        else: G.true('update count in range', v['bfgs_ind'] == 0 or T.is_zero(lift(v['bfgs_ind'])))

def abs_free(a, b):
    """zero when a = b or a = -b"""
    return T.ZERO if T.is_zero(a - b) or T.is_zero(a + b) else a - b

class Any:
    """an inner loop of which nothing but the sizes is used: names -> fresh vectors"""
    def __init__(self, r, k): self.r = r; self.k = k
    def entry(self, v): pass
    def havoc(self, v):
        r = self.r; out = {}
        self.dx = dict(v)
        for nm in self.names(v):
            a = g.as_g(v[nm]); out[nm] = r.G.array('%s_%d' % (nm, self.k), *a.shape)
        r.inexact = True
        return out
    def names(self, v): return [k for k in ('deltaX', 'alpha') if isinstance(v.get(k), g.GArr)] if self.k == 1 else ['deltaX']
    def item(self, it):
        if not hasattr(it, 'lo'): raise T.Unsupported('inner loop')
        if not g.yes(T.var('more%d' % self.k) > 0): return ('exit', None)
        q = T.var('kk%d' % self.k, 'I'); g.P().assume(q >= it.lo); g.P().assume(q < it.hi)
        if not g.yes(lift(it.lo) < it.hi): return ('exit', None)
        return ('turn', q)
    def step(self, v): self.r.G.true('size of the direction', g.same_dim(g.as_g(v['deltaX']).shape[0], self.r.n))

@gen('C14', budget=150, replay=('nsolve',))
def nsolve_any_iterations(G):
    r = Solve(G); n, s, j = r.n, r.s, r.j; it = Iteration(r); r.inexact = False
    G.loop('nsolve', 0, it); G.loop('nsolve', 1, Any(r, 1)); G.loop('nsolve', 2, Any(r, 2))
    X0 = G.array('X0', n); k = dict(r.args)
    try: X, R, J, sol = s.nsolve(r.fun, X0, **k)
    except AssertionError: raise T.Unsupported('assertion')
    if r.i is None: raise T.Unsupported('iteration loop not found')
    G.true('configuration unchanged by the solve', set(s.config) == set(r.keep) and all((s.config[q] is x) or (isinstance(x, (list, bool, int, type(None))) and s.config[q] == x) or (isinstance(x, T.Term) and T.is_zero(val(s.config[q]) - x)) for q, x in r.keep.items()))
    G.eq('start point not modified', X0.get((j,)), T.app('X0', j))
    if it.out:         # iteration limit
        G.eq('count of evaluations', val(sol['nfev']), r.mx); G.eq('count of gradient evaluations', val(sol['njev']), it.nj); G.eq('the returned point is the last iterate', X.get((j,)), it.Xh(j)); G.true('no evaluation behind the limit', not r.evals)
        if sol['success']:
            m = {'rtol': T.var('rp'), 'xtol': T.var('up')}
            if r.case == 2: m['etol'] = T.var('ep')
            one = r.case == 1; r.case = 3
            if one: m = {q: x for q, x in m.items()}
            G.true('a requested accepting tolerance holds for the last step', r.meets(m, r.acc))
        return
    e = it.ghost({}); G.eq('count of evaluations', val(sol['nfev']), r.i + 1); G.eq('count of gradient evaluations', val(sol['njev']), it.nj + (1 if e['grad'] else 0))
    bad = any(b for x, b in r.flags)
    if sol['success']:
        G.true('no success after undefined values', not bad); taken = lambda q: val(X.get((q,))) - it.Xh(q)
        if r.ls and not r.searches: raise T.Unsupported('line search not visible')
        d = r.searches[-1][2] if r.ls else taken; it.linear(e, d)
        m = r.measures(e['R'], d, r.case); G.true('a requested tolerance holds for the last step', r.meets(m, r.stop if g.yes(r.i + 1 < r.mx) else r.stop + r.acc))
        G.eq('the returned point is the last iterate plus its step', taken(j), d(j) * (r.searches[-1][3] if r.ls else 1))
    else: G.true('stops early only after undefined values', bad); G.eq('the returned point is the last iterate', X.get((j,)), it.Xh(j))

class Bisection:
    """bracket 0 <= a < b <= 1 halved in every iteration; stored values belong to the stored fractions"""
    def __init__(self, r): self.r = r
    def facts(self, v, need):
        """the bracket's residuals and products are those of an evaluation at its ends (lower end 0: the given residual)"""
    def entry(self, v):
        r = self.r; a = v['alpha_bracket']; r.G.true('bracket starts with the whole step', val(a[0]).m == {} and T.is_zero(val(a[1]) - 1)); r.G.true('one evaluation before the bisection', len(r.evals) == 1); self.state('start', v, None)
    def state(self, label, v, _):
        r = self.r; G, n, j = r.G, r.n, r.j
        for q in (0, 1):
            al, R, Gq = val(v['alpha_bracket'][q]), entries(v['R_bracket'][q]), val(v['Galpha_bracket'][q])
            known = r.at(al); G.true(label + ': residual stored for the fraction', known is not None)
            if known is not None: G.eq(label + ': residual of the bracket', R(j), known(j))
            G.eq(label + ': product of the bracket', Gq, dot(lambda k: T.app('dX', k), R, n))
    def havoc(self, v):
        r = self.r; G, n = r.G, r.n; self.k = T.var('it', 'I'); G.assume(self.k >= 0); G.assume(self.k <= r.li); self.first = g.yes(T.cmp_(self.k, '==', T.ZERO))
        if self.first: a = [T.ZERO, T.UNIT]; Rb = [v['R_bracket'][0], v['R_bracket'][1]]; Gb = list(v['Galpha_bracket']); r.lowzero = True; out = dict(alpha_bracket=a, R_bracket=Rb, Galpha_bracket=Gb)
        else:
            lo0 = g.yes(T.var('lowzero') > 0); r.lowzero = lo0; al, ah = T.ZERO if lo0 else T.var('al'), T.var('ah'); G.assume(ah <= 1)
            if not lo0: G.assume(al > 0)
            G.assume(al < ah); r.evals.clear(); r.known = [] if lo0 else [(al, lambda j: T.app('Rl', j))]; r.known.append((ah, lambda j: T.app('Rh', j)))
            RL, RH = (G.array('R0', n) if lo0 else G.array('Rl', n)), G.array('Rh', n); dx = lambda k: T.app('dX', k)
            g0 = dot(dx, lambda k: T.app('R0', k), n); gl, gh = T.var('gl') if not lo0 else g0, T.var('gh')
            GL, GH = dot(dx, entries(RL), n), dot(dx, entries(RH), n)
            # sign invariant: the lower end has the sign of the start, the upper end does not
            G.assume(GL * g0 >= 0); G.assume(GH * g0 <= 0)
            if not lo0: G.assume(abs(GL) >= r.tol * abs(g0))
            out = dict(alpha_bracket=[al, ah], R_bracket=[RL, RH], Galpha_bracket=[GL, GH])
        self.a = [val(x) for x in out['alpha_bracket']]
        self.n0 = len(r.evals); out['nfev'] = self.k + 1; self.known0 = len(r.known)
        if 'message' in v: out['message'] = v['message']
        r.loop = self; return out
    def item(self, it):
        r = self.r; g.from_zero(it); r.G.true('as many bisections as allowed', g.same_dim(it.hi, r.li))
        return ('turn', it.item(self.k)) if g.yes(self.k < r.li) else ('exit', None)
    def step(self, v):
        r = self.r; G = r.G; G.eq('count of evaluations', val(v['nfev']), self.k + 2); G.true('one evaluation per bisection', len(r.evals) == self.n0 + 1)
        a, b = (val(x) for x in v['alpha_bracket']); G.true('bracket inside the step', T.and_(a >= 0, a < b, b <= 1)); self.state('bisection', v, None)
        g0 = dot(lambda k: T.app('dX', k), lambda k: T.app('R0', k), r.n)
        G.true('lower end is not converged', T.or_(T.cmp_(a, '==', T.ZERO), abs(val(v['Galpha_bracket'][0])) >= r.tol * abs(g0)))
        G.true('lower end keeps the sign of the start', T.cmp_(val(v['Galpha_bracket'][0]) * g0, '>=', T.ZERO)); G.true('upper end has the other sign', T.cmp_(val(v['Galpha_bracket'][1]) * g0, '<=', T.ZERO))

@gen('C14', budget=100, replay=('line_search',))
def line_search_any_iterations(G):
    class R: pass
    r = R(); r.G = G; G.peel(False); r.n = n = G.size('n', 1); r.li = li = G.size('line_search_iters', 1); ss = G.pick('same sign', [True, False]); tol = G.scalar('tol'); G.assume(tol > 0); r.j = j = G.index('j', n); r.tol = tol
    s = G.mod('jax.solvers').NonlinearSolverOMP(config=dict(line_search_iters=li, line_search_same_sign=ss, line_search_tol=tol, verbose=False)); r.evals = []; r.known = []; r.loop = None; r.lowzero = True
    X, dX, R0 = G.array('X', n), G.array('dX', n), G.array('R0', n); G.assume(T.cmp_(T.app('dX', j), '>', T.ZERO))
    def fun(Y, calc_grad=True):
        k = len(r.evals); y = entries(Y); al = None; d = y(j) - T.app('X', j)
        al = d / T.app('dX', j); r.evals.append((al, calc_grad)); G.eq('evaluated along the step', d, al * T.app('dX', j)); nm = 'R_%d' % (k + 7); r.known.append((al, lambda q: T.app(nm, q))); G.true('no gradient in the line search', not calc_grad)
        return (G.array(nm, n),)
    def at(al):
        if T.is_zero(al): return lambda q: T.app('R0', q)
        for a, R in reversed(r.known):
            if T.is_zero(a - al): return R
    r.at = at
    G.loop('line_search', 0, Bisection(r))
    a, sol = s.line_search(fun, X, R0, dX); a = val(a)
    G.true('fraction above zero and at most one', T.and_(a > 0, a <= 1))
    known = at(a); G.true('the fraction was evaluated', known is not None)
    if known is not None: G.eq('residual at the returned fraction', entries(sol['R(alpha)'])(j), known(j))
    if r.loop is None: G.true('exact count of evaluations', len(r.evals) == 1 and sol['nfev'] == 1)
    else: G.eq('exact count of evaluations', val(sol['nfev']), r.loop.k + 1 + (len(r.evals) - r.loop.n0)); G.true('within the iteration limit', val(sol['nfev']) <= li + 1)
    if ss and known is not None:
        g0 = dot(lambda k: T.app('dX', k), lambda k: T.app('R0', k), n); ga = dot(lambda k: T.app('dX', k), known, n)
        # the sign of the start, unless the bracket never left zero (then the smallest tried fraction)
        if r.loop is None: G.true('same sign as the start', ga * g0 >= 0)
        else: G.true('same sign as the start', T.or_(ga * g0 >= 0, T.TRUE if r.lowzero else T.FALSE))
    G.eq('inputs not modified', X.get((j,)), T.app('X', j)); G.eq('inputs not modified', dX.get((j,)), T.app('dX', j)); G.eq('inputs not modified', R0.get((j,)), T.app('R0', j))
