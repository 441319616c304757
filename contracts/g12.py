"""C12 for any number of unknowns and any number of steps: contracts of the continuation's main loop and of its retry loop.

The nonlinear solver is used through its interface: each call returns an arbitrary point and an arbitrary success flag; the
predictor (C13) returns an arbitrary direction.  Invariant of the main loop at step s: rows 0..s-1 are the converged points,
the last of them is the current point, the one before it (or the start direction) the previous one, and the step size is the
start value or inside [dsmin, dsmax]."""
import io, contextlib
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, GArr

def leq(a, b): return T.cmp_(val(a), '<=', val(b))

class Run:
    def __init__(self, G):
        G.peel(False); self.G = G; self.n = n = G.size('n', 1); self.MS = MS = G.size('MaxSteps', 1)
        self.up = up = G.pick('direction', [1, -1]); self.l0, self.l1 = G.scalar('lam0'), G.scalar('lam1'); G.assume(up * self.l1 > up * self.l0)
        self.ds0, self.lo, self.hi, self.inc, self.tn, self.back = (G.scalar(x) for x in ('ds0', 'dsmin', 'dsmax', 'inc', 'target', 'back'))
        for x in (self.ds0, self.lo, self.inc, self.tn, self.back): G.assume(x > 0)
        G.assume(self.hi >= self.lo); self.weights = G.pick('weights', [[0.5], [0.5, 0.25]]); self.dyn = G.pick('dynamic', [False, True]); cto = G.array('cto', n + 1); self.what = G.pick('part', ['start', 'main loop', 'retry loop'])
        self.calls = []; self.dirs = []; self.cb = []; me = self; Cn = G.mod('continuation'); S = G.mod('solvers').NonlinearSolver
        class Solver(S):
            def nsolve(self, fun, X0, verbose=True, xtol=None):
                return me.solve(fun, X0, xtol)
        self.cfg = dict(MaxSteps=MS, dsmin=self.lo, dsmax=self.hi, MaxIncrease=self.inc, TargetNfev=self.tn, backtrackStop=self.back, FracLamList=list(self.weights), FracLam=0.5, DynamicCtoP=self.dyn, verbose=G.pick('verbose', [-1, 0]), xtol=G.scalar('xtol'), callback=lambda X, d: me.cb.append((g.as_g(X).copy(), g.as_g(d).copy())))
        self.c = Cn.Continuation(Solver(), ds0=self.ds0, CtoP=cto, config=self.cfg)
        if not hasattr(self.c, 'predict') or not hasattr(self.c, 'correct_res'): raise T.Unsupported('other methods')
        self.c.predict = self.predict; self.seen = []
        self.c.correct_res = lambda fun, XC, XC0, ds, d, calc_grad=True: (self.seen.append((fun, g.as_g(XC), g.as_g(XC0).copy(), ds, g.as_g(d).copy())), T.fresh('R'))[1]
        self.cto0 = lambda j: abs(T.app('cto', j)); self.base = None; self.head = None; self.j = G.index('j', n + 1)
    # ---- callees through their contracts
    def solve(self, fun, X0, xtol):
        G, k = self.G, len(self.calls); X0 = g.as_g(X0); m = X0.shape[0]
        G.eq('tolerance of the solve', val(xtol), val(self.cfg['xtol']))
        ok = g.yes(T.var('ok%d' % k) > 0); nf = T.var('nfev%d' % k, 'I'); g.P().assume(nf >= 1)
        c = dict(start=X0.copy(), ok=ok, nfev=nf, m=m, k=k, weight=self.c.config.get('FracLam'), corr=None)
        if k > 0 or self.base is not None:
            self.seen.clear(); fun(G.array('probe', m)); c['corr'] = self.seen[-1] if self.seen else None
        else:
            self.init = []; 
            fun(G.array('probe', m))
        self.calls.append(c)
        x = G.array('x%d' % k, m); c['x'] = lambda i: T.app('x%d' % k, i)
        return x, G.array('r%d' % k, m), G.array('d%d' % k, m, m), {'success': ok, 'nfev': nf, 'njev': nf, 'message': 'm'}
    def predict(self, fun, X0, Xp, d):
        k = len(self.dirs); self.dirs.append((g.as_g(X0).copy(), g.as_g(Xp).copy(), g.as_g(d).copy())); self.at_predict(); return self.G.array('dir%d' % k, self.n + 1)
    def at_predict(self): pass
    def fun(self, X, calc_grad=True):
        X = g.as_g(X); self.funs.append(X.copy()); n = self.n; R = g.new((n,), lambda i: T.app('F', *i))
        return (R, self.G.array('dF', n, n), self.G.array('dl', n)) if calc_grad else (R,)
    # ---- helpers
    def inside(self, lam):
        u = self.up; return T.and_(val(u * lam) < val(u * self.l1), val(u * lam) > val(u * self.l0) - self.back)
    def scale(self, j, row=None):
        return T.maximum_(abs(row(j)), self.cto0(j)) if self.dyn else self.cto0(j)
    def point0(self, i):
        return lambda i: None
    def run(self):
        self.funs = []
        X0 = self.G.array('X0', self.n + 1); out = io.StringIO()
        with contextlib.redirect_stdout(out): r = self.c.continuation(self.fun, X0, self.l0, self.l1)
        if self.cfg['verbose'] < 0: self.G.true('silent run prints nothing', out.getvalue() == '')
        return r

class Main:
    """contract of the main loop"""
    def __init__(self, r): self.r = r
    def row(self, v, k, j): return val(v['XlamP_full'].get((k, j)))
    def entry(self, v):
        r = self.r; G, n = r.G, r.n; r.base = None
        G.true('the start point was solved for', len(r.calls) == 1 and r.calls[0]['ok'])
        if not r.calls: raise T.Unsupported('no start solve')
        if r.what == 'start':
            i = G.index('i', n); c = r.calls[0]
            G.eq('start of the first solve', c['start'].get((i,)), T.app('X0', i) / r.cto0(i)); G.true('size of the first solve', g.same_dim(c['m'], n))
            G.eq('the first solve keeps the start value', val(r.funs[-1].get((n,))), r.l0); G.eq('point of the first solve', val(r.funs[-1].get((i,))), T.app('probe', i) * r.cto0(i))
            x = c['x'](i) * r.cto0(i)
            for nm, f in (('first row', lambda k: self.row(v, T.ZERO, k)), ('current point', lambda k: val(v['XlamP0'].get((k,))))):
                G.eq(nm, f(i), x); G.eq(nm + ', parameter', f(lift(n)), r.l0)
            G.eq('previous point of the start', val(v['XlamPprev'].get((i,))), x); G.eq('previous parameter of the start', val(v['XlamPprev'].get((n,))), r.l0 - r.up)
            G.eq('first step number', val(v['step']), T.UNIT); G.eq('first step size', val(v['ds']), r.ds0)
            G.true('first callback', len(r.cb) == 1)
            if r.cb: G.eq('point of the first callback', r.cb[0][0].get((i,)), x); G.eq('parameter of the first callback', r.cb[0][0].get((n,)), r.l0); G.true('undefined first direction', T.has_nan(val(r.cb[0][1].get((r.j,)))))
        G.true('invariant: the table has one row per allowed step', g.same_dim(v['XlamP_full'].shape[0], r.MS) and g.same_dim(v['XlamP_full'].shape[1], n + 1))
    def havoc(self, v):
        r = self.r; G, n = r.G, r.n
        s = T.var('s', 'I'); G.assume(s >= 1); G.assume(s <= r.MS); self.s = s
        XF = G.array('XF', r.MS, n + 1); self.first = g.yes(T.cmp_(s, '==', T.UNIT)); ds = T.var('ds'); G.assume(ds > 0)
        if not self.first: G.assume(ds >= r.lo); G.assume(ds <= r.hi)
        cur = lambda j: T.app('XF', s - 1, j); r.cur = cur; r.prev = (lambda j: T.app('Xp', j)) if self.first else (lambda j: T.app('XF', s - 2, j)); r.ds = ds; r.s = s
        r.calls.clear(); r.dirs.clear(); r.cb.clear(); r.base = cur; r.head = {k: x for k, x in r.c.__dict__.items()}; self.cfg = dict(r.c.config)
        if r.dyn: r.c.CtoP = G.array('ctoH', n + 1)
        r.c.config['FracLam'] = G.scalar('weightH'); self.described = [(r.c, 'CtoP'), (r.c.config, 'FracLam')]
        self.cto_0 = getattr(r.c, 'CtoP0', None)
        return dict(step=s, XlamP_full=XF, XlamP0=g.new((n + 1,), lambda i: cur(i[0])), XlamPprev=g.new((n + 1,), lambda i: r.prev(i[0])), dirC=G.array('dc', n + 1), ds=ds, sol={'success': True, 'nfev': T.UNIT, 'message': 'm', 'njev': T.UNIT})
    def step(self, v):
        r = self.r; G, n, s, j = r.G, r.n, self.s, r.j
        if r.what != 'main loop': return
        G.true('the last solve converged', bool(r.calls) and r.calls[-1]['ok']); c = r.calls[-1]; sc = r.scale(j, r.cur)
        G.eq('step number', val(v['step']), s + 1); G.eq('new row is the converged point', self.row(v, s, j), sc * c['x'](j))
        q = G.index('q', s); G.eq('earlier rows are kept', self.row(v, q, j), T.app('XF', q, j))
        G.eq('current point', val(v['XlamP0'].get((j,))), sc * c['x'](j)); G.eq('previous point', val(v['XlamPprev'].get((j,))), r.cur(j))
        G.true('step size at least the minimum', leq(r.lo, v['ds'])); G.true('step size at most the maximum', leq(v['ds'], r.hi))
        used = val(c['corr'][3]); G.true('growth of the step size', T.or_(leq(v['ds'], r.inc * used), leq(v['ds'], r.lo)))
        G.true('one callback per converged step', len(r.cb) == 1)
        if r.cb: G.eq('point of the callback', r.cb[0][0].get((j,)), sc * c['x'](j)); G.eq('direction of the callback', r.cb[0][1].get((j,)), T.app('dir%d' % (len(r.dirs) - 1), j) * sc)
        G.true('invariant: the table has one row per allowed step', g.same_dim(v['XlamP_full'].shape[0], r.MS) and g.same_dim(v['XlamP_full'].shape[1], n + 1))
        G.true('the loop goes on with a converged solve', bool(v['sol']['success']))
        self.frame()
    def frame(self):
        r = self.r; d = r.c.__dict__
        r.G.true('settings kept', all(r.c.config.get(k) is self.cfg.get(k) or k == 'FracLam' for k in set(self.cfg) | set(r.c.config)))
        other = [k for k in set(d) | set(r.head) if d.get(k) is not r.head.get(k) and k not in ('CtoP', 'RPtoC')]
        if other: raise T.Unsupported('attributes changed by a step: %s' % other)

class Retry:
    """contract of the retry loop: every try starts from the predicted point with the current step size, halved but not below the minimum"""
    def __init__(self, r): self.r = r
    def started(self, label, v, ds):
        r = self.r; G, j = r.G, r.j; c = r.calls[-1]; d = T.app('dir%d' % (len(r.dirs) - 1), j); sc = r.scale(j, r.cur); co = c['corr']
        G.eq(label + ': start of the solve', c['start'].get((j,)), r.cur(j) / sc + d * val(ds)); G.true(label + ': a corrector equation is solved', co is not None)
        if co is None: return
        G.eq(label + ': corrector from the current point', co[2].get((j,)), r.cur(j) / sc); G.eq(label + ': corrector along the predicted direction', co[4].get((j,)), d); G.eq(label + ': corrector with the current step size', val(co[3]), val(ds)); G.eq(label + ': corrector at the iterate', co[1].get((j,)), T.app('probe', j))
        G.eq(label + ': result of the last solve', val(v['XlamC'].get((j,))), c['x'](j)); G.true(label + ': success of the last solve', bool(v['sol']['success']) == c['ok']); G.eq(label + ': count of the last solve', val(v['sol']['nfev']), c['nfev'])
    def entry(self, v):
        r = self.r; self.fun = v['correct_fun']
        if not r.calls: raise T.Unsupported('no solve before the retry loop')
        if r.what == 'main loop':
            G, j = r.G, r.j; k = len(r.dirs) - 1; G.true('one prediction per weight', k >= 0 and r.c.config['FracLam'] == r.weights[k])
            G.eq('prediction from the current point', r.dirs[-1][0].get((j,)), r.cur(j)); G.eq('prediction with the previous point', r.dirs[-1][1].get((j,)), r.prev(j)); G.eq('prediction with the previous direction', r.dirs[-1][2].get((j,)), T.app('dc', j) if k == 0 else T.app('dir%d' % (k - 1), j))
            G.true('goes on only from points inside the range', r.inside(r.cur(lift(r.n)))); G.true('goes on only below the step limit', val(r.s) < val(r.MS))
        if r.what == 'retry loop': self.started('first try', v, v['ds'])
        self.ds_in = val(v['ds'])
    def havoc(self, v):
        r = self.r; G, n = r.G, r.n; k = len(r.calls); ds = T.var('dsr%d' % k); G.assume(ds > 0); G.assume(ds <= self.ds_in); G.assume(T.or_(ds >= r.lo, T.cmp_(ds, '==', self.ds_in)))
        sc = lambda j: r.scale(j, r.cur); D = 'dir%d' % (len(r.dirs) - 1)
        ok = g.yes(T.var('ok%d' % k) > 0); nf = T.var('nfev%d' % k, 'I'); g.P().assume(nf >= 1)
        w = r.calls[-1]['weight']; old = r.calls[-1]
        r.calls.append(dict(start=None, ok=ok, nfev=nf, m=n + 1, k=k, weight=w, corr=(None, None, None, ds, None), x=lambda i: T.app('x%d' % k, i))); self.ds = ds; self.n = len(r.calls)
        return dict(ds=ds, XlamC=G.array('x%d' % k, n + 1), R=G.array('r%d' % k, n + 1), dRdX=G.array('d%d' % k, n + 1, n + 1), sol={'success': ok, 'nfev': nf, 'message': 'm', 'njev': nf})
    def step(self, v):
        r = self.r; G = r.G
        if r.what != 'retry loop': return
        G.true('one more try', len(r.calls) == self.n + 1); G.true('only failed solves are repeated', not r.calls[self.n - 1]['ok'])
        G.eq('the step size is halved, not below the minimum', val(v['ds']), T.maximum_(self.ds / 2, r.lo)); G.true('step size not increased', leq(v['ds'], self.ds_in)); G.true('step size at least the minimum', T.or_(leq(r.lo, v['ds']), T.cmp_(val(v['ds']), '==', self.ds_in)))
        self.started('next try', v, v['ds'])

@gen('C12', budget=150, replay=('scripted', 'protocol_random'))
def main_loop_any_steps(G):
    r = Run(G); m = Main(r); G.loop('continuation', 0, m); G.loop('continuation', 2, Retry(r))
    try: X = r.run()
    except AssertionError:
        G.true('only a failed start point raises', r.base is None and len(r.calls) == 1 and not r.calls[0]['ok']); G.true('no callback without a start point', not r.cb); return
    if r.what != 'main loop': return
    if r.base is None: raise T.Unsupported('main loop not found')
    # behind the loop
    X = g.as_g(X); j = r.j; q = G.index('q', r.s)
    G.true('one row for every converged step', g.same_dim(X.shape[0], r.s)); G.eq('rows are the converged points', X.get((q, j)), T.app('XF', q, j))
    tried = [c for c in r.calls]
    if tried:
        G.true('stops only after a failed solve', not tried[-1]['ok']); G.true('every weight was tried', len(r.dirs) >= len(r.weights)); G.true('the smallest step was tried', leq(val(tried[-1]['corr'][3]), r.lo))
    else: G.true('stops at the step limit or outside the range', T.or_(T.not_(r.inside(r.cur(lift(r.n)))), val(r.s) >= val(r.MS)))
    G.true('one last callback', len(r.cb) == 1)
    if r.cb: G.true('undefined last point', T.has_nan(val(r.cb[0][0].get((j,)))))
    if not tried and r.cb: G.true('a prediction for the last callback', len(r.dirs) == 1); G.eq('direction of the last callback', r.cb[0][1].get((j,)), T.app('dir0', j) * val(r.c.CtoP.get((j,))))
