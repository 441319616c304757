import io, contextlib
from pyded.contracts_api import contract
from . import memory
from . import g14
from .spec import *

KEYS = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']

def solver(D, cfg): return D.mod('jax.solvers').NonlinearSolverOMP(config=cfg)

def measures(D, its, k):
    """the six error measures of iteration k (step before the line search, residual and energy of the previous step)"""
    n = lambda v: D.np.sqrt(v @ v)
    it = its[k]; u, r = n(it['step']), n(it['R'])
    m = {'xtol': u, 'rtol': r}
    if k > 0:
        e = it['R'] @ its[k - 1]['taken']; m['etol'] = e
        e1 = abs(its[1]['R'] @ its[0]['taken'])
        m['etol_rel'] = (e, e1)
    m['xtol_rel'] = (u, n(its[0]['step'])); m['rtol_rel'] = (r, n(its[0]['R']))
    return m

def meets(D, m, key, tol):
    if key not in m: return T.FALSE if D.sym else False
    v = m[key]
    if isinstance(v, tuple):
        a, b = v
        if D.sym: return abs(a) < tol * b
        with np.errstate(all='ignore'): return bool(abs(np.float64(a) / np.float64(b)) < tol * (1 + 1e-9))
    return abs(v) < tol if D.sym else bool(abs(v) < tol * (1 + 1e-9))

def check(D, s, cfg, fun, calls, X0, xt, k, bad):
    """one solve; calls records every evaluation (point, gradient asked, R)"""
    keep = {a: (list(b) if isinstance(b, list) else b) for a, b in s.config.items()}; X0k = D.copyarr(X0); steps = []; taken = []
    if s.config['line_search_iters'] > 0:
        real = s.line_search
        def ls(f, X, R, dX):
            steps.append(D.copyarr(dX)); inner = []
            def g(*a, **kk): inner.append(1); r = f(*a, **kk); calls[-1]['ls'] = True; return r
            r = real(g, X, R, dX); taken.append(r[0]); return r
        s.line_search = ls
    with contextlib.redirect_stdout(io.StringIO()): X, R, J, sol = s.nsolve(fun, X0, **k)
    D.same('start point not modified', X0, X0k)
    D.true('configuration unchanged by the solve', {a: (list(b) if isinstance(b, list) else b) for a, b in s.config.items()} == keep)
    main = [c for c in calls if not c.get('ls')]
    D.true('at least one and at most the allowed iterations', 1 <= len(main) <= cfg['max_steps'])
    D.true('exact count of evaluations', sol['nfev'] == len(main)); D.true('exact count of gradient evaluations', sol['njev'] == len([c for c in main if c['grad']]))
    undefined = main[-1]['bad'] or not (D.sym or np.all(np.isfinite(X)))
    if undefined: D.true('no success after undefined values', not sol['success'])
    D.eq('iterations start at the given point', main[0]['X'], X0)
    ended = main[-1]['bad'] or (not D.sym and (np.array_equal(np.asarray(X), main[-1]['X'], equal_nan=True)) and not sol['success'])
    if not sol['success']:
        if ended: D.same('the returned point is the last iterate', X, main[-1]['X'])
        return
    pts = [c['X'] for c in main] + [X]
    its = [dict(R=c['R'], taken=pts[i + 1] - pts[i], step=steps[i] if steps else pts[i + 1] - pts[i]) for i, c in enumerate(main)]
    m = measures(D, its, len(main) - 1)
    tols = dict(cfg); tols['xtol'] = xt
    keys = list(cfg.get('stopping_tol', ['xtol'])) + (list(cfg.get('accepting_tol', [])) if len(main) == cfg['max_steps'] else [])
    ok = [meets(D, m, q, tols[q]) for q in keys]
    D.true('a requested tolerance holds for the last step', T.or_(*ok) if D.sym else any(ok))
    # the point is the last iterate: the last step is the linearised (or line-searched) step from the last evaluation
    if main[-1]['grad'] and not steps:
        D.eq('the returned point is the last iterate', main[-1]['J'] @ (X - main[-1]['X']), -1 * main[-1]['R'], tol=1e-6)
    if steps: D.eq('the returned point is the last iterate', X - main[-1]['X'], taken[-1] * steps[-1], tol=1e-9)

def make_fun(D, n, calls, value):
    def fun(X, calc_grad=True):
        R, J, bad = value(len([1 for c in calls]), X)
        calls.append(dict(X=D.copyarr(X), grad=bool(calc_grad), R=D.copyarr(R), J=J, bad=bad))
        return (R, J) if calc_grad else (R,)
    return fun

@contract('C14', num=500, budget=60, maxcfg=30, paths=2000)
def nsolve(D):
    """any function (also undefined values), start point, tolerance lists, reform frequencies and line-search settings"""
    n = D.pick('n', [1, 2, 3, 4], sym=[1]); mx = D.pick('max_steps', [1, 2, 3, 10, 20], sym=[1, 2]); stop = D.pick('stopping', [['xtol'], ['rtol'], ['etol'], ['xtol_rel'], ['rtol_rel', 'etol_rel'], ['etol_rel'], ['xtol', 'rtol'], [], KEYS], sym=[['xtol'], ['rtol_rel'], ['xtol_rel']])
    acc = D.pick('accepting', [[], ['rtol'], ['xtol_rel', 'etol'], ['xtol']], sym=[[], ['rtol']]); rf = D.pick('reform_freq', [1, 1, 2, 3, 7], sym=[1] if mx == 1 else [1, 2]); li = D.pick('line_search_iters', [0, 0, 1, 4], sym=[0])
    cfg = dict(max_steps=mx, reform_freq=rf, stopping_tol=stop, accepting_tol=acc, line_search_iters=li, verbose=D.pick('verbose', [False, True], sym=[False]), line_search_same_sign=D.pick('same sign', [True, False], sym=[True]))
    for q in KEYS: cfg[q] = D.real(q, pos=True) if D.sym else 10.0 ** D.real(q, lo=-9, hi=1)
    how = D.pick('xtol from', ['config', 'argument', 'default'], sym=['config', 'argument', 'default'] if mx == 1 and stop == ['xtol'] else ['config']); k = {}; xt = cfg['xtol']
    if how == 'argument': xt = D.real('xtolarg', pos=True) if D.sym else 10.0 ** D.real('xtolarg', lo=-9, hi=1); k = dict(xtol=xt)
    if how == 'default': cfg['xtol'] = None; xt = D.rat(Fr(1, 10 ** 6))[0] * n
    calls = []; X0 = D.real('X0', (n,))
    kind = D.pick('function', ['solvable', 'wild', 'undefined', 'singular'], sym=['wild'])
    if D.sym:
        def value(j, X):
            J = D.real('J%d' % j, (n, n))
            if ('nz', j) not in D.stubs: D.assume(J[0, 0] != 0); D.stubs['nz', j] = 1
            R = D.real('R%d' % j, (n,))
            if j == 0: D.assume(R[0] != 0)
            return R, J, False
    else:
        A = D.real('A', (n, n)) + 3 * np.eye(n); q = D.real('q', lo=0, hi=1); b = D.real('b', (n,)); at = D.pick('undefined at', [0, 1, 2, 3]); what = D.pick('undefined', ['R', 'J'])
        rs = D.pick('seed', list(range(10 ** 6)))
        def value(j, X):
            r = np.random.default_rng([rs, j]); X = np.array(X)
            if kind == 'wild': R, J = r.uniform(-1, 1, n) * 10.0 ** r.integers(-6, 2), r.uniform(-1, 1, (n, n)) + 2 * np.eye(n)
            elif kind == 'singular' and j >= at: R, J = A @ X - b, np.zeros((n, n))
            else: R, J = A @ X + q * X ** 3 - b, A + np.diag(3 * q * X ** 2)
            bad = False
            if kind == 'undefined' and j >= at:
                if what == 'R': R = R * 1.0; R[-1] = np.nan; bad = True
                else: J = J * 1.0; J[0, -1] = np.nan; bad = 'J'
            return R, J, bad
    s = solver(D, cfg)
    raw = make_fun(D, n, calls, value)
    def fun(X, calc_grad=True):
        r = raw(X, calc_grad)
        if calls[-1]['bad'] == 'J': calls[-1]['bad'] = bool(calc_grad)
        return r
    check(D, s, cfg, fun, calls, X0, xt, k, None)

@contract('C14', num=500, budget=60, maxcfg=24, paths=2000)
def line_search(D):
    """step fraction in (0, 1], iteration limit, residual of the returned fraction, sign option"""
    n = D.pick('n', [1, 2, 4], sym=[1]); it = D.pick('iterations', [1, 2, 5, 12], sym=[1, 2, 3]); ss = D.pick('same sign', [True, False])
    tol = D.real('tol', lo=0.01, hi=0.9) if not D.sym else D.real('tol', pos=True)
    s = solver(D, dict(line_search_iters=it, line_search_same_sign=ss, line_search_tol=tol, verbose=D.pick('verbose', [False, True], sym=[False])))
    X, dX, R0 = D.real('X', (n,)), D.real('dX', (n,), nonzero=True), D.real('R', (n,)); tried = []; keep = [D.copyarr(v) for v in (X, dX, R0)]
    rs = D.pick('seed', list(range(10 ** 6)), sym=[0]); lin = D.pick('function', ['wild', 'smooth'], sym=['wild'])
    def fun(Y, calc_grad=True):
        j = len(tried)
        if D.sym: R = D.real('R%d' % j, (n,))
        elif lin == 'wild': R = np.random.default_rng([rs, j]).uniform(-1, 1, n)
        else: R = R0 + (Y - X) * 1.7 * np.abs(R0[0]) * (1 + np.sin(3 * Y))
        tried.append((D.copyarr(Y), D.copyarr(R), calc_grad)); return (R,)
    with contextlib.redirect_stdout(io.StringIO()): a, sol = s.line_search(fun, X, R0, dX)
    for v, w in zip((X, dX, R0), keep): D.same('inputs not modified', v, w)
    D.true('fraction above zero and at most one', 0 < a <= 1)
    D.true('within the iteration limit', len(tried) <= it + 1); D.true('exact count of evaluations', sol['nfev'] == len(tried))
    al = [(Y - X)[0] / dX[0] for Y, R, g in tried]
    hit = [j for j in range(len(tried)) if (al[j] - a).m == {}] if D.sym else [j for j in range(len(tried)) if abs(al[j] - a) < 1e-9]
    D.true('the fraction was evaluated', len(hit) > 0)
    if not hit: return
    D.eq('residual at the returned fraction', sol['R(alpha)'], tried[hit[-1]][1])
    if ss:
        G0 = dX @ R0; G = [dX @ R for Y, R, g in tried]
        # same sign, unless no tried fraction has it (bracketing never left zero)
        other = [g * G0 < 0 for g in G]
        if D.sym: D.true('same sign as the start', T.or_(G[hit[-1]] * G0 >= 0, T.and_(*[g * G0 <= 0 for g in G])))
        else: D.true('same sign as the start', G[hit[-1]] * G0 >= 0 or all(g * G0 <= 0 for g in G))

@contract('C14', num=60, sym=False)
def solves(D):
    """solvable problems are solved: the solution satisfies the system, with every reform frequency and line search"""
    n = D.pick('n', [1, 2, 4]); A = D.real('A', (n, n)) * 0.3 + 3 * np.eye(n); q = D.real('q', lo=0, hi=0.3); b = D.real('b', (n,), lo=-1, hi=1)
    fun = lambda X, calc_grad=True: (A @ X + q * X ** 3 - b, A + np.diag(3 * q * X ** 2)) if calc_grad else (A @ X + q * X ** 3 - b,)
    s = solver(D, dict(max_steps=40, reform_freq=D.pick('reform', [1, 2, 4]), line_search_iters=D.pick('ls', [0, 3]), verbose=False, xtol=1e-9))
    X, R, J, sol = s.nsolve(fun, D.real('X0', (n,), lo=-1, hi=1))
    if sol['success']: D.eq('solution', fun(np.asarray(X))[0], np.zeros(n), tol=1e-6)
