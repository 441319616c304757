import io, contextlib
from pyded.contracts_api import contract
from . import memory
from . import g12
from .spec import *

def run(D, case, script, verbose):
    """one continuation with a solver whose answers follow the script; everything observable is recorded"""
    n, A, g, Xs, lam0, lam1, cfg, cto, mu = case
    S = D.mod('solvers').NonlinearSolver
    calls = []; cb = []
    class Solver(S):
        def nsolve(self, fun, X0, verbose=True, xtol=None, **k):
            j = len(calls); x, ok, nf = script(j)
            row = None if D.sym or j == 0 else np.array(fun(np.array(X0))[1])[-1]      # (gradient of the arc-length equation)
            calls.append(dict(X0=D.copyarr(X0), X=D.copyarr(x), ok=ok, nfev=nf, row=row, frac=cont.config.get('FracLam')))
            return D.copyarr(x), D.np.zeros((len(x),)), D.np.eye(len(x)), {'success': ok, 'nfev': nf, 'message': 'scripted', 'njev': 0, 'nit': 1}
        def lin_solve(self, A_, b): return D.np.linalg.solve(A_, b)
    def fun(X, calc_grad=True):
        R = A @ X[:-1] + g * X[-1]
        return (R, A * 1.0, g * 1.0) if calc_grad else (R,)
    config = dict(cfg, verbose=verbose, callback=lambda X, d: cb.append((D.copyarr(X), D.copyarr(d))), FracLamList=list(cfg['FracLamList']))
    keep = dict(config); keepl = list(config['FracLamList'])
    cont = D.mod('continuation').Continuation(Solver(), ds0=cfg['ds0'], CtoP=None if cto is None else D.copyarr(cto), config=config)
    if D.sym:
        if not hasattr(cont, 'predict'): raise T.Unsupported('no predictor method')
        k = [0]
        def predict(*a, **kw):
            k[0] += 1; d = D.real('dir%d' % k[0], (n + 1,))
            b = cont.config['FracLam']; D.assume(b * d[-1] * d[-1] <= 1)
            return d
        cont.predict = predict
    X0 = D.copyarr(Xs); out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try: r = cont.continuation(fun, X0, lam0, lam1)
        except AssertionError as e: r = None
    D.same('start point not modified', X0, Xs)
    D.true('settings of the caller not modified', config == keep and config['FracLamList'] == keepl)
    return r, calls, cb, out.getvalue(), cont

def used_weight(d, g, X0, weights, fallback):
    """weight of a step from the gradient of its arc-length equation: (g_l/d_l) / (g_X.d_X/|d_X|^2) = b |X0|^2 / (1 - b)"""
    dX, N = d[:-1], X0[:-1] @ X0[:-1]
    if dX @ dX < 1e-16 * (d @ d) or abs(d[-1]) < 1e-8 * np.max(np.abs(d)): return fallback
    with np.errstate(all='ignore'):
        cX = g[:-1] @ dX / (dX @ dX); b = 1.0 if np.all(g[:-1] == 0) else (lambda rho: rho / (N + rho))(g[-1] / d[-1] / cX)
    return min(weights, key=lambda w: abs(w - b)) if np.isfinite(b) else weights[0]

def same_point(D, label, a, b): D.eq(label, a, b, tol=1e-12)

def protocol(D, case, script, verbose):
    n, A, g, Xs, lam0, lam1, cfg, cto, sgn = case
    r, calls, cb, text, cont = run(D, case, script, verbose)
    if verbose < 0: D.true('silent run prints nothing', text == '')
    C = D.np.ones((n + 1,)) if cto is None else D.np.abs(cto)
    if r is None:
        D.true('only a failed start point raises', len(calls) == 1 and not calls[0]['ok']); D.true('no callback without a start point', not cb); return None
    D.true('a failed start point raises', bool(calls[0]['ok']))
    good = [calls[0]] + [c for c in calls[1:] if c['ok']]
    D.true('one row for every converged step', r.shape[0] == len(good)); m = r.shape[0]
    if m != len(good): return None
    dyn = cfg.get('DynamicCtoP', False)
    for k, c in enumerate(good):
        if k == 0: same_point(D, 'first point', r[0], D.np.hstack((c['X'] * C[:-1], lam0)))
        else:
            Ck = D.np.maximum(D.np.abs(r[k - 1]), C) if dyn else C
            same_point(D, 'converged points in order', r[k], c['X'] * Ck)
    D.true('step limit', m <= max(1, cfg['MaxSteps']))
    lam = [x[-1] for x in r]; back = cfg.get('backtrackStop')
    inside = [T.and_(sgn * l < sgn * lam1, *( [] if back is None else [sgn * l > sgn * lam0 - back])) if D.sym else bool(sgn * l < sgn * lam1 and (back is None or sgn * l > sgn * (lam0 - sgn * back))) for l in lam]
    for k in range(m - 1): D.true('goes on only from points inside the range', inside[k])
    failed = not calls[-1]['ok']
    if not failed and m < cfg['MaxSteps']: D.true('stops early only outside the range or after a failure', T.not_(inside[-1]) if D.sym else not inside[-1])
    # attempts: every retry after a failure, at the latest until the smallest step and the last weight have failed
    row = 0; fr = list(cfg['FracLamList']); f0 = cfg.get('FracLam', 0.5)
    if not fr or fr[0] != f0: fr = [f0] + fr
    for j, c in enumerate(calls[1:], 1):
        if calls[j - 1]['ok'] and j > 1: row += 1
        Ck = D.np.maximum(D.np.abs(r[row]), C) if dyn else C
        d = c['X0'] - r[row] / Ck
        if D.sym: continue
        b = c['frac'] = used_weight(d, c['row'], r[row] / Ck, fr, c['frac']); cc = (1 - b) / np.linalg.norm(r[row][:-1] / Ck[:-1]) ** 2
        ds = np.sqrt(cc * d[:-1] @ d[:-1] + b * d[-1] ** 2); c['ds'] = ds
        D.true('step within the limits', cfg['dsmin'] * (1 - 1e-6) <= ds <= cfg['dsmax'] * (1 + 1e-6))
        if j == 1: D.eq('first step size', ds, cfg['ds0'], tol=1e-7)
        elif not calls[j - 1]['ok'] and calls[j - 1]['frac'] == b and j > 1: D.true('retry with a smaller step', ds < calls[j - 1]['ds'] * (1 - 1e-9))
    if failed and not D.sym:
        D.eq('gives up at the smallest step', calls[-1]['ds'], cfg['dsmin'], tol=1e-6); D.true('gives up after the last weight', calls[-1]['frac'] == fr[-1])
    # callback protocol
    D.true('one callback for every point and a last one', len(cb) == m + 1)
    if len(cb) != m + 1: return None
    nan = D.np.nan
    for k in range(m):
        D.eq('callback point', cb[k][0], r[k], tol=1e-12)
        if k == 0: D.eq('undefined direction first', cb[0][1], D.np.ones((n + 1,)) * nan)
        elif not D.sym: D.true('direction defined', np.all(np.isfinite(cb[k][1])))
    D.eq('undefined point last', cb[m][0], D.np.ones((n + 1,)) * nan)
    if not D.sym: D.true('last direction defined', np.all(np.isfinite(cb[m][1])))
    return r, cb, calls

@contract('C12', num=400, budget=90, maxcfg=12, paths=3000)
def scripted(D):
    """any sequence of solver answers (points, success flags, evaluation counts): returned points, callbacks, stopping, step
    limits and caller's settings; three verbosities give the same run"""
    n = D.pick('n', [1, 2, 4], sym=[1]); sgn = D.pick('direction', [1, -1])
    lam0 = D.real('lam0'); span = D.real('span', pos=True) if D.sym else D.real('span', lo=0.5, hi=6); lam1 = lam0 + sgn * span
    A = D.np.eye(n) * 1.0 if D.sym else D.real('A', (n, n)) + 3 * np.eye(n); g = D.real('g', (n,)); Xs = D.real('start', (n + 1,), nonzero=True)
    if D.sym: cfg = dict(ds0=1, dsmin=Fr(1, 2), dsmax=2, MaxSteps=D.pick('MaxSteps', [1, 2, 3]), TargetNfev=20, FracLamList=D.pick('weights', [[], [Fr(1, 2), 1]]), FracLam=Fr(1, 2), MaxIncrease=Fr(6, 5))
    else:
        ds0 = D.real('ds0', lo=0.05, hi=0.5)
        cfg = dict(ds0=ds0, dsmin=ds0 / D.pick('dsmin', [1.0, 3.0, 8.0]), dsmax=ds0 * D.pick('dsmax', [1.0, 1.5, 10.0]), MaxSteps=D.pick('MaxSteps', [1, 2, 3, 8, 30]), TargetNfev=D.pick('target', [1, 5, 20]), FracLamList=D.pick('weights', [[], [0.5], [0.5, 0.9], [0.3, 1.0, 0.7]]), MaxIncrease=D.pick('MaxIncrease', [1.2, 1.0, 3.0]))
        if cfg['FracLamList']: cfg['FracLam'] = D.pick('first weight listed', [cfg['FracLamList'][0], 0.5])
        cfg['corrector'] = D.pick('corrector', ['Ortho', 'Pseudo'])
        if D.pick('dynamic', [0, 0, 1]): cfg['DynamicCtoP'] = True
    bt = D.pick('backtrack', [0, 1], sym=[1])
    if bt: cfg['backtrackStop'] = D.real('backtrackStop', pos=True)
    cto = None if D.pick('scaling', [0, 1], sym=[0]) == 0 else D.real('CtoP', (n + 1,), nonzero=True)
    case = (n, A, g, Xs, lam0, lam1, cfg, cto, sgn)
    if D.sym:
        made = {}
        def script(j):
            if j not in made: made[j] = (D.real('x%d' % j, (n + (j > 0),)), bool(T.boolvar('ok%d' % j)), 7 + j)
            return made[j]
        protocol(D, case, script, D.pick('verbose', [-1])); return
    seed = D.pick('script', list(range(10 ** 6))); rate = D.pick('failures', [0.0, 0.1, 0.4, 0.7]); first = D.pick('start fails', [0, 0, 0, 0, 1]); wild = D.pick('jumps', [0, 1])
    def make():
        r = np.random.default_rng(seed); made = []; state = [lam0]
        C = np.ones(n + 1) if cto is None else np.abs(cto)
        def script(j):
            ok = r.random() >= rate if j else not first
            x = r.uniform(0.2, 2, size=n + (j > 0)) * r.choice([1, -1])
            if j:
                l = state[0] + sgn * r.uniform(-0.8 if wild else 0.1, 1.5) * span / 4
                if ok: state[0] = l
                x[-1] = l / C[-1] if not cfg.get('DynamicCtoP') else l
            return x, ok, int(r.integers(1, 60))
        return script
    rs = [protocol_case(D, case, make(), v) for v in (-1, 0, 1, 100)]
    if rs[0] is not None and all(x is not None for x in rs):
        for x in rs[1:]:
            D.same('output level changes no point', x[0], rs[0][0])
            for a, b in zip(x[1], rs[0][1]): D.same('output level changes no callback', a[0], b[0]); D.same('output level changes no callback', a[1], b[1])

def protocol_case(D, case, script, v): return protocol(D, case, script, v)

@contract('C12', num=60, sym=False)
def real_solver(D):
    """with the package's own solver: every returned point solves the problem, ends past the end value or at a limit"""
    n = D.pick('n', [1, 2, 3]); A = D.real('A', (n, n)) * 0.3 + 2 * np.eye(n); g = D.real('g', (n,)); q = D.real('q', lo=0, hi=1); sgn = D.pick('direction', [1, -1])
    def fun(X, calc_grad=True):
        R = A @ X[:-1] + q * X[:-1] ** 3 + g * X[-1] - 1
        return (R, A + np.diag(3 * q * X[:-1] ** 2), g * 1.0) if calc_grad else (R,)
    S = D.mod(D.pick('solver', ['solvers', 'jax.solvers'])); S = S.NonlinearSolver() if hasattr(S, 'NonlinearSolver') and not hasattr(S, 'NonlinearSolverOMP') else S.NonlinearSolverOMP()
    pts = []
    cont = D.mod('continuation').Continuation(S, ds0=0.2, config=dict(dsmax=1.0, dsmin=0.02, MaxSteps=D.pick('MaxSteps', [4, 60]), verbose=-1, corrector=D.pick('corrector', ['Ortho', 'Pseudo']), callback=lambda X, d: pts.append(X.copy())))
    lam0 = D.real('lam0'); lam1 = lam0 + sgn * D.real('span', lo=0.5, hi=2)
    r = cont.continuation(fun, np.hstack((np.linalg.solve(A, 1 - g * lam0) * 0.7 + 0.1, lam0)), lam0, lam1)
    for x in r: D.true('returned point solves the problem', np.max(np.abs(fun(x, False)[0])) < 1e-4)
    D.eq('first point at the requested value', r[0, -1], lam0); D.eq('callback points', np.array(pts[:-1]), r)
