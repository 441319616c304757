from pyded.contracts_api import contract
from .spec import *

def grid(D, name, m, gap=0.05):
    """strictly increasing values"""
    g = D.real(name + '0'); st = D.real(name + ' steps', (m - 1,), pos=True)
    v = [g]
    for k in range(m - 1): v.append(v[-1] + st[k])
    return D.np.array(v)

def query(D, name, ref, where):
    """a query value: stored, between two neighbours, or outside; returns (value, row, fraction or None if outside)"""
    m = len(ref)
    if where == 'below': return ref[0] - D.real(name + 'out', pos=True), None, None
    if where == 'above': return ref[m - 1] + D.real(name + 'out', pos=True), None, None
    if where[0] == 'at': k = where[1] % m; return ref[k] + 0, k, 0
    k = where[1] % (m - 1); f = D.real(name + 'f', lo=0, hi=1)
    if D.sym: D.assume(f > 0); D.assume(f < 1)
    return ref[k] + f * (ref[k + 1] - ref[k]), k, f

WHERE = ['below', 'above', ('at', 0), ('at', 1), ('at', 2), ('at', 3), ('at', -1), ('in', 0), ('in', 1), ('in', 2), ('in', 3)]

@contract('C16', num=600, budget=60, maxcfg=60)
def linear(D):
    """stored rows at stored values, straight-line blend between neighbours, undefined rows outside"""
    m = D.pick('points', [2, 3, 5], sym=[2, 3]); n = D.pick('columns', [1, 2, 4], sym=[2]); own = D.pick('reference', ['last column', 'given'])
    ref = grid(D, 'ref', m); Y = D.real('Y', (m, n))
    if own == 'last column': Y[:, n - 1] = ref
    q = D.pick('queries', [1, 2, 5, 0], sym=[1, 2] if m == 2 else [1]); scalar = D.pick('scalar query', [0, 1]) if q == 1 else 0
    qs = [query(D, 'q%d' % i, ref, D.pick('where %d' % i, WHERE, sym=WHERE[:2] + [w for w in WHERE[2:] if 0 <= w[1] < m - (w[0] == 'in')] if q == 1 else ['below', ('at', 1), ('in', 0)])) for i in range(q)]
    vals = D.np.array([v for v, _, _ in qs]) if q else (np.zeros(0) if not D.sym else D.np.zeros((0,))); arg = vals[0] if scalar else vals
    keep = [D.copyarr(v) for v in (Y, ref, vals)]; f = D.mod('postprocess.continuation').linear_interp
    r = f(Y, arg) if own == 'last column' else f(Y, arg, ref)
    D.true('one row for each query', tuple(r.shape) == (max(q, scalar), n))
    if tuple(r.shape) != (max(q, scalar), n): return
    for i, (v, k, s) in enumerate(qs):
        if k is None: D.eq('undefined outside the range', r[i], D.np.full((n,), D.np.nan))
        elif isinstance(s, int): D.eq('stored row at a stored value', r[i], keep[0][k], tol=1e-12)
        else: D.eq('blend of the neighbouring rows', r[i], keep[0][k] * (1 - s) + keep[0][k + 1] * s, tol=1e-9)
    for a, b in zip((Y, ref, vals), keep): D.same('inputs not modified', a, b)

def hermite_at(x, y, d, k, t):
    """unique cubic on [x_k, x_k+1] with the end values and slopes: Newton form in t=(v-x_k)"""
    h = x[k + 1] - x[k]; s = (y[k + 1] - y[k]) / h
    return y[k] + t * (d[k] + t / h * ((s - d[k]) + (t - h) / h * (d[k] + d[k + 1] - 2 * s)))

def data(D, m, n):
    x = grid(D, 'lam', m); Y = D.real('Y', (m, n)); G = D.real('G', (m, n)); Y[:, n - 1] = x; sl = D.real('speed', (m,), pos=True); G[:, n - 1] = sl
    d = G[:, :n - 1] / D.np.reshape(sl, (m, 1))
    return x, Y, G, d

@contract('C16', num=600, budget=60, maxcfg=60)
def cubic(D):
    """through every stored point with the stored slope; on each interval the cubic these determine (so exact for cubic data)"""
    m = D.pick('points', [2, 3, 5], sym=[2, 3]); n = D.pick('columns', [1, 2, 4], sym=[2]); x, Y, G, d = data(D, m, n)
    W = [w for w in WHERE[2:]]; q = D.pick('queries', [1, 2, 5], sym=[1, 2] if m == 2 else [1])
    qs = [query(D, 'q%d' % i, x, D.pick('where %d' % i, W, sym=[w for w in W if 0 <= w[1] < m - (w[0] == 'in')] if q == 1 else [('at', 1), ('in', 0)])) for i in range(q)]
    vals = D.np.array([v for v, _, _ in qs]); P = D.mod('postprocess.continuation')
    if not D.sym: vals = np.clip(vals, x[0], x[-1])
    keep = [D.copyarr(v) for v in (Y, G, vals)]
    r = P.hermite_interp(Y, G, vals) if D.pick('through', ['interp', 'upsample']) == 'interp' else P.hermite_upsample(Y, G, new_lams=vals)
    D.true('one row for each query', tuple(r.shape) == (q, n))
    if tuple(r.shape) != (q, n): return
    for i, (v, k, s) in enumerate(qs):
        D.eq('continuation parameter of the query', r[i, n - 1], vals[i])
        if isinstance(s, int): D.eq('stored point', r[i, :n - 1], keep[0][k, :n - 1], tol=1e-9)
        else: D.eq('cubic between the stored points', r[i, :n - 1], hermite_at(x, Y[:, :n - 1], d, k, s * (x[k + 1] - x[k])), tol=1e-8)
    for a, b in zip((Y, G, vals), keep): D.same('inputs not modified', a, b)

@contract('C16', num=400, budget=60, maxcfg=24)
def upsample(D):
    """every original point is kept in order, the ends stay, the parameter values blend evenly in between"""
    m = D.pick('points', [2, 3, 6], sym=[2, 3]); n = D.pick('columns', [1, 2, 4], sym=[2]); x, Y, G, d = data(D, m, n); f = D.pick('factor', [1, 2, 3, 7, 10, 'default'], sym=[1, 2, 3])
    keep = [D.copyarr(v) for v in (Y, G)]; P = D.mod('postprocess.continuation')
    r = P.hermite_upsample(Y, G) if f == 'default' else P.hermite_upsample(Y, G, f); f = 10 if f == 'default' else f
    ok = tuple(r.shape) == ((m - 1) * f + 1, n); D.true('number of points', ok)
    if not ok: return
    for k in range(m):
        D.eq('original points kept', r[k * f], keep[0][k], tol=1e-9)
        for i in range(1, f if k < m - 1 else 0):
            t = (D.rat(Fr(i, f))[0] if D.sym else i / f) * (x[k + 1] - x[k])
            D.eq('new points on the curve', r[k * f + i], D.np.hstack((hermite_at(x, Y[:, :n - 1], d, k, t), x[k] + t)), tol=1e-8)
    for a, b in zip((Y, G), keep): D.same('inputs not modified', a, b)

@contract('C16', num=300, budget=30, maxcfg=40)
def rejected(D):
    """non-monotonic data and out-of-range requests are refused"""
    m = D.pick('points', [2, 3, 5], sym=[2, 3]); n = 2; x, Y, G, d = data(D, m, n); P = D.mod('postprocess.continuation')
    why = D.pick('why', ['order', 'equal', 'slope', 'zero slope', 'above', 'below', 'reference order', 'reference equal']); k = D.pick('where', [0, 1, 2, 3], sym=[0, 1]) % (m - 1); mid = (x[k] + x[k + 1]) / 2
    q = D.np.array([mid, mid]); p = D.real('p', pos=True); both = D.pick('call', ['interp', 'upsample'])
    run = lambda: P.hermite_interp(Y, G, q) if both == 'interp' else P.hermite_upsample(Y, G, new_lams=q)
    if why in ('order', 'reference order'): Y[k + 1, n - 1] = Y[k, n - 1] - p
    if why in ('equal', 'reference equal'): Y[k + 1, n - 1] = Y[k, n - 1]
    if why == 'slope': G[k + D.pick('end', [0, 1]), n - 1] = -p
    if why == 'zero slope': G[k, n - 1] = 0
    if why == 'above': q[D.pick('which', [0, 1])] = x[m - 1] + p
    if why == 'below': q[D.pick('which', [0, 1])] = x[0] - p
    if why.startswith('reference'):
        ref = D.copyarr(Y[:, n - 1])
        own = D.pick('own', [0, 1]); Z = Y if own else D.real('Z', (m, n))
        D.raises('refused', lambda: P.linear_interp(Z, q) if own else P.linear_interp(Z, q, ref), AssertionError, ValueError)
    else: D.raises('refused', run, AssertionError, ValueError)
