from pyded.contracts_api import contract
from .spec import *
from . import g17

@contract('C17', num=120, budget=40, maxcfg=40)
def rotation(D):
    """rows rotated by k*phi/h_rotate for harmonic k; zeroth harmonic and trailing columns unchanged; rotations add"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=HL_SYM + [[0, 1, 3]])
    n = D.pick('Ndof', [1, 2, 3], sym=[1, 2]); r = D.pick('rows', [1, 2, 4], sym=[1, 2]); extra = D.pick('extra', [0, 1, 3], sym=[0, 2])
    kind = D.pick('phase', ['number', 'per row']); hr = D.pick('h_rotate', [1, 2, 3], sym=[1, 2])
    U = D.real('U', (r, nhc(h) * n + extra)); U0 = D.copyarr(U); ha = np.array(h)
    p = D.real('phi') if kind == 'number' else D.real('phi', (r,))
    p0 = p if kind == 'number' else D.copyarr(p)
    R = hu.rotate_subtract_phase(U, n, ha, p, hr)
    S = D.copyarr(U0)
    for q in range(r):
        th = (p0 if kind == 'number' else p0[q]) / hr
        for (k, c, s) in rows(h):
            if k == 0: continue
            a, b = U0[q, c * n:(c + 1) * n], U0[q, s * n:(s + 1) * n]
            co, si = D.np.cos(k * th), D.np.sin(k * th)
            S[q, c * n:(c + 1) * n] = a * co - b * si
            S[q, s * n:(s + 1) * n] = a * si + b * co
    D.eq('rotated by k phi / h_rotate', R, S)
    D.same('input not modified', U, U0)
    if kind != 'number': D.same('phase not modified', p, p0)
    for (k, c, s) in rows(h):
        if k: D.eq('amplitude kept', R[:, c * n:(c + 1) * n] ** 2 + R[:, s * n:(s + 1) * n] ** 2, U0[:, c * n:(c + 1) * n] ** 2 + U0[:, s * n:(s + 1) * n] ** 2)
    D.eq('inverse rotation', hu.rotate_subtract_phase(R, n, ha, -p, hr), U0)
    if not D.sym:
        q = D.real('phi2'); D.eq('rotations add', hu.rotate_subtract_phase(R, n, ha, q, hr), hu.rotate_subtract_phase(U0, n, ha, p + q, hr))
        # pure time shift: the rotated coefficients give the motion at tau - phi/h_rotate
        for row in range(r):
            th = (p if kind == 'number' else p[row]) / hr; tau = 0.731
            def x(v, t):
                y = np.zeros(n)
                for (k, c, s) in rows(h): y += v[c * n:(c + 1) * n] * np.cos(k * t) + (v[s * n:(s + 1) * n] * np.sin(k * t) if s is not None else 0)
                return y
            D.eq('time shift', x(R[row], tau), x(U0[row], tau - th))
    if r == 1 and not D.sym: D.eq('one solution as a vector', hu.rotate_subtract_phase(U0[0], n, ha, p, hr), R)

@contract('C17', num=300, budget=15)
def wrap(D):
    """wrapped phases are in [-pi, pi) and differ from the input by whole turns"""
    hu = D.mod('utils.harmonic')
    n = D.pick('n', [0, 1, 5], sym=[0, 2])
    def draw(r, s):
        v = r.uniform(-40, 40, size=s)
        return np.where(r.random(size=s) < 0.3, np.pi * np.round(v / 4), v)
    p = D.real('p', (n,) if n else None, draw=draw) ; p0 = D.copyarr(p)
    y = hu.shift_pm_pi(p)
    turns = (y - p0) / (2 * D.np.pi)
    if D.sym:
        D.true('lower end', D.np.greater_equal(y, -D.np.pi)); D.true('upper end', D.np.less(y, D.np.pi))
        D.eq('whole turns', turns, D.np.floor(turns))
        D.same('input not modified', p, p0)
    else:
        D.true('lower end', np.asarray(y) >= -np.pi - 1e-12); D.true('upper end', np.asarray(y) < np.pi + 1e-12)
        D.eq('whole turns', turns, np.round(turns)); D.same('input not modified', p, p0)

@contract('C17', num=300, budget=20, paths=3000)
def crossing(D):
    """flagged exactly at the first index of each sign-changing pair whose value is below the tolerance; one flag per entry"""
    hu = D.mod('utils.harmonic')
    n = D.pick('n', [1, 2, 3, 7, 20], sym=[1, 2, 3]); t = D.pick('tolerance', ['default', 'given'])
    def draw(r, s): return r.uniform(-1, 1, size=s) * np.where(r.random(size=s) < 0.2, 5, 1)
    X = D.real('X', (n,), draw=draw); X0 = D.copyarr(X)
    if t == 'given':
        tol = D.real('tol', pos=True); F = hu.zero_crossing(X, tol)
    else: F = hu.zero_crossing(X)
    D.true('one flag per entry', np.shape(F) == (n,))
    for i in range(n):
        f = F[i]
        if i == n - 1: e = (X0[i] != X0[i])
        else:
            e = ((X0[i] > 0) & (X0[i + 1] < 0)) | ((X0[i] < 0) & (X0[i + 1] > 0))
            if t == 'given': e = e & (D.np.abs(X0[i]) < tol)
        if D.sym:
            T_ = T; a, b = T_.as_cond(f), T_.as_cond(e)
            D.true('flag iff sign change', T_.and_(T_.implies(a, b), T_.implies(b, a)))
        else: D.true('flag iff sign change', bool(f) == bool(e))
    D.same('input not modified', X, X0)
