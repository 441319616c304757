from pyded.contracts_api import contract
from .spec import *

HS = [[1], [0, 1], [0, 1, 2], [1, 2], [1, 3], [0, 1, 3], [0, 1, 2, 3], [1, 2, 3]]

def backbone(D, m, n, h, name='B'):
    """rows: harmonics, frequency, damping coefficient xi, log10 of the modal amplitude (increasing)"""
    N = nhc(h) * n; B = D.real(name, (m, N + 3)); w, xi = D.real(name + ' w', (m,), pos=True), D.real(name + ' xi', (m,), pos=True); a = D.real(name + ' a0', lo=-2, hi=0) if not D.sym else D.real(name + ' a0')
    st = D.real(name + ' da', (m,), pos=True)
    for k in range(m):
        B[k, N] = w[k]; B[k, N + 1] = xi[k] * (1 if D.sym else D.pick('damping scale', [0.02, 0.3, 1.0])); B[k, N + 2] = a; a = a + st[k]
    return B

def parts(U, h, n):
    """first-harmonic cosine and sine parts"""
    c = next(c for k, c, s in rows(h) if k == 1)
    return U[c * n:(c + 1) * n], U[(c + 1) * n:(c + 2) * n]

def scaled(D, row, h, n, q):
    """physical harmonics: everything but the static part times the modal amplitude"""
    N = nhc(h) * n; z = n if h[0] == 0 else 0
    return D.np.hstack((row[:z], row[z:N] * q)) if z else row[:N] * q

def rotated(D, U, h, n, th):
    R = D.copyarr(U)
    for k, c, s in rows(h):
        if k == 0: continue
        a, b = U[c * n:(c + 1) * n], U[s * n:(s + 1) * n]; co, si = D.np.cos(k * th), D.np.sin(k * th)
        R[c * n:(c + 1) * n] = a * co - b * si; R[s * n:(s + 1) * n] = a * si + b * co
    return R

def optional(D, name, m, kind, default):
    """None, a number or one value for each row; (argument, values used)"""
    if kind == 'none': return None, default
    if kind == 'number': v = D.real(name, pos=True); return v, D.np.ones((m,)) * v
    v = D.real(name, (m,), pos=True); return v, D.copyarr(v)

@contract('C18', num=500, budget=60, maxcfg=40, paths=800)
def constant_force(D):
    """every returned point satisfies the single-mode balance with its amplitude's mode; no real frequency is lost"""
    m = D.pick('points', [1, 2, 4], sym=[1, 2]); n = D.pick('Ndof', [1, 2, 3], sym=[1, 2] if m == 1 else [1]); h = D.pick('h', HS, sym=[[1], [0, 1], [0, 1, 2]] if m == 1 else [[0, 1]]); N = nhc(h) * n
    B = backbone(D, m, n, h); ha = np.array(h); K = {}; kw, kz = D.pick('w', ['none', 'number', 'array'], sym=['none', 'array']), D.pick('zeta', ['none', 'number', 'array'], sym=['none', 'number'] if m == 1 else ['none'])
    aw, w = optional(D, 'wn', m, kw, D.copyarr(B[:, N])); az, z = optional(D, 'zeta', m, kz, B[:, N + 1] / (2 * w))
    if aw is not None: K['w'] = aw
    if az is not None:
        if not D.sym: az = az * 0.2; z = z * 0.2
        K['zeta'] = az
    q = 10 ** B[:, -1]
    how = D.pick('force', ['vector', 'numbers', 'arrays'], sym=['vector', 'arrays'] if m == 1 else ['vector'])
    if how == 'vector':
        F = D.real('F', (N,)); K['Fl'] = F; fc, fs = parts(F, h, n); re, im = [], []
        for k in range(m): pc, ps = parts(B[k], h, n); re.append(pc @ fc + ps @ fs); im.append(ps @ fc - pc @ fs)
        re, im = D.np.array(re), D.np.array(im)
    elif how == 'numbers':
        a, b = D.real('re'), D.real('im'); K.update(phiH_Fl_real=a, phiH_Fl_imag=b); re, im = D.np.ones((m,)) * a, D.np.ones((m,)) * b
    else: re, im = D.real('re', (m,)), D.real('im', (m,)); K.update(phiH_Fl_real=D.copyarr(re), phiH_Fl_imag=D.copyarr(im))
    keep = [D.copyarr(B)] + [(k, D.copyarr(v) if isinstance(v, np.ndarray) else v) for k, v in K.items()]
    # expected points: both branches of (w^2-O^2)^2 + 4 z^2 w^2 O^2 = |phi^H F|^2 / q^2, increasing frequency along the resonance
    pts = []
    for sg, ks in ((1, range(m)), (-1, range(m - 1, -1, -1))):
        for k in ks:
            p2 = w[k] * w[k] - 2 * (z[k] * w[k]) ** 2; arg = p2 * p2 - w[k] ** 4 + (re[k] ** 2 + im[k] ** 2) / q[k] ** 2
            if not D.sym and abs(arg) < 1e-7: D.assume(False)
            if D.sym: D.assume(re[k] ** 2 + im[k] ** 2 > 0)
            if not bool(arg >= 0): continue
            o2 = p2 + sg * D.np.sqrt(arg)
            if not D.sym and abs(o2) < 1e-7: D.assume(False)
            if bool(o2 > 0): pts.append((k, D.np.sqrt(o2)))
    pts.reverse()
    R, A, P = D.mod('roms.epmc').constant_force(B, n, ha, **K)
    D.true('no point lost and none without a real frequency', tuple(R.shape) == (len(pts), N + 1) and tuple(A.shape) == tuple(P.shape) == (len(pts),))
    if tuple(R.shape) != (len(pts), N + 1): return
    for j, (k, O) in enumerate(pts):
        D.eq('modal amplitude of the backbone row', A[j], q[k]); D.eq('frequency', R[j, N] ** 2, O * O, tol=1e-9); D.true('frequency is positive', R[j, N] > 0)
        Oj = R[j, N]; dr, di = w[k] ** 2 - Oj * Oj, 2 * z[k] * w[k] * Oj; co, si = D.np.cos(P[j]), D.np.sin(P[j]); x, y = re[k] * dr + im[k] * di, re[k] * di - im[k] * dr
        D.eq('balance of magnitudes', q[k] ** 2 * (dr * dr + di * di), re[k] ** 2 + im[k] ** 2, tol=1e-8)
        if not D.sym and abs(x) + abs(y) < 1e-6: continue
        D.eq('phase of the balance', x * si, y * co, tol=1e-7); D.eq('phase of the balance', x * co + y * si, D.np.sqrt(x * x + y * y), tol=1e-7)
        D.eq('shape times amplitude at that phase', R[j, :N], rotated(D, scaled(D, keep[0][k], h, n, q[k]), h, n, P[j]), tol=1e-8)
    D.same('backbone not modified', B, keep[0])
    for k, v in keep[1:]: D.same('argument not modified', K[k], v)

@contract('C18', num=500, budget=60, maxcfg=40)
def constant_displacement(D):
    """the force that holds the commanded amplitude at each frequency; undefined outside the backbone"""
    m = D.pick('points', [2, 3, 5], sym=[2, 3]); n = D.pick('Ndof', [1, 2, 3], sym=[1, 2] if m == 2 else [1]); h = D.pick('h', HS, sym=[[1], [0, 1], [0, 1, 2]] if m == 2 else [[0, 1]]); N = nhc(h) * n; ha = np.array(h)
    B = backbone(D, m, n, h); cp = D.real('control', (n,)); F = D.real('F', (n,)); O = D.real('Omega', (2,), pos=True) if D.pick('frequencies', ['array', 'number']) == 'array' else D.real('Omega', pos=True); K = {}
    aw, w = optional(D, 'wn', m, D.pick('w', ['none', 'number', 'array'], sym=['none', 'array']), D.copyarr(B[:, N])); az, z = optional(D, 'zeta', m, D.pick('zeta', ['none', 'number', 'array'], sym=['none', 'number']), None)
    if aw is not None: K['w'] = aw
    if az is not None: K['zeta'] = az
    xi = D.copyarr(B[:, N + 1]) if z is None else 2 * w * z; q = 10 ** B[:, -1]; amp = []
    for k in range(m): c, s = parts(B[k], h, n); amp.append(D.np.sqrt((c @ cp) ** 2 + (s @ cp) ** 2) * q[k])
    for k in range(m - 1): D.assume(amp[k + 1] > amp[k] + (0 if D.sym else 1e-3))
    where = D.pick('where', ['below', 'above', 0, 1, 2, 3], sym=['below', 'above', 0])
    if where == 'below': ca = amp[0] - D.real('out', pos=True)
    elif where == 'above': ca = amp[m - 1] + D.real('out', pos=True)
    else:
        k = where % (m - 1); f = D.real('f', lo=0, hi=0.99)
        ca = D.real('ca') if D.sym else amp[k] + f * (amp[k + 1] - amp[k])
    keep = [D.copyarr(v) if isinstance(v, np.ndarray) else v for v in (B, F, O, cp, aw, az)]
    if D.sym and not isinstance(where, str):
        # the interpolation is known through its contract (C16): the row at the commanded amplitude of exactly this table
        row = D.real('row', (N + 3,)); called = []
        for i in (N, N + 2): D.assume(row[i] > 0)
        def interp(table, value, reference_values=None):
            D.eq('interpolated table', table, D.np.hstack((B[:, :N], D.np.stack((w, xi, q)).T))); D.eq('interpolation variable', reference_values, D.np.array(amp)); D.eq('commanded amplitude', value, ca); called.append(1)
            return D.copyarr(row).reshape(1, -1)
        D.patch(D.mod('postprocess.continuation'), 'linear_interp', interp)
    force, pt = D.mod('roms.epmc').constant_displacement(B, ha, F, O, cp, ca, **K)
    if isinstance(where, str):
        D.eq('undefined outside the backbone', force, O * D.np.nan); D.eq('undefined outside the backbone', pt, D.np.full((N + 3,), D.np.nan))
    else:
        if D.sym:
            if len(called) != 1: raise T.Unsupported('interpolation not through linear_interp')
            W, Xi, Q = row[N], row[N + 1], row[N + 2]
        else: bl = lambda v: v[k] * (1 - f) + v[k + 1] * f; row = bl(keep[0]); W, Xi, Q = bl(w), bl(xi), bl(q)
        D.eq('mode shape at the commanded amplitude', pt[:N], row[:N], tol=1e-7); D.eq('frequency and damping at the commanded amplitude', pt[N:N + 2], D.np.array([W, Xi]), tol=1e-7); D.eq('modal amplitude there', 10 ** pt[N + 2] if not D.sym else pt[N + 2], Q if not D.sym else D.np.log10(Q), tol=1e-7)
        Z = Xi / (2 * W); c, s = parts(row, h, n); g2 = (c @ F) ** 2 + (s @ F) ** 2
        D.assume(g2 > (0 if D.sym else 1e-3))
        if D.sym:
            D.eq('force holds the modal amplitude', force * force * g2, Q * Q * ((W * W - O * O) ** 2 + 4 * Z * Z * W * W * O * O)); D.le('force magnitude', 0 * O, force)
        else: D.eq('force holds the modal amplitude', force, Q * np.sqrt(((W * W - O * O) ** 2 + 4 * Z * Z * W * W * O * O) / g2), tol=1e-6)
    for a, b in zip((B, F, O, cp, aw, az), keep):
        if b is not None: D.same('inputs not modified', a, b)
