from pyded.contracts_api import contract
from .spec import *
from .c18 import parts, rotated

HF = [[1], [0, 1], [1, 2], [0, 1, 3], [0, 1, 2]]; HR = [[1], [0, 1], [1, 2], [0, 1, 2]]
def col(h, k, n):
    """first column of harmonic k"""
    return next(c for kk, c, s in rows(h) if kk == k) * n
def amp_of(D, row, h, k, cp, n):
    a, b = row[col(h, k, n):col(h, k, n) + n], row[col(h, k, n) + n:col(h, k, n) + 2 * n]
    return D.np.sqrt((a @ cp) ** 2 + (b @ cp) ** 2)
def ang(D, row, h, k, cp, n):
    a, b = row[col(h, k, n):col(h, k, n) + n], row[col(h, k, n) + n:col(h, k, n) + 2 * n]
    return D.np.arctan2(b @ cp, a @ cp)

def resonance(w, z, q, F2):
    """(row, frequency) of every real solution of (w^2-O^2)^2 + 4 z^2 w^2 O^2 = F2/q^2 along the resonance"""
    m = len(w); pts = []
    for sg, ks in ((1, range(m)), (-1, range(m - 1, -1, -1))):
        for k in ks:
            if k == m - 1: O2 = w[k] ** 2 if sg > 0 else w[k] ** 2 * (1 - 4 * z[k] ** 2)      # (the peak itself, exactly)
            else:
                p2 = w[k] ** 2 - 2 * (z[k] * w[k]) ** 2; arg = p2 * p2 - w[k] ** 4 + F2 / q[k] ** 2
                if arg < 0: continue
                O2 = p2 + sg * np.sqrt(arg)
            if O2 > 0: pts.append((k, np.sqrt(O2)))
    return pts[::-1]

def table(D, name, m, n, h, cp):
    """nonlinear-mode backbone with increasing amplitude at the control point"""
    N = nhc(h) * n; B = D.real(name, (m, N + 3)); B[:, N] = D.real(name + ' w', (m,), lo=1, hi=3); B[:, N + 1] = D.real(name + ' xi', (m,), lo=0.01, hi=0.3)
    B[:, N + 2] = np.sort(D.real(name + ' a', (m,), lo=-2, hi=1)); same = D.pick(name + ' constant shape', [0, 1]); B[:, :N] = B[:1, :N] + (0 if same else 0.2) * B[:, :N]
    a = np.array([amp_of(D, B[k], h, 1, cp, n) * 10 ** B[k, -1] for k in range(m)])
    D.assume(a[0] > 1e-3); D.assume(np.all(np.diff(a) > 1e-3) and np.all(np.diff(B[:, -1]) > 1e-2))
    return B, a
def blend(T_, k, f): return T_[k] * (1 - f) + T_[k + 1] * f

@contract('C19', num=6000, budget=40, sym=False)
def reconstruction(D):
    """fundamental mode at the commanded amplitude plus the superharmonic resonance, independently evaluated row by row"""
    n = D.pick('Ndof', [1, 2, 3]); rhi = D.pick('rhi', [2, 3, 5]); hf = D.pick('h_fund', HF); hr = D.pick('h_rhi', HR)
    hv = D.pick('h_vprnm', [[1], [0, 1], [0, 1, 7]]); hv = sorted(set(hv + [rhi])); layout = D.pick('layout', [4, 2]); m = D.pick('points', [2, 3, 5])
    c1, cr, Fl = D.real('control 1', (n,)), D.real('control r', (n,)), D.real('F', (n,)); Nv = nhc(hv) * n
    Bf, af = table(D, 'F bb', m, n, hf, c1); Br, ar = table(D, 'S bb', m, n, hr, cr)
    V = D.real('V', (3, Nv + layout)); V[:, Nv + layout - 2 if layout == 4 else Nv] = D.real('V w', (3,), lo=0.3, hi=2)
    # rows with increasing first harmonic amplitude, the commanded one inside all backbones
    av = np.array([amp_of(D, r, hv, 1, c1, n) for r in V]); D.assume(np.min(av) > 1e-3); D.assume(abs(c1 @ Fl) > 1e-2)
    kf = D.pick('row F', list(range(4))) % (m - 1); tf = D.real('f', lo=0.02, hi=0.98); ca = blend(af, kf, tf); kv = D.pick('row V', [0, 1]); tv = D.real('v', lo=0.02, hi=0.98)
    up = np.cumsum(D.real('steps', (3,), lo=0.1, hi=1)); up = up * ca / blend(up, kv, tv)
    i = col(hv, 1, n); V[:, i:i + 2 * n] *= (up / av)[:, None]
    rv = blend(V, kv, tv); Om = rv[-2]; j = col(hv, rhi, n); kr = D.pick('row S', list(range(4))) % (m - 1); tr = D.real('r', lo=0.02, hi=0.98)
    s = blend(ar, kr, tr) / amp_of(D, rv, hv, rhi, cr, n); D.assume(1e-3 < s < 1e3); V[:, j:j + 2 * n] *= s; rv = blend(V, kv, tv)
    NR = nhc(hr) * n; lin = Br.copy(); lin[:, -1] = 10 ** lin[:, -1]; rr = blend(lin, kr, tr); W, xi, qS = rr[-3:]
    tab = np.vstack((lin[lin[:, -1] < qS], rr)); w = tab[:, -3] * rhi * Om / W; z = tab[:, -2] / (2 * tab[:, -3]); q = tab[:, -1]
    mag = 2 * qS * (rhi * Om) ** 2 * z[-1]
    pts = resonance(w, z, q, mag ** 2); fr = np.array([o for k, o in pts]); D.assume(np.all(np.diff(fr) > 1e-3))
    S = []
    for k, o in pts:
        dr, di = w[k] ** 2 - o * o, 2 * z[k] * w[k] * o
        sh = tab[k, :NR].copy(); st = n if hr[0] == 0 else 0; sh[st:] *= q[k]; S.append(rotated(D, sh, hr, n, np.arctan2(di, dr)))
    S = np.array(S); pk = int(np.argmin(abs(fr - rhi * Om))); S = np.array([rotated(D, x, hr, n, ang(D, rv, hv, rhi, cr, n) - ang(D, S[pk], hr, 1, cr, n)) for x in S]); qs = q[[k for k, o in pts]]
    ex = D.pick('extra frequencies', ['none', 'inside', 'inside']); e0 = None
    if ex == 'inside' and len(fr) > 1:
        g = D.real('extra', (D.pick('how many', [1, 2, 4]),), lo=0.01, hi=0.99); e0 = (fr[0] + g * (fr[-1] - fr[0])) / rhi
        allw = np.sort(np.hstack((fr, rhi * e0))); D.assume(np.all(np.diff(allw) > 1e-6))
        ip = lambda y: np.array([np.interp(allw, fr, y[:, c]) for c in range(y.shape[1])]).T
        S, qs, fr = ip(S), ip(qs[:, None])[:, 0], allw
    O = fr / rhi; lf = Bf.copy(); lf[:, -1] = 10 ** lf[:, -1]; rf = blend(lf, kf, tf); NF = nhc(hf) * n; Wf, xf, qf = rf[-3:]; zc = xf / (2 * Wf)
    c, s_ = rf[col(hf, 1, n):col(hf, 1, n) + n], rf[col(hf, 1, n) + n:col(hf, 1, n) + 2 * n]; D.assume((c @ Fl) ** 2 + (s_ @ Fl) ** 2 > 1e-4)
    force = qf * np.sqrt(((Wf ** 2 - O ** 2) ** 2 + (2 * zc * Wf * O) ** 2) / ((c @ Fl) ** 2 + (s_ @ Fl) ** 2))
    P = rf[:NF].copy(); P[(n if hf[0] == 0 else 0):] *= qf
    P = rotated(D, P, hf, n, ang(D, rv, hv, 1, c1, n) - ang(D, P, hf, 1, c1, n))
    ho = sorted(set([hv[0]] + hf + [rhi * k for k in hr])); out = np.zeros((len(O), nhc(ho) * n + 1)); out[:, -1] = O
    if hv[0] == 0: out[:, :n] = rv[:n]
    for k in hf:
        if k: out[:, col(ho, k, n):col(ho, k, n) + 2 * n] += P[col(hf, k, n):col(hf, k, n) + 2 * n]
    for k in hr:
        if k: out[:, col(ho, rhi * k, n):col(ho, rhi * k, n) + 2 * n] += S[:, col(hr, k, n):col(hr, k, n) + 2 * n]
    fv = rv[-1] if layout == 2 else np.hypot(rv[-4], rv[-3]); cf = D.pick('correct force', ['default', True, False]); pk = int(np.argmin(abs(fr - rhi * Om)))
    expect = force if cf is False else force + (fv - force[pk]) * qs / qS
    args = [Bf, np.array(hf), Br, np.array(hr), V, np.array(hv), rhi, c1, ca, cr, Fl]; keep = [np.copy(a) for a in args]; e1 = None if e0 is None else e0.copy(); kw = {} if e0 is None else dict(extra_Omega=e0)
    if cf != 'default': kw['correct_force'] = cf
    U, f, hh = D.mod('roms.vprnm').constant_h1_displacement(*args, **kw)
    D.true('harmonics of the output', list(hh) == ho)
    if list(hh) != ho: return
    D.eq('frequencies', U[:, -1], O, tol=1e-6)
    if U.shape != out.shape: return
    D.eq('sum of both modes in the right harmonics', U, out, tol=1e-6)
    D.eq('force', f, expect, tol=1e-6)
    if cf is not False: D.eq('force of the resonance backbone at resonance', f[pk], fv, tol=1e-6)
    if rhi not in hf and D.picks['S bb constant shape'] == 1: D.eq('superharmonic amplitude at resonance', amp_of(D, U[pk], ho, rhi, cr, n), amp_of(D, rv, hv, rhi, cr, n), tol=1e-6)
    for a, b in zip(args, keep): D.same('inputs not modified', a, b)
    if e0 is not None: D.same('inputs not modified', e0, e1)

@contract('C19', num=0, budget=40, maxcfg=200)
def assembly(D):
    """for arbitrary interpolated rows and single-mode responses (callees known through their contracts: interpolation C16,
    single-mode models C18, rotation C17): which table is interpolated where, which single-mode problem is posed, phase
    alignment, placement in the harmonics, force correction"""
    if not D.sym: return
    n = D.pick('Ndof', [], sym=[1, 2]); rhi = D.pick('rhi', [], sym=[2, 3]); hf = D.pick('h_fund', [], sym=[[1], [0, 1], [0, 1, 2], [1, 3]]); hr = D.pick('h_rhi', [], sym=[[1], [0, 1], [1, 2]])
    hv = D.pick('h_vprnm', [], sym=[[1], [0, 1]]); hv = sorted(set(hv + [rhi])); layout = D.pick('layout', [], sym=[4, 2]); cf = D.pick('correct force', [], sym=['default', False])
    Nf, Nr, Nv = nhc(hf) * n, nhc(hr) * n, nhc(hv) * n; m = 2; rt = D.np.sqrt
    Bf, Br, V = D.real('F bb', (m, Nf + 3)), D.real('S bb', (m, Nr + 3)), D.real('V', (m, Nv + layout)); c1, cr, Fl, ca = D.real('control 1', (n,)), D.real('control r', (n,)), D.real('F', (n,)), D.real('amp')
    args = [Bf, np.array(hf), Br, np.array(hr), V, np.array(hv), rhi, c1, ca, cr, Fl]; keep = [D.copyarr(a) for a in args]
    lin = D.copyarr(Br); lin[:, -1] = 10 ** Br[:, -1]; D.assume(Br[1, -1] > Br[0, -1])
    rv, rr = D.real('V row', (Nv + layout,)), D.real('S row', (Nr + 3,)); Om = rv[-2]; qS = rr[-1]
    for x in (Om, rr[-3], rr[-2]): D.assume(x > 0)
    D.assume(qS > lin[0, -1]); D.assume(qS <= lin[1, -1])
    US, q = D.real('US', (2, Nr + 1)), D.real('q', (2,), pos=True); US[1, -1] = rhi * Om; q[1] = qS; D.assume(q[0] < qS); D.assume(US[0, -1] < rhi * Om); D.assume(US[0, -1] > 0)
    fp = D.real('F row', (Nf + 3,)); fm = D.real('force', (2,)); seen = []
    mod = D.mod('roms.vprnm')
    def interp(tab, value, reference_values=None):
        if not (D.np.ones((1,)) * value - ca)[0].m:
            D.eq('resonance backbone interpolated', tab, keep[4]); D.eq('at the commanded amplitude', value, ca); D.eq('of its first harmonic', reference_values, D.np.array([amp_of(D, V[k], hv, 1, c1, n) for k in range(m)])); r = rv
        else:
            D.eq('superharmonic mode interpolated', tab, lin); D.eq('at the superharmonic amplitude of the resonance', value, amp_of(D, rv, hv, rhi, cr, n)); D.eq('of its physical amplitude', reference_values, D.np.array([amp_of(D, Br[k], hr, 1, cr, n) * lin[k, -1] for k in range(m)])); r = rr
        seen.append('i'); return D.copyarr(r).reshape(1, -1)
    def cforce(bb, nd, h, w=None, zeta=None, Fl=None, phiH_Fl_real=None, phiH_Fl_imag=None):
        if not (nd == n and list(h) == hr and Fl is None and w is not None and zeta is not None and phiH_Fl_real is not None and phiH_Fl_imag is not None): raise T.Unsupported('single-mode model posed differently')
        t = D.np.vstack((lin[:1], rr.reshape(1, -1))); e = D.copyarr(t); e[:, -1] = D.np.log10(t[:, -1])
        D.eq('abbreviated superharmonic backbone', bb, e)
        D.eq('frequencies rescaled to the resonance', w, t[:, -3] * rhi * Om / rr[-3]); z = t[:, -2] / (2 * t[:, -3]); D.eq('damping factors', zeta, z)
        D.eq('force at phase resonance', phiH_Fl_real, 2 * qS * (rhi * Om) ** 2 * z[1]); D.eq('force at phase resonance', phiH_Fl_imag, 0)
        seen.append('f'); return D.copyarr(US), D.copyarr(q), D.np.zeros((2,))
    def cdisp(bb, h, F, O, cp, a, **k):
        if not (list(h) == hf and all(v is None for v in k.values())): raise T.Unsupported('single-mode model posed differently')
        D.eq('fundamental backbone', bb, Bf); D.eq('frequencies of the response', O, US[:, -1] / rhi); D.eq('load', F, Fl); D.eq('control point', cp, c1); D.eq('commanded amplitude', a, ca)
        seen.append('d'); return D.copyarr(fm), D.copyarr(fp)
    D.patch(mod.cpost, 'linear_interp', interp); D.patch(mod.epmc, 'constant_force', cforce); D.patch(mod.epmc, 'constant_displacement', cdisp)
    U, f, hh = mod.constant_h1_displacement(*args, **({} if cf == 'default' else dict(correct_force=cf)))
    if sorted(seen) != ['d', 'f', 'i', 'i']: raise T.Unsupported('callees not reached through their module')
    P = D.copyarr(fp[:Nf]); st = n if hf[0] == 0 else 0; P[st:] = P[st:] * 10 ** fp[-1]
    P = rotated(D, P, hf, n, ang(D, rv, hv, 1, c1, n) - ang(D, P, hf, 1, c1, n))
    ho = sorted(set([hv[0]] + hf + [rhi * k for k in hr])); out = D.np.zeros((2, nhc(ho) * n))
    D.true('harmonics of the output', list(hh) == ho)
    if list(hh) != ho: return
    for r in range(2):
        S = rotated(D, US[r, :Nr], hr, n, ang(D, rv, hv, rhi, cr, n) - ang(D, US[1], hr, 1, cr, n))
        if hv[0] == 0: out[r, :n] = rv[:n]
        for h, x, g in ((hf, P, 1), (hr, S, rhi)):
            for k in h:
                if k: i, j = col(ho, g * k, n), col(h, k, n); out[r, i:i + 2 * n] = out[r, i:i + 2 * n] + x[j:j + 2 * n]
    D.eq('frequencies', U[:, -1], US[:, -1] / rhi); D.eq('sum of both modes in the right harmonics', U[:, :-1], out)
    fv = rv[-1] if layout == 2 else rt(rv[-4] * rv[-4] + rv[-3] * rv[-3])
    D.eq('force', f, fm if cf is False else fm + (fv - fm[1]) * q / qS)
    if cf is not False: D.eq('force of the resonance backbone at resonance', f[1], fv)
    for a, b in zip(args, keep): D.same('inputs not modified', a, b)
