from pyded.contracts_api import contract
from . import memory
from .spec import *
from . import g06

def aft_spec(D, h, Q, T_, ft):
    """global harmonic force: harmonic coefficients of the local force, mapped by T"""
    F = coeffs(D, h, ft)
    N = T_.shape[0]; R = D.np.zeros((nhc(h) * N,))
    for c in range(nhc(h)): R[c * N:(c + 1) * N] = T_ @ F[c]
    return R
def motion(D, h, Q, U, w, Nt):
    N = Q.shape[1]; Ul = D.np.zeros((nhc(h), Q.shape[0]))
    for c in range(nhc(h)): Ul[c] = Q @ U[c * N:(c + 1) * N]
    return Ul, synth(D, h, Ul, Nt, 0), w * synth(D, h, Ul, Nt, 1)

LAWS = {'cubic': (lambda D, k, u, v: k * u * u * u), 'both': (lambda D, k, u, v: k * u * u + u * v * v + 2 * v)}

@contract('C06', num=80, budget=60, maxcfg=40)
def instantaneous(D):
    """InstantaneousForce.aft against an arbitrary element-wise local law f(u, u'): coefficients of f on the motion, exact derivatives"""
    nf = D.mod('nlforces.nonlinear_force')
    h = D.pick('h', HL_ALL[:16], sym=[[0], [1], [0, 1], [1, 2], [0, 2]])
    N = D.pick('N', [1, 2, 3], sym=[1, 2]); n = D.pick('Nnl', [1, 2, 3], sym=[1, 2])
    Nt = D.pick('Nt', [x for x in (4, 8, 16, 32, 64) if x > 2 * max(h) + 1], sym=nts(h)[:1])
    Q, T_, U = D.real('Q', (n, N)), D.real('T', (N, n)), D.real('U', (nhc(h) * N,)); w = D.real('w', pos=True); k = D.real('k')
    class E(nf.InstantaneousForce):
        def __init__(self): self.Q = Q; self.T = T_
        def local_force_history(self, u, v): return k * u * u + u * v * v + 2 * v, 2 * k * u + v * v, 2 * u * v + 2
    U0 = D.copyarr(U); el = E(); ha = np.array(h)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u, v = motion(D, h, Q, U0, w, Nt)
    D.eq('harmonics of the local force', F, aft_spec(D, h, Q, T_, k * u * u + u * v * v + 2 * v))
    D.same('U not modified', U, U0)
    if D.sym and max(h) > 0 and (N > 1 and n > 1): return        # the derivative obligations at the smaller maps
    D.jac('dFnldU', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])
    D.jac('dFnldw', F, dw, w, lambda w: el.aft(U, w, ha, Nt, 1e-7)[0])

@contract('C06', num=80, budget=40, maxcfg=30)
def polynomial(D):
    """GenPolyForce.aft with coupled local degrees of freedom"""
    gp = D.mod('nlforces.general_poly_stiffness')
    h = D.pick('h', HL_ALL[:16], sym=[[0], [1], [0, 1]])
    N = D.pick('N', [1, 2, 3], sym=[1, 2]); qq = D.pick('qq', [[[3]], [[1, 1], [2, 0], [0, 2]], [[2, 1], [1, 2]], [[1, 1, 1], [0, 0, 2]]], sym=[[[2]], [[1, 1], [2, 0]]]); n = len(qq[0])
    Nt = D.pick('Nt', [x for x in (4, 8, 16, 32, 64) if x > 2 * max(h) + 1], sym=nts(h)[:1])
    Q, T_, U = D.real('Q', (n, N)), D.real('T', (N, n)), D.real('U', (nhc(h) * N,)); w = D.real('w', pos=True); E = D.real('E', (n, len(qq)))
    el = gp.GenPolyForce(Q, T_, E, np.array(qq)); ha = np.array(h); U0 = D.copyarr(U)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7)
    Ul, u, v = motion(D, h, Q, U0, w, Nt)
    ft = D.np.zeros((Nt, n))
    for i in range(Nt):
        t = D.np.ones((len(qq),))
        for c in range(len(qq)):
            for j in range(n):
                for _ in range(qq[c][j]): t[c] = t[c] * u[i, j]
        ft[i] = E @ t
    D.eq('harmonics of the local force', F, aft_spec(D, h, Q, T_, ft))
    D.same('U not modified', U, U0)
    D.jac('dFnldU', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7)[0])
    D.eq('dFnldw', dw, D.np.zeros(U0.shape))

@contract('C06', num=60, budget=40, maxcfg=20)
def hysteretic(D):
    """HystereticForce.aft against an arbitrary stepping law: harmonics of the last marched cycle, mapped by T, exact derivative
    through the history; the cycle is repeated at most max_repeats times"""
    nf = D.mod('nlforces.nonlinear_force')
    h = D.pick('h', HL_ALL[:14], sym=[[1], [0, 1]])
    N = D.pick('N', [1, 2, 3], sym=[1, 2]); n = D.pick('Nnl', [1, 2], sym=[1, 2])
    Nt = D.pick('Nt', [x for x in (4, 8, 16, 32) if x > 2 * max(h) + 1], sym=nts(h)[:1])
    Q, T_, U = D.real('Q', (n, N)), D.real('T', (N, n)), D.real('U', (nhc(h) * N,)); w = D.real('w', pos=True); a = D.real('a', lo=-0.5, hi=0.5); A = D.real('A', (n, n))
    reps = D.pick('max_repeats', [1, 2, 3, 6], sym=[1, 2])
    marched = []
    class E(nf.HystereticForce):
        def __init__(self): self.Q = Q; self.T = T_
        def init_history(self): self.fp = D.np.zeros((n,)); self.dfp = D.np.zeros((n, n, nhc(h)))
        def init_history_harmonic(self, u0, hh): self.init_history(); marched.append('start'); self.u00 = u0
        def instant_force_harmonic(self, u, v, hh, cst, update_prev=False):
            f = A @ u + a * self.fp
            df = D.np.zeros((n, n, nhc(h)))
            for c in range(nhc(h)): df[:, :, c] = A * cst[c] + a * self.dfp[:, :, c]
            marched.append(u)
            if update_prev: self.fp = D.copyarr(f); self.dfp = D.copyarr(df)
            return f, df, D.np.zeros((n, n, nhc(h)))
    el = E(); ha = np.array(h); U0 = D.copyarr(U)
    never = dict(atol=-1.0, rtol=-1.0)
    F, J, dw = el.aft(U, w, ha, Nt, 1e-7, max_repeats=reps, **never)
    D.true('every instant of every cycle is marched once', len([m for m in marched if not isinstance(m, str)]) == reps * Nt and marched[0] == 'start' if isinstance(marched[0], str) else False)
    Ul, u, v = motion(D, h, Q, U0, w, Nt)
    D.eq('history starts at the zeroth row of the local coefficients', el.u00, Ul[0])
    f = D.np.zeros((n,)); ft = D.np.zeros((Nt, n))
    for r in range(reps):
        for i in range(Nt): f = A @ u[i] + a * f; ft[i] = f
    D.eq('harmonics of the last cycle', F, aft_spec(D, h, Q, T_, ft))
    D.same('U not modified', U, U0)
    D.eq('dFnldw', dw, D.np.zeros(U0.shape))
    if D.sym and (N > 1 and n > 1): return
    D.jac('dFnldU', F, J, U, lambda U: el.aft(U, w, ha, Nt, 1e-7, max_repeats=reps, **never)[0])

@contract('C06', num=80, budget=20, maxcfg=20)
def total(D):
    """total_aft is the plain sum over the elements, with or without gradients"""
    vs = D.mod('vibration_system'); nf = D.mod('nlforces.nonlinear_force')
    n = D.pick('Ndof', [1, 2, 3]); h = D.pick('h', [[1], [0, 1], [0, 1, 3]], sym=[[1], [0, 1]]); ne = D.pick('elements', [0, 1, 2, 3])
    L = nhc(h) * n; ha = np.array(h); Nt0 = D.pick('Nt', [64, 128, 32]); tol0 = 1e-5
    seen = []
    fs = [D.real('F%d' % i, (L,)) for i in range(ne)]; Js = [D.real('J%d' % i, (L, L)) for i in range(ne)]; ws = [D.real('w%d' % i, (L,)) for i in range(ne)]
    class E(nf.NonlinearForce):
        def __init__(self, i): self.i = i
        def aft(self, U, w, h, Nt=-1, tol=-1, calc_grad=True):
            seen.append((self.i, U, w, h, Nt, tol))
            return (fs[self.i].copy(), Js[self.i].copy(), ws[self.i].copy()) if calc_grad else (fs[self.i].copy(),)
    I = D.np.eye(n); sys_ = vs.VibrationSystem(I, I)
    for i in range(ne): sys_.add_nl_force(E(i))
    U = D.real('U', (L,)); w = D.real('w')
    r = sys_.total_aft(U, w, ha, Nt=Nt0, aft_tol=tol0)
    Z = D.np.zeros((L,))
    D.eq('force sum', r[0], sum(fs, Z)); D.eq('dU sum', r[1], sum(Js, D.np.zeros((L, L)))); D.eq('dw sum', r[2], sum(ws, Z))
    def args(what):
        D.true('each element once, ' + what, [s[0] for s in seen] == list(range(ne)))
        for s in seen: D.eq('motion handed to the elements', s[1], U); D.eq('frequency handed to the elements', s[2], w); D.true('harmonics, samples and tolerance handed to the elements', list(s[3]) == list(h) and s[4] == Nt0 and s[5] == tol0)
        del seen[:]
    args('with gradients')
    q = sys_.total_aft(U, w, ha, Nt=Nt0, aft_tol=tol0, calc_grad=False); args('without gradients')
    D.eq('force sum without gradients', q[0], sum(fs, Z))
