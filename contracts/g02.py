"""C01 and C02 for every number of degrees of freedom and every harmonic list"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import GNP, val, lift, Wrt, gsum
from .gres import Sys
OPT = dict(Nt=64, aft_tol=1e-5)

def shape(G, label, A, *s): 
    A = g.as_g(A); G.true(label + ' shape', len(A.shape) == len(s) and all(g.same_dim(a, b) for a, b in zip(A.shape, s)))

def res(G, S, call, spec, x, n, J=True):
    """residual rows equal spec(row); without gradient the same; Jacobians exact.  x: name of the unknown vector with n rows + 1 parameter"""
    r = call(True); R = r[0]
    shape(G, 'residual', R, n)
    rows = {'balance': S.rows[0]}
    for k in range(spec.extra): rows['constraint %d' % (k + 1)] = S.N + k
    row = G.pick('row', list(rows)); i = rows[row]
    if G.pid == 'C02':
        G.eq('residual, %s rows' % row, R.get((i,)), spec(i))
        calls = list(S.calls); S.calls.clear()
        q = call(False)
        G.true('no gradient: one output', len(q) == 1)
        G.eq('residual without gradient', q[0].get((i,)), R.get((i,)))
        return
    cols = {'displacement': S.cols[0]}
    for k in range(spec.extra): cols['extra %d' % (k + 1)] = S.N + k
    shape(G, 'Jacobian', r[1], n, n); shape(G, 'parameter derivative', r[2], n)
    for c, j in cols.items():
        G.eq('d(%s)/d(%s)' % (row, c), r[1].get((i, j)), Wrt(x, (lift(j),), S.opaque).d(val(R.get((i,)))))
    G.eq('d(%s)/d(parameter)' % row, r[2].get((i,)), Wrt(x, (lift(n),), S.opaque).d(val(R.get((i,)))))

class Spec:
    def __init__(self, extra, f): self.extra = extra; self.f = f
    def __call__(self, i): return val(self.f(i))

def both(f, **k):
    gen("C01", budget=100, replay=(f.__name__[:-9],), **k)(f); gen("C02", budget=100, replay=(f.__name__[:-9],), **k)(f); return f

@both
def hbm_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 1); Fl = G.array('Fl', N)
    X = lambda j: T.app('x', j); w = X(N)
    def spec(i): return S.lin(i, S.M, S.C, S.K, w, X) + T.app('F0', i) - T.app('Fl', i)
    res(G, S, lambda cg: S.sys.hbm_res(x, Fl, S.h, **OPT, calc_grad=cg), Spec(0, spec), 'x', N)

@both
def hbm_dFl_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 1); Fl = G.array('Fl', N); w = G.scalar('w')
    X = lambda j: T.app('x', j)
    def spec(i): return S.lin(i, S.M, S.C, S.K, w, X) + T.app('F0', i) - S.stat(T.app('Fl', i), i) - S.dyn(T.app('Fl', i), i) * X(N)
    res(G, S, lambda cg: S.sys.hbm_res_dFl(x, w, Fl, S.h, **OPT, calc_grad=cg), Spec(0, spec), 'x', N)

def pow10(la): return lift(10) ** la

@both
def epmc_any_size(G):
    S = Sys(G, symmetric=True); N = S.N; nd, z = S.nd, S.z; x = G.array('x', N + 3); Fl = G.array('Fl', N)
    X = lambda j: T.app('x', j); A = pow10(X(N + 2)); w, xi = X(N), X(N + 1); M = lambda i, j: val(S.M.get((i, j)))
    us = lambda j: S.stat(X(j), j) + S.dyn(A * X(j), j)
    r = g.new((nd, nd), lambda idx: T.app('C', *idx) - xi * M(*idx))
    def spec(i):
        i = lift(i)
        if (i - N).m == {}:
            q = lambda o: gsum(0, nd, lambda a: X(o + a) * gsum(0, nd, lambda b: M(a, b) * X(o + b)))
            return q(z * nd) + q((z + 1) * nd) - 1
        if (i - N - 1).m == {}: return gsum(0, N, lambda j: S.dyn(T.app('Fl', j), j) * X(j))
        return S.lin(i, S.M, r, S.K, w, us) + T.app('F0', i) - S.stat(T.app('Fl', i), i)
    res(G, S, lambda cg: S.sys.epmc_res(x, Fl, S.h, **OPT, calc_grad=cg), Spec(2, spec), 'x', N + 2)

def control(G, S, x, order, amp, nF):
    recov = G.array('recov', S.nd); X = lambda j: T.app('x', j)
    rc = lambda o: gsum(0, S.nd, lambda a: T.app('recov', a) * X(o + a))
    return recov, (lambda: rc(S.z * S.nd)), (lambda: rc((S.z + 1) * S.nd))

@both
def amp_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 2); Fl = G.array('Fl', N); order = G.pick('order', [0, 1, 2]); amp = G.scalar('amp')
    recov, c, s = control(G, S, x, order, amp, 1); X = lambda j: T.app('x', j); w = X(N + 1)
    G.assume(w > 0)
    def spec(i):
        i = lift(i)
        if (i - N).m == {}: return w ** (2 * order) * (c() * c() + s() * s()) - amp * amp
        return S.lin(i, S.M, S.C, S.K, w, X) + T.app('F0', i) - S.stat(T.app('Fl', i), i) - S.dyn(T.app('Fl', i), i) * X(N)
    res(G, S, lambda cg: S.sys.hbm_amp_control_res(x, Fl, S.h, recov, amp, order, **OPT, calc_grad=cg), Spec(1, spec), 'x', N + 1)

def phase_spec(G, S, w, order, c, s, A, N):
    nd, z = S.nd, S.z; X = lambda j: T.app('x', j)
    def load(i):
        if S.z and g.yes(i < nd): return T.app('Fl', i)
        if g.yes(i < (z + 1) * nd): return X(N) * T.app('Fl', i)
        if g.yes(i < (z + 2) * nd): return X(N + 1) * T.app('Fl', i - nd)
        return T.ZERO
    def spec(i):
        i = lift(i)
        if (i - N).m == {}: return w ** order * c() - A
        if (i - N - 1).m == {}: return w ** order * s()
        return S.lin(i, S.M, S.C, S.K, w, X) + T.app('F0', i) - load(i)
    return spec

@both
def amp_phase_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 3); Fl = G.array('Fl', N); order = G.pick('order', [0, 1, 2]); amp = G.scalar('amp')
    recov, c, s = control(G, S, x, order, amp, 2); w = T.app('x', N + 2); G.assume(w > 0)
    res(G, S, lambda cg: S.sys.hbm_amp_phase_control_res(x, Fl, S.h, recov, amp, order, **OPT, calc_grad=cg), Spec(2, phase_spec(G, S, w, order, c, s, amp, N)), 'x', N + 2)

@both
def amp_phase_dA_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 3); Fl = G.array('Fl', N); order = G.pick('order', [0, 1, 2]); w = G.scalar('w')
    recov, c, s = control(G, S, x, order, None, 2); G.assume(w > 0)
    res(G, S, lambda cg: S.sys.hbm_amp_phase_control_dA_res(x, Fl, S.h, recov, w, order, **OPT, calc_grad=cg), Spec(2, phase_spec(G, S, w, order, c, s, T.app('x', N + 2), N)), 'x', N + 2)

@both
def static_any_size(G):
    S = Sys(G); nd = S.nd; x = G.array('x', nd); Fs = G.array('Fs', nd)
    R, J = S.sys.static_res(x, Fs)
    i, j = G.index('r', nd), G.index('s', nd)
    shape(G, 'Jacobian', J, nd, nd)
    if G.pid == 'C01': G.eq('Jacobian', J.get((i, j)), Wrt('x', (j,), S.opaque).d(val(R.get((i,))))); return
    shape(G, 'residual', R, nd)
    G.eq('residual', R.get((i,)), gsum(0, nd, lambda k: T.app('K', i, k) * T.app('x', k)) + T.app('F0', i) - T.app('Fs', i))

class Phase:
    """orthogonality of the superharmonic force and response; k: number of the element evaluation that belongs to it"""
    def __init__(self, G, S, k, w, filters=(None, 'mode')):
        self.G, self.S, self.k, self.w = G, S, k, w
        self.p = p = G.index('p', S.nh); self.rhi = T.app('hh', p, sort='I'); self.lo = S.nd * (2 * p + S.z)
        self.f = G.array('phi', S.nd) if G.pick('filter', list(filters)) else None
    def __call__(self):
        G, S, nd, lo, f = self.G, self.S, self.S.nd, self.lo, self.f; X = lambda j: T.app('x', j)
        u, w = S.calls[self.k]
        j = G.index('jj', S.N)
        G.eq('motion used for the superharmonic force', val(u((j,))), X(j) if g.yes(j < lo) else T.ZERO)
        G.eq('frequency used for the superharmonic force', w, self.w)
        Fk = lambda i: -T.app('F%d' % self.k, i)
        Fc, Xc = (lambda i: Fk(lo + i)), (lambda i: X(lo + i))
        if f is None:
            n = 2 * nd; F, Xr = Fc, Xc
        else:
            n = 2
            phi = lambda i: T.app('phi', i); pM = lambda i: gsum(0, nd, lambda a: phi(a) * val(S.M.get((a, i))))
            F = lambda i: gsum(0, nd, lambda a: phi(a) * Fc(i * nd + a)); Xr = lambda i: gsum(0, nd, lambda a: pM(a) * Xc(i * nd + a))
        dot = lambda a, b: gsum(0, n, lambda i: a(i) * b(i))
        G.assume(dot(F, F) > 0); G.assume(dot(Xr, Xr) > 0)
        return dot(F, Xr) / (T.sqrt_(dot(Xr, Xr)) * T.sqrt_(dot(F, F)))

@both
def vprnm_eqn_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N); w = G.scalar('w'); ph = Phase(G, S, 0, w)
    call = lambda cg: S.sys.vprnm_single_eqn(x, w, S.h, ph.rhi, **OPT, calc_grad=cg, superharmonic_filter=ph.f)
    r = call(True); R = val(r[0])
    if G.pid == 'C02':
        G.eq('phase condition', R, ph())
        S.calls.clear(); q = call(False)
        G.true('no gradient: one output', len(q) == 1); G.eq('without gradient', val(q[0]), R)
        return
    shape(G, 'gradient', r[1], N + 1); j = S.cols[0]
    G.eq('derivative in the unknowns', r[1].get((j,)), Wrt('x', (j,), S.opaque).d(R))
    G.eq('derivative in frequency', r[1].get((N,)), Wrt('w', None, S.opaque).d(R))

@both
def vprnm_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 2); Fl = G.array('Fl', N); cs = G.scalar('cs'); X = lambda j: T.app('x', j); w = X(N); ph = Phase(G, S, 1, w)
    def spec(i):
        i = lift(i)
        if (i - N).m == {}: return cs * ph()
        return S.lin(i, S.M, S.C, S.K, w, X) + T.app('F0', i) - S.stat(T.app('Fl', i), i) - S.dyn(T.app('Fl', i), i) * X(N + 1)
    res(G, S, lambda cg: S.sys.vprnm_res(x, S.h, ph.rhi, Fl, **OPT, calc_grad=cg, superharmonic_filter=ph.f, constraint_scale=cs), Spec(1, spec), 'x', N + 1)

@both
def vprnm_amp_phase_any_size(G):
    S = Sys(G); N = S.N; x = G.array('x', N + 4); Fl = G.array('Fl', N); cs = G.scalar('cs'); w = T.app('x', N + 2); G.assume(w > 0); ph = Phase(G, S, 1, w); order = G.pick('order', [0, 2] if ph.f is None else [2])
    recov, c, s = control(G, S, x, order, None, 2); base = phase_spec(G, S, w, order, c, s, T.app('x', N + 3), N)
    def spec(i):
        i = lift(i)
        return cs * ph() if (i - N - 2).m == {} else base(i)
    res(G, S, lambda cg: S.sys.vprnm_amp_phase_res(x, Fl, S.h, ph.rhi, recov, order, **OPT, calc_grad=cg, superharmonic_filter=ph.f, constraint_scale=cs), Spec(3, spec), 'x', N + 3)
