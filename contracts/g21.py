"""C21 for any number of degrees of freedom and harmonics; the linear response is used through its contract (C20: a fixed linear
map of the load for each frequency and number of modes), the nonlinear force is arbitrary."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum, lift

def coefficient(t, a):
    """the factor of atom a in every monomial of t, or None"""
    (m, _), = a.m.items(); i = m[0][0]; out = {}
    for mono, c in lift(t).m.items():
        d = dict(mono)
        if d.get(i) != 1: return None
        del d[i]; out[tuple(sorted(d.items()))] = c
    return T.Term(out)

class Linear:
    """response to a multiple of the given load (cos part fc, sine part fs or none): the same multiple of the arrays c, s"""
    def __init__(self, G, n, solver): self.G, self.n, self.solver = G, n, solver; self.loads = []; self.j = G.index('jl', n); self.calls = []
    def load(self, fc, fs, name): self.loads.append((fc(self.j), None if fs is None else fs(self.j), name)); return (lambda r: T.app(name + 'c', r)), (lambda r: T.app(name + 's', r))
    def linear_frf(self, w, Fl, solver, neigs=3, Flsin=None):
        G, n, j = self.G, self.n, self.j
        if solver is not self.solver: raise T.Unsupported('another solver')
        f = g.as_g(Fl); G.true('size of the load', g.same_dim(f.shape[0], n)); c = val(f.get((j,))); s = T.ZERO
        if Flsin is not None: h = g.as_g(Flsin); G.true('size of the sine load', g.same_dim(h.shape[0], n)); s = val(h.get((j,)))
        for fc, fs, name in self.loads:
            k = coefficient(c, fc)
            if k is None or not T.is_zero(s - (T.ZERO if fs is None else k * fs)): continue
            if any(T._atoms[i].kind == 'app' and T._atoms[i].args == (j,) for m in k.m for i, e in m): continue
            self.calls.append((name, lift(w), lift(neigs)))
            C, S = g.new((n,), lambda idx: k * T.app(name + 'c', *idx)), g.new((n,), lambda idx: k * T.app(name + 's', *idx))
            return g.GNP.hstack((C, S, w)).reshape(1, -1)
        for fc, fs, name in self.loads:
            if any(a is not None and coefficient(b, a) is not None for a in (fc, fs) for b in (c, s) if b.m): raise T.Unsupported('part of a load')
        name = 'Z%d' % len(self.calls); self.calls.append((name, lift(w), lift(neigs)))
        return g.GNP.hstack((G.array(name + 'c', n), G.array(name + 's', n), w)).reshape(1, -1)

@gen('C21', budget=140, replay=('prediction',))
def prediction_any_size(G):
    G.peel(False); E = G.pick('equation', ['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE']); zero = G.pick('zero', [True, False])
    n = G.size('n', 1, block=True); vp = E == 'VPRNM_AMP_PHASE'; nh = G.size('nh', 2 if vp else 1); z = 1 if zero else 0; h = G.harmonics(zero, nh); G.assume(T.cmp_(T.app('hh', T.ZERO, sort='I'), '==', T.UNIT)); N = n * (2 * nh + z)
    w = G.scalar('w'); G.assume(w > 0); sol = object(); L = Linear(G, n, sol); neigs = G.pick('neigs', ['default', 'given']); nm = G.size('neigs', 1) if neigs == 'given' else T.lift(3); kw = dict(neigs=nm) if neigs == 'given' else {}
    class Sys: pass
    sy = Sys(); sy.M = G.array('M', n, n); sy.linear_frf = L.linear_frf
    sine = E in ('HBM', 'HBM_AMP'); h0 = n * z
    Fl = G.array('Fl', N) if sine else g.new((N,), lambda idx: T.ZERO if g.yes(T.and_(idx[0] >= h0 + n, idx[0] < h0 + 2 * n)) else T.app('Fl', idx[0]))
    c, s = L.load(lambda j: T.app('Fl', h0 + j), (lambda j: T.app('Fl', h0 + n + j)) if sine else None, 'X'); r = G.index('r', n); rec = lambda f: gsum(0, n, lambda a: T.app('recov', a) * f(a))
    if E == 'HBM': fm = G.scalar('fmag'); kw['fmag'] = fm
    else:
        o = G.pick('order', [0, 1, 2]); A = G.scalar('A'); G.assume(A > 0); kw.update(control_amp=A, control_recov=G.array('recov', n), control_order=o)
        x, y = rec(c), rec(s); R = T.sqrt_(x * x + y * y); G.assume(R > 0); G.assume(x * x + y * y > 0); fm = A / (R * w ** o)
    xs = zero and G.pick('static solution', [False, True])
    if xs: kw['Xstat'] = G.array('Xstat', n)
    seen = []
    if vp:
        p = G.index('p', nh, 1); rhi = T.app('hh', p, sort='I'); lo = n * (2 * p + z); F = lambda i: T.app('Fnl', i)
        ac, as_ = L.load(lambda j: F(lo + j), lambda j: F(lo + n + j), 'Y')
        class NL:
            def total_aft(self, U, ww, hh, *a, **k):
                U = g.as_g(U); G.true('size given to the nonlinear force', g.same_dim(U.shape[0], N)); seen.append((U.frozen(), ww, hh)); return (G.array('Fnl', N), None, None)
        kw.update(rhi=rhi, vib_sys_nl=NL())
        if G.pick('gradient flag', ['default', 'off']) == 'off': kw['vprnm_calc_grad'] = False
    U = G.mod('utils.harmonic').predict_harmonic_solution(sy, w, Fl, h, sol, E, **kw)
    extra = dict(HBM=1, HBM_AMP=2, HBM_AMP_PHASE=3, VPRNM_AMP_PHASE=4)[E]; G.true('one entry for every unknown', g.same_dim(g.as_g(U).shape[0], N + extra))
    at = lambda i: val(U.get((lift(i),))); kind = G.pick('obligation', ['first', 'tail', 'others'] + (['superharmonic'] if vp else []))
    for nme, ww, k in L.calls: 
        if nme[0] != 'Z': G.eq('frequency of the linear response', ww, w if nme == 'X' else rhi * w)
        G.eq('number of modes', k, nm)
    if kind == 'first':
        u1, u2 = (lambda j: at(h0 + j)), (lambda j: at(h0 + n + j))
        if sine: G.eq('linear response in the first harmonic', u1(r), c(r) * fm); G.eq('linear response in the first harmonic', u2(r), s(r) * fm)
        else:
            Fc, Fs = at(N), at(N + 1); G.eq('load components', Fc, fm * x / R); G.eq('load components', Fs, -fm * y / R)
            G.eq('response to the load components', u1(r), Fc * c(r) - Fs * s(r)); G.eq('response to the load components', u2(r), Fc * s(r) + Fs * c(r))
            G.eq('zero sine part at the control', rec(u2), T.ZERO); G.eq('commanded amplitude measure', rec(u1) * w ** o, A)
    elif kind == 'tail':
        for i, t in enumerate(dict(HBM=[w], HBM_AMP=[fm, w], HBM_AMP_PHASE=[None, None, w], VPRNM_AMP_PHASE=[None, None, w, kw.get('control_amp')])[E]):
            if t is not None: G.eq('trailing unknowns', at(N + i), lift(t))
        if zero: G.eq('static part', at(r), T.app('Xstat', r) if xs else T.ZERO)
        G.eq('load not modified', Fl.get((r,)), T.app('Fl', r) if zero or sine or E != 'HBM' else T.ZERO)
    elif kind == 'others':
        q = G.index('q', nh, 1)
        if vp: G.assume(T.or_(q < p, q > p))
        for e in (0, 1): G.eq('no response in other harmonics', at(n * (2 * q + z + e) + r), T.ZERO)
    else:
        G.true('nonlinear force of the prediction', len(seen) == 1); f, ww, hh = seen[0]; G.true('harmonics of the nonlinear force', hh is h); G.eq('frequency of the nonlinear force', lift(ww), w)
        i = n * G.index('block', 2 * nh + z) + r; inside = g.yes(i >= lo) and g.yes(i < lo + 2 * n); G.eq('motion of the nonlinear force', val(f((i,))), T.ZERO if inside else at(i))
        G.eq('superharmonic entries', at(lo + r), -ac(r)); G.eq('superharmonic entries', at(lo + n + r), -as_(r))
