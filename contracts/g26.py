"""C26 for any number of degrees of freedom, local displacements, harmonics and time points; Fourier synthesis and analysis through
the contract of C03 (see g06)."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, gsum
from . import g06

@gen('C26', budget=100, replay=('systems',))
def reports_any_size(G):
    """local_harmonic_forces for every local law (an arbitrary function of the local motion it is given)"""
    m = g06.Motion(G); nf = G.mod('nlforces.nonlinear_force'); N, Nt, nhc = m.N, m.Nt, m.nhc
    kinds = G.pick('elements', [['i'], ['h'], ['s'], ['i', 'h'], ['s', 'i'], ['h', 's']]); els = []
    for q, kd in enumerate(kinds):
        n = m.n if q == 0 else G.size('n%d' % q, 1, block=True); x = '' if q == 0 else str(q)
        Q, Tm = (m.Q, m.Tm) if q == 0 else (G.array('Q' + x, n, N), G.array('T' + x, N, n))
        class E(nf.InstantaneousForce if kd == 'i' else nf.HystereticForce):
            def __init__(self): self.Q = Q; self.T = Tm; self.seen = []
            def local_force_history(self, u, v, *a, **k):
                self.seen.append((g.as_g(u), g.as_g(v), a, k)); nm, z = 'f%d' % self.q, self.n
                r = (g.new((Nt, z), lambda idx: T.app(nm, *idx)),)
                if self.kd == 'i': return r + tuple(g.new((Nt, z), (lambda s: lambda idx: T.app(s, *idx))(nm + s)) for s in 'uv')
                return r + tuple(g.new((Nt, z, z, nhc), (lambda s: lambda idx: T.app(s, *idx))(nm + s)) for s in 'uv')
        e = E(); e.kd, e.q, e.n, e.x = kd, q, n, x
        if kd == 's': e.u0 = G.array('start' + x, n)
        els.append(e)
    class S: pass
    s = S(); s.nonlinear_forces = list(els)
    out = G.mod('postprocess.harmonic').local_harmonic_forces(s, m.U, m.w, m.h, Nt=Nt)
    G.eq('solution not modified', m.U.get((N * m.c + m.r,)), T.app('U', N * m.c + m.r)); G.true('one entry per element', len(out) == len(els))
    k = G.index('e', len(els)) if False else None
    t = G.index('t', Nt)
    for (Uh, ut, Fh, ft), e in zip(out, els):
        j = G.index('j%d' % e.q, e.n); nm = 'Q' + e.x
        Ul = lambda c, j: gsum(0, N, lambda a: T.app(nm, j, a) * T.app('U', N * c + a))
        u = lambda o: gsum(0, nhc, lambda c: T.app('B%d' % o, t, c) * Ul(c, j))
        G.true('the local law is evaluated once', len(e.seen) == 1); a, b, rest, kw = e.seen[0]
        G.true('sizes', all(g.same_dim(x, y) for r, sh in ((Uh, (nhc, e.n)), (ut, (Nt, e.n)), (Fh, (nhc, e.n)), (ft, (Nt, e.n))) for x, y in zip(g.as_g(r).shape, sh)))
        G.eq('local displacement harmonics', Uh.get((m.c, j)), Ul(m.c, j)); G.eq('local displacement history', ut.get((t, j)), u(0))
        G.eq('displacements the law is evaluated on', a.get((t, j)), u(0)); G.eq('velocities the law is evaluated on', b.get((t, j)), m.w * u(1))
        G.eq('local force history', ft.get((t, j)), T.app('f%d' % e.q, t, j)); G.eq('local force harmonics', Fh.get((m.c, j)), gsum(0, Nt, lambda z: T.app('A', m.c, z) * T.app('f%d' % e.q, z, j)))
        if e.kd != 'i':
            if len(rest) < 3: raise T.Unsupported('history called with other arguments')
            hh, cst, u0 = rest[:3]; G.true('harmonics given to the law', hh is m.h)
            G.eq('basis given to the law', cst.get((t, m.d)), T.app('B0', t, m.d)); G.eq('reference displacement given to the law', g.as_g(u0).get((j,)), T.app('start' + e.x, j) if e.kd == 's' else Ul(T.ZERO, j))
