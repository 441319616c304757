"""Residuals of systems with any number of degrees of freedom, harmonics and unknowns.

harmonic_stiffness is used through the contract proved in C04 (every entry is the stated combination of M, C and K at the
entry's position inside its block, linear in M, C, K); element forces are an opaque map of (U, w) with exact partials."""
from pyded import gen as g, terms as T
from pyded.gen import GNP, val, lift, Wrt, gsum, GArr, opaque_vec

class Sys:
    def __init__(self, G, symmetric=False):
        self.G = G
        zero = G.pick('zero', [True, False])
        self.nd = nd = G.size('nd', 1, block=True); self.nh = nh = G.size('nh', 1); self.h = h = G.harmonics(zero, nh); self.z = z = 1 if zero else 0
        self.N = N = nd * (2 * nh + z)
        self.M, self.C, self.K = G.array('M', nd, nd), G.array('C', nd, nd), G.array('K', nd, nd)
        if symmetric:                 # every symmetric matrix is S + S^T
            self.M = GArr((nd, nd), lambda idx: T.app('M', idx[0], idx[1]) + T.app('M', idx[1], idx[0])); g.journal.append(self.M)
        self.opaque = {}; self.calls = []
        hu = G.mod('utils.harmonic'); body = hu.harmonic_stiffness
        def stiffness(M, C, K, w, h_, calc_grad=True, only_C=False):
            if h_ is not h: return body(M, C, K, w, h_, calc_grad, only_C)
            return self.stiff(M, C, K, w, calc_grad, only_C)
        G.patch(hu, 'harmonic_stiffness', stiffness)
        vs = G.mod('vibration_system'); nf = G.mod('nlforces.nonlinear_force')
        if getattr(vs, 'harmonic_stiffness', None) is body: G.patch(vs, 'harmonic_stiffness', stiffness)
        self.sys = vs.VibrationSystem(self.M, self.K, C=self.C)
        outer = self
        class Opaque(nf.NonlinearForce):
            def __init__(self): pass
            def nl_force_type(self): return 0
            def aft(self, U, w, h_, Nt=128, tol=1e-7, calc_grad=True):
                if h_ is not h: raise T.Unsupported('element called with other harmonics')
                G.true('settings passed to the elements', bool(Nt == 64 and tol == 1e-5))
                return outer.force(U, w, calc_grad)
            def force(self, X):
                F, P, W = outer.force(X, T.ZERO, True, n=nd); return F, P
        self.sys.add_nl_force(Opaque())
        self.rows = [G.index('i', N)]; self.cols = [G.index('j', N)]
    def stiff(self, M, C, K, w, calc_grad=True, only_C=False):
        rm = lambda i: T.app('rm', i, sort='I')
        def part(X, name):
            X = g.as_g(X)
            if X.ndim == 0:
                x = val(X.get(())); 
                if x.m: raise T.Unsupported('scalar matrix')
                return lambda i, j: T.ZERO
            f = X.frozen()
            return lambda i, j: T.app(name, i, j) * val(f((rm(i), rm(j))))
        mC = part(C, 'sC'); zero = lambda i, j: T.ZERO
        mM, mK = (zero, zero) if only_C else (part(M, 'sM'), part(K, 'sK')); w = val(w)
        E = g.new((self.N, self.N), lambda idx: mK(*idx) + w * mC(*idx) + w * w * mM(*idx))
        if not calc_grad: return (E,)
        return E, g.new((self.N, self.N), lambda idx: mC(*idx) + 2 * w * mM(*idx))
    def force(self, U, w, calc_grad, n=None):
        k = len(self.calls); n = self.N if n is None else n; u = g.as_g(U).frozen(); w = val(w)
        self.G.true('size of the displacement passed to the elements', g.same_dim(g.as_g(U).shape[0], n))
        F, P, W = 'F%d' % k, 'P%d' % k, 'W%d' % k
        self.calls.append((u, w))
        self.opaque[F] = opaque_vec(u, n, P, {W: w})
        f = g.new((n,), lambda idx: T.app(F, idx[0]))
        if not calc_grad: return (f,)
        return f, g.new((n, n), lambda idx: T.app(P, *idx)), g.new((n,), lambda idx: T.app(W, idx[0]))
    # specification
    def lin(self, i, M, C, K, w, u):
        """row i of the dynamic stiffness times u"""
        E = self.stiff(M, C, K, w, False)[0]
        return gsum(0, self.N, lambda j: val(E.get((i, j))) * val(u(j)))
    def stat(self, x, i):
        return x if self.z and g.yes(i < self.nd) else T.ZERO
    def dyn(self, x, i):
        return T.ZERO if self.z and g.yes(i < self.nd) else x
    def jac(self, label, R, J, x, rows, cols, shape):
        G = self.G
        J = g.as_g(J)
        for d, (a, b) in enumerate(zip(J.shape, shape)): G.true(label + ' shape', g.same_dim(a, b))
        for i in rows:
            for j in cols:
                G.eq(label, J.get((i, j)) if J.ndim == 2 else J.get((i,)), Wrt(x, (j,), self.opaque).d(val(R.get((i,)))))
