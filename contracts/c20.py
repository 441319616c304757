from pyded.contracts_api import contract
from . import memory
from .spec import *

class Modes:
    """the eigen solver known through its contract (C15): for the given matrices, modes lo..hi (mass-orthonormal, ascending)"""
    def __init__(self, D, n, m): self.D = D; self.V = D.real('V', (n, m)); self.w = D.real('wn', (m,), pos=True); self.K = self.M = None; self.m = m; self.calls = 0
    def expect(self, K, M): self.K, self.M = K, M
    def eigs(self, K, M=None, subset_by_index=(0, 2), symmetric=True):
        D = self.D; self.calls += 1
        if not symmetric or M is None: raise T.Unsupported('another eigenproblem')
        D.eq('eigenproblem of the stiffness', K, self.K); D.eq('eigenproblem of the mass', M, self.M); D.true('lowest requested modes', [int(x) for x in subset_by_index] == [0, self.m - 1])
        return self.w * self.w, D.copyarr(self.V)

def matrices(D, n):
    M, K = D.real('M', (n, n)), D.real('K', (n, n))
    if not D.sym: M = M @ M.T + 0.5 * np.eye(n); K = K @ K.T + 0.3 * np.eye(n)
    else:
        for i in range(n):
            for j in range(i): M[i, j] = M[j, i]; K[i, j] = K[j, i]
    return M, K

def system(D, M, K, ab):
    vs = D.mod('vibration_system'); how = D.pick('proportional damping', ['constructor', 'set_new_C'])
    if how == 'constructor': return vs.VibrationSystem(M, K, ab=list(ab))
    s = vs.VibrationSystem(M, K); s.set_new_C(ab=list(ab)); return s

def modal(D, V, wn, z, fc, fs, w):
    """cosine and sine parts of the modes driven by fc cos + fs sin"""
    n, m = V.shape; c, s = D.np.zeros((n,)), D.np.zeros((n,))
    for k in range(m):
        v = V[:, k]; a, b = v @ fc, v @ fs; r = wn[k] * wn[k] - w * w; d = 2 * z[k] * wn[k] * w; D.assume(r * r + d * d > (0 if D.sym else 1e-4)); q = r * r + d * d
        c = c + v * ((r * a - d * b) / q); s = s + v * ((d * a + r * b) / q)
    return c, s

def freqs(D):
    k = D.pick('frequencies', ['number', 1, 2, 5], sym=['number', 1, 2])
    return (D.real('w', pos=True), 1) if k == 'number' else (D.real('w', (k,), pos=True), k)

def solved(D, M, K, m):
    import scipy.linalg
    l, V = scipy.linalg.eigh(K, M); return V[:, :m], np.sqrt(l[:m])

def check(D, X, ws, n, expect, balance):
    D.true('one row for every frequency: cosine, sine, frequency', tuple(X.shape) == (len(ws), 2 * n + 1))
    if tuple(X.shape) != (len(ws), 2 * n + 1): return
    for i, w in enumerate(ws):
        D.eq('frequency', X[i, -1], w); c, s = expect(w)
        D.eq('cosine response', X[i, :n], c, tol=1e-7); D.eq('sine response', X[i, n:2 * n], s, tol=1e-7)
        if balance is not None: balance(X[i, :n], X[i, n:2 * n], w)

@contract('C20', num=2500, budget=40, maxcfg=300)
def direct(D):
    """response to a cosine/sine load: sum over the retained modes; with all modes it solves the equations of motion"""
    n = D.pick('n', [1, 2, 3, 5], sym=[1, 2, 3]); neigs = D.pick('neigs', ['default', 1, 2, 3, 5, 9], sym=['default', 1, 2, 4]); m = min(n, 3 if neigs == 'default' else neigs)
    M, K = matrices(D, n); ab = D.real('ab', (2,), lo=0, hi=0.3) if not D.sym else D.real('ab', (2,)); sys_ = system(D, M, K, ab); w, nw = freqs(D); ws = [w] if np.ndim(w) == 0 else list(w)
    fc = D.real('Fc', (n,)); sine = D.pick('sine load', [0, 1]); fs = D.real('Fs', (n,)) if sine else D.np.zeros((n,))
    if D.sym: sol = Modes(D, n, m); sol.expect(D.copyarr(M), D.copyarr(K)); sol.K, sol.M = D.copyarr(K), D.copyarr(M); V, wn = sol.V, sol.w
    else: sol = D.mod('solvers').NonlinearSolver(); V, wn = solved(D, M, K, m)
    keep = [D.copyarr(v) for v in (M, K, fc, fs) + ((w,) if nw and np.ndim(w) else ())]
    kw = ({} if neigs == 'default' else dict(neigs=neigs)); kw.update(dict(Flsin=fs) if sine else {})
    X = sys_.linear_frf(w, fc, sol, **kw); z = ab[0] / wn / 2 + ab[1] * wn / 2
    bal = None
    if m == n and not D.sym:
        C = ab[0] * M + ab[1] * K
        def bal(c, s, w): D.eq('harmonic balance', np.hstack(((K - w * w * M) @ c + w * C @ s, (K - w * w * M) @ s - w * C @ c)), np.hstack((fc, fs)), tol=1e-6)
    check(D, X, ws, n, lambda w: modal(D, V, wn, z, fc, fs, w), bal)
    for a, b in zip((M, K, fc, fs) + ((w,) if np.ndim(w) else ()), keep): D.same('inputs not modified', a, b)

@contract('C20', num=1, budget=30, maxcfg=10, scope='bounded')
def lemma(D):
    """mass-orthonormal complete modes: the modal sum solves the equations of motion (explicit inverse of the mode matrix)"""
    if not D.sym: return
    n = D.pick('n', [1], sym=[1, 2]); V = D.real('V', (n, n)); wn = D.real('wn', (n,), pos=True); ab = D.real('ab', (2,)); w = D.real('w', pos=True); fc, fs = D.real('Fc', (n,)), D.real('Fs', (n,))
    d = V[0, 0] if n == 1 else V[0, 0] * V[1, 1] - V[0, 1] * V[1, 0]; D.assume(d != 0)
    I = (D.np.ones((1, 1)) / d) if n == 1 else D.np.array([[V[1, 1], -V[0, 1]], [-V[1, 0], V[0, 0]]]) / d
    M = I.T @ I; K = I.T @ (I * (wn * wn).reshape(-1, 1)); sys_ = D.mod('vibration_system').VibrationSystem(M, K, ab=list(ab))
    class S:
        def eigs(self, K_, M_=None, subset_by_index=None, symmetric=True): return wn * wn, D.copyarr(V)
    for k in range(n): D.assume((wn[k] * wn[k] - w * w) ** 2 + (ab[0] + ab[1] * wn[k] * wn[k]) ** 2 * w * w > 0)
    X = sys_.linear_frf(w, fc, S(), neigs=n, Flsin=fs)[0]; c, s = X[:n], X[n:2 * n]; C = ab[0] * M + ab[1] * K
    D.eq('damping matrix', sys_.C, C)
    D.eq('cosine balance', (K - M * (w * w)) @ c + (C @ s) * w, fc); D.eq('sine balance', (K - M * (w * w)) @ s - (C @ c) * w, fs)

@contract('C20', num=2500, budget=40, maxcfg=300)
def base(D):
    """response to prescribed base motion: free degrees of freedom driven by stiffness, mass and damping coupling to the base"""
    n = D.pick('n', [2, 3, 4], sym=[2, 3]); flag = D.pick('base', [[0], [1], [0, 1], [0, 2], [n - 1]], sym=[[0], [1], [n - 1]] if n == 2 else [[0], [1], [0, 1], [0, 2]])
    flag = [k for k in sorted(set(flag)) if k < n]; D.assume(len(flag) < n) if not D.sym else None
    bf = np.zeros(n, bool); bf[flag] = True; fr = [k for k in range(n) if k not in flag]; nf = len(fr)
    neigs = D.pick('neigs', ['default', 1, 2, 9], sym=['default', 1, 5]); m = min(nf, 3 if neigs == 'default' else neigs)
    M, K = matrices(D, n); ab = D.real('ab', (2,), lo=0, hi=0.3) if not D.sym else D.real('ab', (2,)); sys_ = system(D, M, K, ab); w, nw = freqs(D); ws = [w] if np.ndim(w) == 0 else list(w); Ub = D.real('Ub', (2,))
    C = ab[0] * M + ab[1] * K; sub = lambda A, r, c: A[np.ix_(r, c)] if not D.sym else D.np.array([[A[i, j] for j in c] for i in r])
    if D.sym: sol = Modes(D, nf, m); sol.K, sol.M = sub(K, fr, fr), sub(M, fr, fr); V, wn = sol.V, sol.w
    else: sol = D.mod('solvers').NonlinearSolver(); V, wn = solved(D, sub(M, fr, fr), sub(K, fr, fr), m)
    keep = [D.copyarr(v) for v in (M, K, Ub)]
    X = sys_.linear_frf_base(w, Ub, bf, sol, **({} if neigs == 'default' else dict(neigs=neigs))); z = ab[0] / wn / 2 + ab[1] * wn / 2; one = D.np.ones((len(flag),))
    def loads(w):
        k, mm, c = sub(K, fr, flag) @ one, sub(M, fr, flag) @ one, sub(C, fr, flag) @ one
        return -(k - mm * (w * w)) * Ub[0] - c * (w * Ub[1]), -(k - mm * (w * w)) * Ub[1] + c * (w * Ub[0])
    bal = None
    if m == nf and not D.sym:
        def bal(c, s, w):
            u, v = np.zeros(n), np.zeros(n); u[fr], v[fr] = c, s; u[flag], v[flag] = Ub
            D.eq('harmonic balance of the free degrees of freedom', np.hstack((((K - w * w * M) @ u + w * C @ v)[fr], ((K - w * w * M) @ v - w * C @ u)[fr])), 0, tol=1e-6)
    check(D, X, ws, nf, lambda w: modal(D, V, wn, z, *loads(w), w), bal)
    for a, b in zip((M, K, Ub), keep): D.same('inputs not modified', a, b)

@contract('C20', num=60, sym=False)
def refused(D):
    """a modal response needs proportional damping"""
    n = D.pick('n', [1, 2]); M, K = matrices(D, n); s = D.mod('vibration_system').VibrationSystem(M, K, C=0.1 * M)
    D.raises('direct response refused without proportional damping', lambda: s.linear_frf(1.0, np.ones(n), D.mod('solvers').NonlinearSolver()))
from . import g20
