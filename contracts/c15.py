from pyded.contracts_api import contract
from . import memory
from .spec import *

def solver(D, which):
    return D.mod('solvers').NonlinearSolver() if which == 'base' else D.mod('jax.solvers').NonlinearSolverOMP()

def rhs(D, name, n, kind): return D.real(name, (n,)) if kind == 1 else D.real(name, (n, kind))

@contract('C15', num=400, budget=60, maxcfg=40)
def linear(D):
    """direct and factored solves satisfy A x = b for one or several right sides, in any interleaving of factorisations"""
    n = D.pick('n', [1, 2, 3, 6], sym=[1, 2, 3]); m = D.pick('right sides', [1, 2, 4], sym=[1, 2]); s = solver(D, D.pick('solver', ['base', 'jax']))
    A, B = D.real('A', (n, n)), D.real('B', (n, n)); b, c = rhs(D, 'b', n, m), rhs(D, 'c', n, D.pick('second right sides', [1, 3], sym=[1]))
    if not D.sym:
        how = D.pick('matrix', ['general', 'pivoting', 'scaled', 'symmetric'])
        if how == 'pivoting': A = A[::-1] * 1.0; A[0, 0] = 0.0 if n > 1 else 1.0
        if how == 'symmetric': A = A + A.T
        if np.linalg.cond(A) > 1e6 or np.linalg.cond(B) > 1e6: D.assume(False)
        if how == 'scaled': A = A * 1e-5; b = b * 1e4
    else:
        D.assume(D.np.linalg.det(A) != 0); D.assume(D.np.linalg.det(B) != 0)
    keep = [D.copyarr(v) for v in (A, B, b, c)]
    ok = lambda lab, M, x, r: D.eq(lab, M @ D.np.array(x) if not D.sym else M @ x, r, tol=1e-8)
    ops = D.pick('sequence', ['direct', 'factored', 'interleaved', 'repeated'])
    if ops == 'direct': ok('direct solve', A, s.lin_solve(A, b), b); ok('direct solve after another', B, s.lin_solve(B, c), c)
    elif ops == 'factored': f = s.lin_factor(A); ok('factored solve', A, s.lin_factored_solve(f, b), b)
    elif ops == 'interleaved':
        f = s.lin_factor(A); g = s.lin_factor(B); x = s.lin_factored_solve(f, b); y = s.lin_factored_solve(g, c)
        ok('first factorisation after a second one', A, x, b); ok('second factorisation', B, y, c)
        s.lin_solve(B, c); ok('factorisation after a direct solve', A, s.lin_factored_solve(f, c), c)
    else:
        f = s.lin_factor(A); x = s.lin_factored_solve(f, b); y = s.lin_factored_solve(f, b)
        if D.sym: D.eq('repeated solve', y, x)
        else: D.same('repeated solve', np.array(y), np.array(x))
        ok('another right side', A, s.lin_factored_solve(f, c), c)
    for v, w in zip((A, B, b, c), keep): D.same('arguments not modified', v, w)

@contract('C15', num=400, budget=60, maxcfg=200)
def conditioned(D):
    """scaled problems return the residual and Jacobian of the scaled function; wrapping never changes other wrappers"""
    n = D.pick('n', [1, 2, 4], sym=[1, 2, 3]); s = solver(D, D.pick('solver', ['base', 'jax'])); extra = D.pick('outputs', [2, 3])
    cto, cto2 = D.real('CtoP', (n,), nonzero=True), D.real('CtoP2', (n,), nonzero=True); rp = D.real('RPtoC', nonzero=True); X = D.real('X', (n,))
    if D.pick('scalar scaling', [0, 1]): cto = cto[0]
    if D.pick('residual scaling per row', [0, 1]): rp = D.real('RPtoC row', (n,), nonzero=True)
    A, q = (None, None) if D.sym else (D.real('A', (n, n)), D.real('q'))
    calls = []
    def fun(Y, calc_grad=True):
        calls.append((D.copyarr(Y), calc_grad))
        if D.sym: v, p = D.fun('R', n, Y)
        else: v, p = A @ Y + q * np.sin(Y), A + np.diag(q * np.cos(Y))
        return ((v, p, 7)[:extra]) if calc_grad else (v,)
    keep = [D.copyarr(v) for v in (cto, X)]; rp0 = D.copyarr(rp)
    f = s.conditioning_wrapper(fun, cto, rp); g = s.conditioning_wrapper(fun, cto2); d = D.pick('RPtoC given', [1, 0])
    if not d: f = s.conditioning_wrapper(fun, cto); rp = rp0 = 1
    g(X); del calls[:]
    r = f(X); D.true('residual and Jacobian', len(r) == 2); R, J = r
    D.eq('evaluated at the physical point', calls[0][0], X * cto)
    D.eq('scaled residual', R, rp0 * fun(keep[1] * keep[0])[0]); D.jac('scaled Jacobian', R, J, X, lambda X: f(X, False)[0])
    del calls[:]; r = f(X, calc_grad=False); D.true('residual alone', len(r) == 1 and calls[0][1] is False); D.eq('residual without gradient', r[0], R)
    for v, w in zip((cto, X), keep): D.same('arguments not modified', v, w)

@contract('C15', num=400, budget=30)
def eigs(D):
    """generalised problem, mass-orthonormal vectors, ascending order, requested range"""
    n = D.pick('n', [1, 2, 3, 5], sym=[1, 2, 3]); s = solver(D, D.pick('solver', ['base', 'jax'])); mass = D.pick('mass', [0, 1])
    lo = D.pick('first', [0, 1, 2], sym=[0, 1]); hi = D.pick('last', [0, 1, 2, 4, 9], sym=[0, 1, 2, 5]); dflt = D.pick('default range', [0, 0, 0, 1], sym=[0, 1] if lo == hi == 0 else [0])
    if dflt: lo, hi = 0, 2
    end = min(hi, n - 1)
    if lo > end: D.assume(T.FALSE if D.sym else False)
    k = end - lo + 1; rng = [lo, hi]
    K = D.real('K', (n, n)); M = D.real('M', (n, n)); K = K + K.T; M = M @ M.T + (D.np.eye(n) if D.sym else 0.5 * np.eye(n))
    W = M if mass else None; keep = [D.copyarr(K), D.copyarr(M)]
    if D.sym:
        # contract of scipy.linalg.eigh: eigenpairs lo..end of (K, M), ascending, mass-orthonormal, for exactly the matrices given
        lam, V = D.real('lam', (n,)), D.real('V', (n, n)); asked = []
        def eigh(a, b=None, *args, subset_by_index=None, **kw):
            D.true('symmetric pair handed to the eigensolver', not args and not kw)
            D.eq('stiffness handed to the eigensolver', a, K); D.true('mass handed to the eigensolver', (b is None) == (W is None))
            if W is not None: D.eq('mass handed to the eigensolver', b, M)
            i, j = subset_by_index; asked.append((i, j)); return lam[i:j + 1].copy(), V[:, i:j + 1].copy()
        from pyded import load
        D.patch(load.copy().scipy.linalg, 'contracts', dict(load.copy().scipy.linalg.contracts, eigh=eigh))
        w, P = s.eigs(K, W) if dflt else s.eigs(K, W, subset_by_index=rng) if mass else s.eigs(K, subset_by_index=rng)
        D.true('requested range', asked == [(lo, end)]); D.eq('eigenvalues', w, lam[lo:end + 1]); D.eq('eigenvectors', P, V[:, lo:end + 1])
        D.true('range argument not modified', rng == [lo, hi]); return
    w, P = s.eigs(K, W) if dflt else s.eigs(K, W, subset_by_index=rng) if mass else s.eigs(K, subset_by_index=rng)
    Mm = M if mass else np.eye(n)
    D.true('number of modes', w.shape == (k,) and P.shape == (n, k))
    if w.shape != (k,): return
    D.eq('generalised eigenproblem', K @ P, Mm @ P * w, tol=1e-7); D.eq('mass-orthonormal', P.T @ Mm @ P, np.eye(k), tol=1e-7)
    D.true('ascending', np.all(np.diff(w) >= -1e-10)); full = np.sort(np.linalg.eigvals(np.linalg.solve(Mm, K)).real); D.eq('the requested modes', w, full[lo:end + 1], tol=1e-6)
    D.true('range argument not modified', rng == [lo, hi])
    for v, z in zip((K, M), keep): D.same('arguments not modified', v, z)
    w2, P2 = s.eigs(K, W, subset_by_index=[0, n - 1]); D.eq('later call', w2, full, tol=1e-6)

@contract('C15', num=150, sym=False)
def root(D):
    """the base solver returns the residual and Jacobian of the returned point and leaves the start alone"""
    n = D.pick('n', [1, 2, 4]); A = D.real('A', (n, n), lo=-1, hi=1) * 0.3 + 3 * np.eye(n); q = D.real('q', lo=0, hi=0.3); b = D.real('b', (n,)); X0 = D.real('X0', (n,)); k = D.copyarr(X0)
    fun = lambda X: (A @ X + q * X ** 3 - b, A + np.diag(3 * q * X ** 2))
    s = solver(D, 'base'); tol = D.pick('xtol', [None, 1e-10])
    X, R, J, sol = s.nsolve(fun, X0, verbose=False, xtol=tol); D.same('start not modified', X0, k)
    if sol['success']: D.eq('solution', R, np.zeros(n), tol=1e-5 if tol is None else 1e-7); D.eq('residual of the returned point', R, fun(X)[0]); D.eq('Jacobian of the returned point', J, fun(X)[1])
    X2 = s.nsolve(fun, X0, verbose=False, xtol=tol)[0]; D.same('later call', X2, X)
from . import g15
