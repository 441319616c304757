from pyded.contracts_api import contract
from . import memory
from .spec import *
from . import g13

def make(D, n, cto, b, corrector, rp=None, extra={}):
    S = D.mod('solvers').NonlinearSolver()
    if D.sym: S.lin_solve = lambda A, r: D.np.linalg.solve(A, r)
    C = D.mod('continuation').Continuation(S, ds0=1, CtoP=D.copyarr(cto), RPtoC=rp, config=dict(FracLam=b, corrector=corrector, verbose=-1, **extra))
    return C

def problem(D, n):
    if D.sym:
        def fun(X, calc_grad=True):
            v, p = D.fun('R', n, X)
            return (v, p[:, :-1], p[:, -1]) if calc_grad else (v,)
        return fun
    A, B, g = D.real('A', (n, n)), D.real('B', (n, n)), D.real('g', (n,)); A = A + 3 * np.eye(n)
    def fun(X, calc_grad=True):
        x, l = X[:-1], X[-1]; s = np.sin(x)
        R = A @ x + B @ s * l + g * l * l
        return (R, A + B * np.cos(x) * l, B @ s + 2 * g * l) if calc_grad else (R,)
    return fun

def weight(D):
    k = D.pick('weight', ['half', 'real', 'one'])
    return Fr(1, 2) if k == 'half' and D.sym else 0.5 if k == 'half' else 1 if k == 'one' else D.real('b', lo=0.05 if not D.sym else 0, hi=1)

@contract('C13', num=300, budget=60, maxcfg=24)
def corrector(D):
    """augmented residual = scaled residual, then the arc-length (or orthogonality) equation; exact Jacobian"""
    n = D.pick('n', [1, 2, 3, 5], sym=[1, 2]); kind = D.pick('corrector', ['Pseudo', 'Ortho', 'pseudo', 'ORTHO'], sym=['Pseudo', 'Ortho']); b = weight(D)
    cto = D.real('CtoP', (n + 1,), pos=True); sg = D.real('sgn', (n + 1,), nonzero=True) if not D.sym else None
    if not D.sym: cto = cto * np.sign(sg)
    rp = D.real('RPtoC', pos=True); fun = problem(D, n); C = make(D, n, cto, b, kind, rp)
    cto = D.np.abs(cto)
    X, X0 = D.real('X', (n + 1,)), D.real('X0', (n + 1,)); ds = D.real('ds', pos=True); d = D.real('dir', (n + 1,)); nn = X0[:-1] @ X0[:-1]
    D.assume(nn > (0 if D.sym else 0.01)); Xk, X0k, dk = D.copyarr(X), D.copyarr(X0), D.copyarr(d)
    f = lambda X: C.correct_res(fun, X, X0, ds, d)[0]
    Ra, J = C.correct_res(fun, X, X0, ds, d)
    R = fun(Xk * cto)[0]; c = (1 - b) / nn
    if kind.lower() == 'pseudo': e = (c * ((Xk - X0)[:-1] @ (Xk - X0)[:-1]) + b * (Xk - X0)[-1] * (Xk - X0)[-1] - ds * ds) / (ds * ds)
    else: e = (c * ((Xk - X0)[:-1] @ d[:-1]) + b * (Xk - X0)[-1] * d[-1] - ds * (c * (d[:-1] @ d[:-1]) + b * d[-1] * d[-1])) / ds
    D.eq('scaled residual rows', Ra[:-1], rp * R); D.eq('arc-length row', Ra[-1], e)
    D.eq('residual without gradient', C.correct_res(fun, X, X0, ds, d, calc_grad=False)[0], Ra)
    D.same('inputs not modified', X, Xk); D.same('inputs not modified', X0, X0k); D.same('inputs not modified', d, dk)
    D.jac('corrector Jacobian', Ra, J, X, f)

def c_(X0, cto, n, b): X0C = X0 / cto; return (1 - b) / (X0C[:-1] @ X0C[:-1])

@contract('C13', num=300, budget=60, maxcfg=24)
def predictor(D):
    """tangent, of unit length in the weighted norm, along the previous step; travelling ds along it satisfies both correctors"""
    n = D.pick('n', [1, 2, 3, 5], sym=[1, 2]); b = weight(D); cto = D.real('CtoP', (n + 1,), pos=True); kind = D.pick('corrector', ['Pseudo', 'Ortho'])
    fun = problem(D, n); dyn = D.pick('dynamic', [0, 1], sym=[0])
    C = make(D, n, cto, b, kind, D.real('RPtoC', pos=True), dict(DynamicCtoP=True) if dyn else {})
    # the linear solve is exact for the tangency obligation and any nonzero vector for the others (they do not depend on it)
    any_ = D.sym and D.pick('linear solve', ['exact', 'any']) == 'any'
    if any_:
        z = D.real('z', (n + 1,)); C.solver.lin_solve = lambda A, r: D.copyarr(z)
    Y0, st, dp = D.real('Y0', (n + 1,)), D.real('step', (n + 1,)), D.real('dp', (n + 1,), nonzero=True); X0 = Y0 * cto; Xp = X0 - st * cto
    D.assume(Y0[:-1] @ Y0[:-1] > (0 if D.sym else 0.01)); Xk = [D.copyarr(x) for x in (X0, Xp, dp)]
    _, JX, Jl = fun(X0); JC = D.np.hstack((JX, D.np.reshape(Jl, (n, 1)))) * cto
    if not D.sym and abs(np.linalg.det(np.vstack((JC, dp)))) < 1e-3: D.assume(False)
    if any_: D.assume(c_(X0, cto, n, b) * (z[:-1] @ z[:-1]) + b * z[-1] * z[-1] > 0)
    d = C.predict(fun, X0, Xp, dp)
    X0C = X0 / cto; c = (1 - b) / (X0C[:-1] @ X0C[:-1]); step = (X0 - Xp) / cto
    unit = c * (d[:-1] @ d[:-1]) + b * d[-1] * d[-1]
    if not any_: D.eq('tangent to the solution curve', JC @ d, D.np.zeros((n,)), tol=1e-7)
    if D.sym and not any_: return
    D.eq('unit length', unit, unit * 0 + 1)
    D.le('along the previous step', 0 * unit, c * (d[:-1] @ step[:-1]) + b * d[-1] * step[-1])
    for x, y in zip((X0, Xp, dp), Xk): D.same('inputs not modified', x, y)
    ds = D.real('ds', pos=True)
    e = C.correct_res(fun, X0C + d * ds, X0C, ds, d, calc_grad=False)[0][-1]
    D.eq('the predicted point satisfies the arc-length equation', e, e * 0)
