from pyded.contracts_api import contract
from . import memory
from . import g02, g22
from .resid import *
from . import resid

def make(case):
    def f(D):
        call, spec, x, p, S, keep = setup(D, case, exact=True)
        R0 = spec(x, p); x0 = D.copyarr(x)
        r = call(x, p)
        D.eq('residual', r[0], R0)
        for nm, a, b in keep: D.same(nm + ' not modified', a, b)
        D.same('unknowns not modified', x, x0)
        if case not in ('base', 'static') and S.nograd:
            q = call(x, p, calc_grad=False)
            D.true('no gradient: one output', len(q) == 1)
            D.eq('residual without gradient', q[0], r[0], tol=1e-12)
        r2 = call(x, p)
        D.eq('repeated evaluation', r2[0], r[0], tol=1e-12)
        S.untouched()
    f.__name__ = case; f.__doc__ = 'residual of %s equals its stated balance and constraint rows' % case
    contract('C02', num=60, budget=60, maxcfg=60, scope='bounded')(f)
for c in CASES: make(c)
