from pyded.contracts_api import contract
from . import memory
from . import g02, g22
from .resid import *

def make(case):
    def f(D):
        call, spec, x, p, S, keep = setup(D, case)
        spec(x, p)                                   # preconditions of the phase condition
        r = call(x, p)
        D.jac('derivative in the unknowns', r[0], r[1], x, lambda x: call(x, p)[0])
        if p is not None: D.jac('derivative in the control parameter', r[0], r[2], p, lambda p: call(x, p)[0])
    f.__name__ = case; f.__doc__ = 'Jacobians of the %s residual' % case
    contract('C01', num=60, budget=60, maxcfg=60, scope='bounded')(f)
for c in CASES: make(c)
