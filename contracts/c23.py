from pyded.contracts_api import contract
from .spec import *
from . import g23

@contract('C23', num=300, budget=40, maxcfg=120)
def conditioning(D):
    """one value per unknown: max(minimum, mean |X| of the harmonic) over each harmonic's entries, max(minimum, |x|) for extra unknowns"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=[[0], [1], [0, 1], [1, 3], [0, 2, 3]])
    n = D.pick('Ndof', [1, 2, 3, 4], sym=[1, 2]); m = D.pick('extra', [0, 1, 2, 3, 5, 8], sym=[0, 1, 2, 5]); kind = D.pick('delta', ['default', 'number', 'list'])
    X = D.real('X', (nhc(h) * n + m,)); X0 = D.copyarr(X); ha = np.array(h)
    nd = len(h) + (1 if m else 0)
    if kind == 'default': C = hu.harmonic_wise_conditioning(X, n, ha); dl = [Fr(1, 10000)] * nd
    elif kind == 'number':
        d = D.pick('value', [1e-3, 0.5, 2.0]); C = hu.harmonic_wise_conditioning(X, n, ha, delta=d); dl = [Fr(d).limit_denominator(10 ** 6)] * nd
    else:
        v = D.real('dl', (nd,), pos=True); dl = list(D.copyarr(v)); a = list(v) if D.pick('as', ['list', 'array']) == 'list' else v
        C = hu.harmonic_wise_conditioning(X, n, ha, delta=a)
    if not D.sym: dl = [float(x) for x in dl]
    S = D.np.zeros((nhc(h) * n + m,))
    for i, (k, c, s) in enumerate(rows(h)):
        b, e = c * n, (c + 1) * n if s is None else (s + 1) * n
        mean = sum(D.np.abs(X0[j]) for j in range(b, e)) / (e - b)
        for j in range(b, e): S[j] = D.np.maximum(dl[i], mean)
    for j in range(nhc(h) * n, nhc(h) * n + m): S[j] = D.np.maximum(dl[-1], D.np.abs(X0[j]))
    D.eq('scaling vector', C, S)
    D.same('solution not modified', X, X0)
