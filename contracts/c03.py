from pyded.contracts_api import contract
from . import memory
from .spec import *

@contract('C03', num=150, budget=40, maxcfg=60)
def synthesis(D):
    """time_series_deriv(Nt, h, X0, order) equals the cosine/sine sums of the order-th derivative at every sample"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=HL_SYM)
    Nt = D.pick('Nt', [n for n in (4, 6, 8, 10, 12, 14, 16, 20, 32, 64, 128) if n > 2 * max(h) + 1], sym=nts(h))
    nd = D.pick('nd', [1, 2, 3, 5], sym=[1, 2])
    order = D.pick('order', [0, 1, 2, 3, 4], sym=[0, 1, 2, 3])
    U = D.real('U', (nhc(h), nd)); U0 = D.copyarr(U); ha = np.array(h)
    x = hu.time_series_deriv(Nt, ha, U, order)
    D.eq('x equals synthesis sums', x, synth(D, h, U0, Nt, order), tol=1e-9)
    D.same('coefficients not modified', U, U0)
    D.true('h not modified', bool(np.all(ha == np.array(h))))

@contract('C03', num=150, budget=40, maxcfg=40)
def analysis(D):
    """get_fourier_coeff(h, x) equals the discrete cosine/sine averages of the listed harmonics"""
    hu = D.mod('utils.harmonic')
    h = D.pick('h', HL_ALL, sym=HL_SYM)
    Nt = D.pick('Nt', [n for n in (4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 20, 32, 33, 64) if n > 2 * max(h)], sym=nts(h))
    nd = D.pick('nd', [1, 2, 3], sym=[1, 2])
    x = D.real('x', (Nt, nd)); x0 = D.copyarr(x); ha = np.array(h)
    v = hu.get_fourier_coeff(ha, x)
    D.eq('coefficients', v, coeffs(D, h, x0), tol=1e-9)
    D.same('series not modified', x, x0)

@contract('C03', num=100, budget=30, maxcfg=40)
def roundtrip(D):
    """analysis after synthesis is the identity (array and automatic differentiation versions)"""
    which = D.pick('module', ['utils.harmonic', 'jax.harmonic_utils'])
    hu = D.mod(which)
    h = D.pick('h', HL_ALL, sym=HL_SYM)
    Nt = D.pick('Nt', [n for n in (4, 6, 8, 10, 12, 16, 20, 32, 64, 256) if n > 2 * max(h) + 1], sym=nts(h))
    nd = D.pick('nd', [1, 2, 3], sym=[1, 2])
    U = D.real('U', (nhc(h), nd))
    hh = np.array(h) if which.startswith('utils') else tuple(h)
    x = hu.time_series_deriv(Nt, hh, U, 0)
    D.eq('identity', hu.get_fourier_coeff(hh, x), U, tol=1e-9)

@contract('C03', num=100, budget=40, maxcfg=60, jax=True)
def jax_agrees(D):
    """the automatic-differentiation versions satisfy the same contracts"""
    ju = D.mod('jax.harmonic_utils')
    h = D.pick('h', HL_ALL, sym=HL_SYM)
    Nt = D.pick('Nt', [n for n in (4, 6, 8, 10, 12, 14, 16, 20, 32, 64) if n > 2 * max(h) + 1], sym=nts(h))
    nd = D.pick('nd', [1, 2, 3], sym=[1, 2])
    order = D.pick('order', [0, 1, 2, 3], sym=[0, 1, 2])
    U = D.real('U', (nhc(h), nd)); U0 = D.copyarr(U)
    x = ju.time_series_deriv(Nt, tuple(h), U, order)
    D.eq('synthesis', x, synth(D, h, U0, Nt, order), tol=1e-9)
    if not D.sym: Nt = Nt + D.pick('one more sample', [0, 1])
    y = D.real('x', (Nt, nd))
    D.eq('analysis', ju.get_fourier_coeff(tuple(h), y), coeffs(D, h, y), tol=1e-9)
from . import g03
