"""C03 for any number of samples, columns and harmonics; the discrete Fourier transform through its definition"""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, gsum

class Spectrum:
    """result of fft(x, axis=0): row f is sum_t x(t) (cos(2 pi f t/Nt) - j sin(2 pi f t/Nt))"""
    def __init__(self, re, im): self.re, self.im = re, im
    def __getitem__(self, i): return Spectrum(self.re[i], self.im[i])
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def shape(self): return self.re.shape

@gen('C03', budget=40, replay=('analysis', 'jax_agrees', 'roundtrip'))
def analysis_any_size(G):
    hu = G.mod('utils.harmonic'); zero = G.pick('zero', [True, False]); z = 1 if zero else 0
    Nt, nd, nh = G.size('Nt', 2), G.size('nd', 1), G.size('nh', 1); h = G.harmonics(zero, nh); x = G.array('x', Nt, nd)
    th = lambda f, t: 2 * T.PI * f * t / Nt
    class FFT:
        @staticmethod
        def fft(a, n=None, axis=-1, norm=None):
            a = g.as_g(a); f = a.frozen()
            if n is not None or norm is not None or axis not in (0, -2) or a.ndim != 2 or not g.same_dim(a.shape[0], Nt): raise T.Unsupported('another transform')
            part = lambda fn, s: g.new((Nt, a.shape[1]), lambda i: s * gsum(0, Nt, lambda t: val(f((t, i[1]))) * fn(th(i[0], t))))
            return Spectrum(part(T.cos_, 1), part(T.sin_, -1))
    g.LIN['fft'] = FFT; g.LIN['real'] = lambda a: a.re if isinstance(a, Spectrum) else a; g.LIN['imag'] = lambda a: a.im if isinstance(a, Spectrum) else 0 * a
    v = g.as_g(hu.get_fourier_coeff(h, x)); c, k = G.index('c', nd), G.index('k', nh); hk = T.app('hh', k, sort='I')
    G.true('one row for each coefficient', g.same_dim(v.shape[0], 2 * nh + z) and g.same_dim(v.shape[1], nd))
    what = G.pick('entry', ['cosine', 'sine'] + (['zeroth'] if zero else []))
    mean = lambda fn: gsum(0, Nt, lambda t: T.app('x', t, c) * fn(t)) / Nt
    if what == 'zeroth': G.eq('mean value', v.get((T.ZERO, c)), mean(lambda t: T.UNIT))
    elif what == 'cosine': G.eq('cosine coefficient', v.get((2 * k + z, c)), 2 * mean(lambda t: T.cos_(th(hk, t))))
    else: G.eq('sine coefficient', v.get((2 * k + 1 + z, c)), 2 * mean(lambda t: T.sin_(th(hk, t))))
    q = G.index('q', Nt); G.eq('series not modified', x.get((q, c)), T.app('x', q, c))
