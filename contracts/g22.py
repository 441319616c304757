"""Systems with any number of nonlinear elements and any number of unknowns: sums over the element list and the calls each
element receives.  The element list is symbolic; an arbitrary element stands for all of them."""
from pyded.contracts_api import gen
from pyded import gen as g, terms as T
from pyded.gen import val, lift, gsum

class Elements:
    def __init__(self, G, kinds=('stateless', 'stateful')):
        G.peel(False); self.G = G; vs = G.mod('vibration_system'); nf = G.mod('nlforces.nonlinear_force'); zero = G.pick('zero', [True, False]); z = 1 if zero else 0
        self.nd = nd = G.size('nd', 1, block=True); nh = G.size('nh', 1); self.h = h = G.harmonics(zero, nh); self.N = N = nd * (2 * nh + z); self.ne = ne = G.size('elements', 0)
        self.M, self.K, self.C = (G.array(x, nd, nd) for x in 'MKC'); self.calls = calls = []; me = self; self.kind = kind = G.pick('kind', list(kinds)) if kinds else 'stateless'
        self.Nt, self.tol = G.size('Nt', 4), G.scalar('tol')
        class E(nf.NonlinearForce):
            def __init__(self, k): self.k = k
            def nl_force_type(self): return 1 if kind == 'stateful' else 0
            def aft(self, U, w, h_, Nt=128, tol=1e-7, calc_grad=True):
                calls.append(('aft', self.k, U, w, h_, Nt, tol, calc_grad)); k = self.k
                if h_ is not h: raise T.Unsupported('other harmonics')
                f = g.new((N,), lambda i: T.app('F', k, i[0]))
                return (f, g.new((N, N), lambda i: T.app('P', k, *i)), g.new((N,), lambda i: T.app('W', k, i[0]))) if calc_grad else (f,)
            def force(self, U, update_hist=False):
                calls.append(('force', self.k, U, update_hist)); k = self.k
                return g.new((nd,), lambda i: T.app('f', k, i[0])), g.new((nd, nd), lambda i: T.app('p', k, *i))
        if kind == 'stateful':
            for nm in ('init_history', 'set_prestress_mu', 'reset_real_mu'): setattr(E, nm, (lambda nm: lambda self: calls.append((nm, self.k)))(nm))
            E.set_aft_initialize = lambda self, U: calls.append(('set_aft_initialize', self.k, U))
        self.sys = vs.VibrationSystem(self.M, self.K, C=self.C); self.sys.nonlinear_forces = g.GList(ne, E)
    def settings(self, x, U, w, grad):
        G = self.G; i = G.index('q', self.N)
        G.eq('displacements given to the elements', g.as_g(x[2]).get((i,)), U.get((i,))); G.true('size of the displacements', g.same_dim(g.as_g(x[2]).shape[0], self.N))
        G.eq('frequency given to the elements', val(x[3]), val(w)); G.eq('time points given to the elements', val(x[5]), val(self.Nt)); G.eq('tolerance given to the elements', val(x[6]), val(self.tol)); G.true('derivatives requested from the elements', bool(x[7]) == grad)

def total(G):
    e = Elements(G, ()); U, w = G.array('U', e.N), G.scalar('w'); grad = G.pick('gradient', [True, False]); i, j = G.index('i', e.N), G.index('j', e.N)
    r = e.sys.total_aft(U, w, e.h, Nt=e.Nt, aft_tol=e.tol, calc_grad=grad)
    some = g.yes(e.ne > 0)
    G.true('every element is evaluated exactly once', len(e.calls) == (1 if some else 0) and all(x[0] == 'aft' for x in e.calls))
    for x in e.calls: e.settings(x, U, w, grad)
    G.true('size of the force', g.same_dim(g.as_g(r[0]).shape[0], e.N)); return e, r, i, j, grad

@gen('C01', budget=60, replay=('hbm',), name='forces_any_elements')
def total1(G):
    """total_aft is the sum of the forces of any number of elements"""
    e, r, i, j, grad = total(G)
    G.eq('total force', r[0].get((i,)), gsum(0, e.ne, lambda k: T.app('F', k, i)))

@gen('C02', budget=60, replay=('hbm',), name='forces_any_elements')
def total2(G):
    """the derivatives of the total force are the sums of the derivatives of any number of elements"""
    e, r, i, j, grad = total(G); G.true('results', len(r) == (3 if grad else 1))
    if grad:
        G.true('size of the derivatives', all(g.same_dim(x, e.N) for x in g.as_g(r[1]).shape + g.as_g(r[2]).shape))
        G.eq('derivative in the displacements', r[1].get((i, j)), gsum(0, e.ne, lambda k: T.app('P', k, i, j))); G.eq('derivative in frequency', r[2].get((i,)), gsum(0, e.ne, lambda k: T.app('W', k, i)))

def static(G):
    e = Elements(G, ()); X, Fs = G.array('X', e.nd), G.array('Fs', e.nd); R, J = e.sys.static_res(X, Fs); i, j = G.index('i', e.nd), G.index('j', e.nd)
    G.true('every element is evaluated exactly once', len(e.calls) == (1 if g.yes(e.ne > 0) else 0))
    for x in e.calls:
        G.true('a residual evaluation does not update histories', x[0] == 'force' and not x[3]); G.eq('displacements given to the elements', g.as_g(x[2]).get((i,)), X.get((i,)))
    return e, X, Fs, R, J, i, j

@gen('C01', budget=60, replay=('static',), name='static_any_elements')
def static1(G):
    e, X, Fs, R, J, i, j = static(G)
    G.eq('static residual', R.get((i,)), gsum(0, e.nd, lambda a: T.app('K', i, a) * T.app('X', a)) + gsum(0, e.ne, lambda k: T.app('f', k, i)) - T.app('Fs', i))

@gen('C02', budget=60, replay=('static',), name='static_any_elements')
def static2(G):
    e, X, Fs, R, J, i, j = static(G)
    G.eq('derivative of the static residual', J.get((i, j)), T.app('K', i, j) + gsum(0, e.ne, lambda k: T.app('p', k, i, j)))

@gen('C22', budget=60, replay=())
def broadcasts_any_elements(G):
    """start, update, prestress and AFT-start requests reach every element that supports them exactly once, and no other call is made"""
    e = Elements(G); X = G.array('X', e.nd); i = G.index('i', e.nd); call = G.pick('request', ['init_force_history', 'update_force_history', 'set_prestress_mu', 'reset_real_mu', 'set_aft_initialize'])
    need = {'init_force_history': 'init_history', 'update_force_history': 'force'}.get(call, call); keep = [g.as_g(a) for a in (e.M, e.K, e.C)]
    args = (X,) if call in ('update_force_history', 'set_aft_initialize') else ()
    getattr(e.sys, call)(*args)
    want = 1 if e.kind == 'stateful' and g.yes(e.ne > 0) else 0
    G.true('one request per element that keeps a state', len(e.calls) == want and all(x[0] == need for x in e.calls))
    for x in e.calls:
        if args: G.eq('displacements passed on', g.as_g(x[2]).get((i,)), X.get((i,)))
        if need == 'force': G.true('the update is requested', x[3] is True)
