import os, re, shutil, tempfile, importlib.util, contextlib
from pyded.contracts_api import contract
from pyded import load, symnp
from .spec import *

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c25_', dir=os.environ.get('VERIF_SCRATCH'))
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)

def again(D):
    """the module as a new process sees it"""
    if D.sym: return load.Copy().load(load.PKG + '.utils.continuation')
    m = D.mod('utils.continuation')
    sp = importlib.util.spec_from_file_location(m.__name__, m.__file__); k = importlib.util.module_from_spec(sp); k.__package__ = m.__package__; sp.loader.exec_module(k)
    return k

class Files:
    """contract of numpy.savez / numpy.load: a named group of arrays is stored and read back exactly"""
    def __init__(self, D): 
        self.d = {}
        if D.sym: D.patch(D.np, 'savez', self.savez); D.patch(D.np, 'savez_compressed', self.savez); D.patch(D.np, 'load', self.load)
    def savez(self, f, *a, **k):
        if a or not isinstance(f, str): raise T.Unsupported('savez protocol')
        if not f.endswith('.npz'): f += '.npz'
        self.d[f] = {q: symnp.mk(v).copy() for q, v in k.items()}; open(f, 'w').close()
    def load(self, f, *a, **k):
        if not isinstance(f, str): raise T.Unsupported('load protocol')
        if f not in self.d: raise FileNotFoundError(f)
        class Z(dict):
            files = property(lambda s: list(s))
            def __enter__(s): return s
            def __exit__(s, *a): return False
            def close(s): pass
        return Z({q: v.copy() for q, v in self.d[f].items()})
    def read(self, D, f):
        if D.sym: return self.d[f]
        with np.load(f, allow_pickle=False) as z: return {k: z[k].copy() for k in z.files}

@contract('C25', num=60, budget=60, maxcfg=40)
def history(D):
    """from any existing file content, one more save appends exactly that point and direction; saves to other files do not interfere"""
    n = D.pick('n', [1, 2, 5], sym=[1, 2]); old = D.pick('existing', [0, 1, 2, 7], sym=[0, 1, 2]); steps = D.pick('saves', [1, 2, 4], sym=[1, 2]); same = D.pick('process', ['same', 'restarted']); two = D.pick('other file', [0, 1])
    with scratch() as tmp:
        fs = Files(D); fn = os.path.join(tmp, 'run.npz'); fo = os.path.join(tmp, 'other.npz'); m = D.mod('utils.continuation')
        Xs, ds = [], []
        if old:
            X, d = D.real('X', (old, n)), D.real('d', (old, n)); D.np.savez(fn, XlamP=X, dirP_prev=d); Xs, ds = [X[i] for i in range(old)], [d[i] for i in range(old)]
        others = []
        for k in range(steps):
            x, g = D.real('x%d' % k, (n,)), D.real('g%d' % k, (n,)); x0, g0 = D.copyarr(x), D.copyarr(g)
            if k and D.pick('shared buffer', [0, 1], sym=[1]) and k: 
                # the caller reuses its arrays: earlier rows must not change
                lastx[...] = x; lastg[...] = g; x, g = lastx, lastg
            lastx, lastg = x, g
            if same == 'restarted': m = again(D)
            m.continuation_save(x, g, fn); Xs.append(x0); ds.append(g0)
            D.same('point not modified', x, x0); D.same('direction not modified', g, g0)
            if two:
                y = D.real('y%d' % k, (n,)); m.continuation_save(y, g, fo); others.append((D.copyarr(y), g0))
            z = fs.read(D, fn)
            D.true('saved names', set(z) == {'XlamP', 'dirP_prev'})
            D.same('points of the file', z['XlamP'], D.np.vstack(Xs)); D.same('directions of the file', z['dirP_prev'], D.np.vstack(ds))
        if two:
            z = fs.read(D, fo); D.same('points of the other file', z['XlamP'], D.np.vstack([a for a, b in others])); D.same('directions of the other file', z['dirP_prev'], D.np.vstack([b for a, b in others]))

TOK = re.compile(r'^<#(\d+)>$')
def parse(D, line):
    """numbers of a data line, or None for a header line"""
    out = []
    for c in line.strip().split('&'):
        c = c.strip()
        if D.sym:
            m = TOK.match(c)
            if m: out.append(T.printed[int(m.group(1))]); continue
        try: out.append(float(c))
        except ValueError: return None
    return out

def response(D, X, n, h, k, recov, w, order):
    c, s = [(b, cc) for a, b, cc in rows(h) if a == k][0]
    a, b = recov @ X[c * n:(c + 1) * n], recov @ X[s * n:(s + 1) * n]
    r = D.np.sqrt(a * a + b * b)
    for _ in range(order): r = r * (k * w)
    return r

KINDS = ['epmc', 'hbm_amp', 'hbm_amp_phase', 'vprnm', 'vprnm_amp_phase']

@contract('C25', num=150, budget=90, maxcfg=300)
def statistics(D):
    """each printed line reports the quantities of the given point; one header per file; earlier content is kept"""
    kind = D.pick('kind', KINDS); n = D.pick('n', [1, 2, 3], sym=[1, 2]); calls = D.pick('calls', [1, 2, 4], sym=[2]); start = D.pick('file', ['new', 'resumed']); order = D.pick('order', [0, 1, 2]) if kind != 'epmc' else 0
    h = D.pick('h', [[1], [0, 1], [1, 3], [0, 1, 2, 3], [1, 2, 3], [0, 2, 5]], sym=[[1], [0, 1, 3], [1, 2, 3]]); per = [k for k in h if k]; N = nhc(h); extra = {'epmc': 3, 'hbm_amp': 2, 'hbm_amp_phase': 3, 'vprnm': 2, 'vprnm_amp_phase': 4}[kind]; ha = np.array(h); hk = ha.copy()
    nout = D.pick('outputs', [1, 2, 3], sym=[2]) if kind.startswith('vprnm') else 1
    rec = [D.real('recov%d' % i, (n,)) for i in range(nout)]; harm = [D.pick('harmonic%d' % i, per, sym=[per[(i + 1) % len(per)]] if i else [per[0], per[-1]] if len(per) > 1 else per) for i in range(nout)]; outs = list(zip(rec, harm))
    co = D.pick('control order', [0, 2], sym=[0]); rk = [D.copyarr(r) for r in rec]
    m = D.mod('utils.continuation')
    if D.sym: T.printed.clear()
    with scratch() as tmp:
        fn = os.path.join(tmp, 'stats.dat'); exp = []; prev = ''; first = 0
        if start == 'resumed':
            prev = 'HEAD & HEAD \n 1.000 & 2.000 \n'; open(fn, 'w').write(prev); first = 2
        for c in range(calls):
            X = D.real('X%d' % c, (N * n + extra,)); d = D.real('d%d' % c, (N * n + extra,))
            fr = {'epmc': -3, 'hbm_amp': -1, 'vprnm': -2, 'vprnm_amp_phase': -2}.get(kind)
            if fr is not None:
                v = D.real('w%d' % c, pos=True); X[fr] = v
            X0, d0 = D.copyarr(X), D.copyarr(d); P2 = 2 * D.np.pi
            if kind == 'epmc': m.print_epmc_stats(X, d, fn); e = [X0[-1], X0[-3] / P2, X0[-2] / 2 / X0[-3]]
            elif kind == 'hbm_amp':
                m.print_hbm_amp_stats(X, d, fn, ha, order, rec[0], harm[0]); e = [X0[-1] / P2, X0[-2], response(D, X0, n, h, harm[0], rk[0], X0[-1], order)]
            elif kind == 'hbm_amp_phase':
                w, a = D.real('freq%d' % c, pos=True), D.real('amp%d' % c)
                if D.pick('control', ['frequency', 'amplitude']) == 'frequency': X[-1] = w; X0[-1] = w
                else: X[-1] = a; X0[-1] = a
                m.print_hbm_amp_phase_stats(X, d, fn, w, a, ha, order, rec[0], harm[0]); e = [w / P2, a, X0[-3], X0[-2], response(D, X0, n, h, harm[0], rk[0], w, order)]
            elif kind == 'vprnm':
                m.print_vprnm_stats(X, d, fn, ha, order, outs); e = [X0[-1], X0[-2] / P2] + [response(D, X0, n, h, k, r, X0[-2], order) for r, k in zip(rk, harm)]
            else:
                m.print_vprnm_amp_phase_stats(X, d, fn, ha, co, order, outs); e = [X0[-1], X0[-4], X0[-3], X0[-2] / P2] + [response(D, X0, n, h, k, r, X0[-2], order) for r, k in zip(rk, harm)]
            exp.append(e); D.same('point not modified', X, X0); D.same('direction not modified', d, d0)
            txt = open(fn).read(); D.true('earlier lines are kept', txt.startswith(prev)); prev = txt
            lines = [l for l in txt.split('\n') if l.strip()]; D.true('whole lines', txt.endswith('\n')); lines = lines[first:]
            vals = [parse(D, l) for l in lines]; nh = len([v for v in vals if v is None])
            D.true('one header per file', nh == (0 if first else 1 if not kind.startswith('vprnm') else nh) and (first or nh > 0) and all(v is None for v in vals[:nh]))
            if c == 0: nh0 = nh
            D.true('header written once', nh == nh0); vals = vals[nh:]
            D.true('one line per call', len(vals) == c + 1)
            if len(vals) == c + 1:
                v = vals[-1]; D.true('columns', len(v) == len(e))
                if len(v) == len(e):
                    for i, (a, b) in enumerate(zip(v, e)):
                        if D.sym: D.eq('column %d' % i, a, b)
                        else: D.true('column %d' % i, abs(a - b) <= 5.1e-4 + 6e-4 * abs(b))
        for r, q in zip(rec, rk): D.same('recovery vector not modified', r, q)
        D.true('harmonic list not modified', np.array_equal(ha, hk))

@contract('C25', num=30, budget=10, scope='bounded')
def combined(D):
    """every callback once, in order, with the same arguments"""
    m = D.mod('utils.continuation'); k = D.pick('callbacks', [0, 1, 2, 3, 6], sym=[0, 1, 2, 3]); X, d = D.real('X', (4,)), D.real('d', (4,)); log = []
    rets = [D.pick('returns%d' % i, [None, True, False, 0], sym=[[None, True, False][i % 3]]) for i in range(k)]
    def mk_(i):
        def f(a, b): log.append((i, D.copyarr(a), D.copyarr(b))); return rets[i]
        return f
    fs = [mk_(i) for i in range(k)]; keep = list(fs); X0, d0 = D.copyarr(X), D.copyarr(d)
    m.combine_callback_funs(fs, X, d)
    D.true('each once in order', [l[0] for l in log] == list(range(k))); D.true('list not modified', fs == keep)
    for i, a, b in log: D.same('point', a, X0); D.same('direction', b, d0)
from . import g25
