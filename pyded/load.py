"""Loads a second copy of the package under test whose numpy / jax / scipy names resolve to exact symbolic
stand-ins.  The source text is read from /repo on every run and executed unmodified; only the names that the
modules import are resolved differently."""
import builtins, importlib, os, sys, types, functools
import numpy as np
from . import terms as T, symnp
from .symnp import NP, SArr, mk, wrap, as_obj, issym, el, num
from .terms import Term, Cond, Unsupported, lift

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'symtmd'

# ------------------------------------------------------------------------------------------ fake jax
def tree_map(f, x):
    if isinstance(x, tuple): return tuple(tree_map(f, y) for y in x)
    if isinstance(x, list): return [tree_map(f, y) for y in x]
    return f(x)

def jac_of(out, xs):
    """exact Jacobian of an array of terms with respect to the variables xs (array of variable terms)"""
    from . import dom
    xa = mk(xs)
    ids = [list(t.m)[0][0][0] for t in (xa.ravel() if isinstance(xa, np.ndarray) else [xa])]
    xshape = xa.shape if isinstance(xa, np.ndarray) else ()
    def one(o):
        o = mk(o) if not issym(o) else o
        osh = o.shape if isinstance(o, np.ndarray) else ()
        vals = list(o.ravel()) if isinstance(o, np.ndarray) else [o]
        r = np.empty((len(vals), len(ids)), object)
        for i, v in enumerate(vals):
            v = num(v)
            if isinstance(v, symnp.CTerm): raise Unsupported('derivative of complex value')
            for j, k in enumerate(ids): r[i, j] = T.deriv(v, dom.leaf_derivative(k))
        r = r.reshape(osh + xshape)
        return r.view(SArr) if r.ndim else r[()]
    return tree_map(one, out)

def jacfwd(f, argnums=0, has_aux=False, **kw):
    @functools.wraps(f)
    def g(*args, **k):
        single = not isinstance(argnums, (tuple, list))
        nums = (argnums,) if single else tuple(argnums)
        args = list(args); mp = {}; vs = []
        for n in nums:
            a = mk(args[n]) if not issym(args[n]) else args[n]
            if isinstance(a, np.ndarray):
                v = np.empty(a.shape, object)
                for ix in np.ndindex(*a.shape):
                    v[ix] = T.fresh('jv'); mp[list(v[ix].m)[0][0][0]] = num(a[ix])
                v = v.view(SArr)
            else:
                v = T.fresh('jv'); mp[list(v.m)[0][0][0]] = num(a)
            args[n] = v; vs.append(v)
        from . import paths
        pmap.append(mp)
        try: out = f(*args, **k)
        finally: pmap.pop()
        aux = None
        if has_aux: out, aux = out
        def back(o):
            if isinstance(o, np.ndarray) and o.dtype == object: return symnp.fmap(lambda t: T.subst(num(t), mp) if not isinstance(t, symnp.CTerm) else symnp.CTerm(T.subst(t.re, mp), T.subst(t.im, mp)), o)
            if isinstance(o, Term): return T.subst(o, mp)
            if isinstance(o, Cond): return T.subst_cond(o, mp)
            return o
        js = [tree_map(back, jac_of(out, v)) for v in vs]
        r = js[0] if single else tuple(js)
        return (r, tree_map(back, aux)) if has_aux else r
    return g
pmap = []      # substitutions of the enclosing derivative traces (conditions are decided on the substituted values)

def _fori(lo, hi, body, x):
    for i in range(int(lo), int(hi)): x = body(i, x)
    return x
def _while(c, b, x):
    while bool(mk(c(x))): x = b(x)
    return x
def _scan(f, init, xs=None, length=None, **k):
    ys = []
    n = length if xs is None else mk(xs).shape[0]
    for i in range(n):
        init, y = f(init, None if xs is None else xs[i]); ys.append(y)
    return init, (NP.stack(ys) if ys and ys[0] is not None else None)
def _topk(a, k):
    a = mk(a)
    if a.ndim > 1:
        r = [_topk(a[i], k) for i in range(a.shape[0])]
        return NP.stack([x for x, _ in r]), np.stack([ix for _, ix in r])
    if a.dtype != object: 
        ix = np.argsort(-a, kind='stable')[:k]; return a[ix], ix
    if any(isinstance(el(x), Cond) for x in a): return _topk(np.array([int(bool(el(x))) for x in a]), k)
    import functools as ft
    order = sorted(range(a.shape[0]), key=ft.cmp_to_key(lambda p, q: -1 if bool(num(a[p]) > num(a[q])) else (1 if bool(num(a[q]) > num(a[p])) else p - q)))[:k]
    ix = np.array(order)
    return a[ix], ix

class JaxLax:
    fori_loop = staticmethod(_fori); while_loop = staticmethod(_while); scan = staticmethod(_scan); top_k = staticmethod(_topk)
    @staticmethod
    def cond(p, t, f, *ops):
        p = mk(p)
        return t(*ops) if bool(p) else f(*ops)
    @staticmethod
    def stop_gradient(x): return x

class NSLinalg:
    @staticmethod
    def lu_factor(a, **k): return ('lu', mk(a).copy())
    @staticmethod
    def lu_solve(f, b, **k): return symnp.solve_exact(f[1], b)

def jit(f=None, **k):
    if f is None: return lambda g: g
    return f

jaxmod = types.ModuleType('jax')
jaxmod.numpy = NP; jaxmod.lax = JaxLax; jaxmod.jit = jit; jaxmod.jacfwd = jacfwd; jaxmod.jacrev = jacfwd; jaxmod.jacobian = jacfwd
def _grad(f, argnums=0, has_aux=False):
    return jacfwd(f, argnums, has_aux)
jaxmod.grad = _grad
def _vmap(f, in_axes=0, out_axes=0):
    if in_axes != 0 or out_axes != 0: raise Unsupported('vmap axes')
    def g(*a):
        n = mk(a[0]).shape[0]
        outs = [f(*[x[i] for x in a]) for i in range(n)]
        if isinstance(outs[0], tuple): return tuple(NP.stack([mk(o[k]) if isinstance(o[k], np.ndarray) else as_obj(o[k]) for o in outs]) for k in range(len(outs[0])))
        return NP.stack([mk(o) if isinstance(o, np.ndarray) else as_obj(o) for o in outs])
    return g
jaxmod.vmap = _vmap
jaxmod.config = types.SimpleNamespace(update=lambda *a, **k: None)
jaxmod.Array = np.ndarray
jaxmod.scipy = types.SimpleNamespace(linalg=NSLinalg)

class Stub:
    """namespace of an external dependency: attributes exist only when a harness supplies their contract"""
    def __init__(self, name): self.__dict__['_n'] = name; self.__dict__['contracts'] = {}
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Lazy(self, k)

class Lazy:
    def __init__(self, ns, k): self.ns = ns; self.k = k
    def __call__(self, *a, **kw):
        f = self.ns.contracts.get(self.k)
        if f is None: raise Unsupported('external function %s.%s has no contract here' % (self.ns._n, self.k))
        return f(*a, **kw)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('external function %s.%s.%s has no contract here' % (self.ns._n, self.k, k))

class Hermite:
    """contract of scipy.interpolate.CubicHermiteSpline: on each interval the cubic with the given end values and slopes"""
    def __init__(self, x, y, dydx, axis=0, extrapolate=None):
        if axis != 0: raise Unsupported('spline axis')
        self.x, self.y, self.d, self.ex = mk(x).copy(), mk(y).copy(), mk(dydx).copy(), extrapolate
        if not (self.y.shape == self.d.shape and self.y.shape[0] == self.x.shape[0] >= 2): raise ValueError('shapes of x, y and dydx')
    def one(self, v):
        x, y, d = self.x, self.y, self.d; n = x.shape[0]; v = num(v)
        out = bool(T.cmp_(v, '<', num(x[0]))) or bool(T.cmp_(v, '>', num(x[n - 1])))
        if out:
            if self.ex is False: return symnp.sym_full(self.y.shape[1:], NP.nan)
            raise Unsupported('extrapolation')
        k = 0
        while k < n - 2 and not bool(T.cmp_(v, '<', num(x[k + 1]))): k += 1
        h = num(x[k + 1]) - num(x[k]); t = (v - num(x[k])) / h
        return y[k] * (2 * t * t * t - 3 * t * t + 1) + d[k] * (h * (t * t * t - 2 * t * t + t)) + y[k + 1] * (3 * t * t - 2 * t * t * t) + d[k + 1] * (h * (t * t * t - t * t))
    def __call__(self, v, *a, **k):
        if a or k: raise Unsupported('spline derivative')
        v = mk(v)
        return self.one(v) if not isinstance(v, np.ndarray) else NP.stack([self.one(symnp.el(q)) for q in v])

def make_scipy():
    s = Stub('scipy')
    for k in ('linalg', 'optimize', 'interpolate', 'integrate'): s.__dict__[k] = Stub('scipy.' + k)
    s.linalg.contracts['lu_factor'] = NSLinalg.lu_factor
    s.linalg.contracts['lu_solve'] = NSLinalg.lu_solve
    s.linalg.contracts['solve'] = lambda A, b, **k: symnp.solve_exact(A, b)
    s.interpolate.contracts['CubicHermiteSpline'] = Hermite
    s.linalg.contracts['inv'] = lambda A, **k: NP.linalg.inv(A)
    return s

# --------------------------------------------------------------------------------- builtins of the copy
def _float(x=0.0):
    if issym(x): return x
    if isinstance(x, np.ndarray) and x.dtype == object: return x.item()
    return float(x)
def _int(x=0, *a):
    if isinstance(x, Term):
        if x.is_const():
            import math
            return math.trunc(x.const())
        if x.is_int(): return x
        raise Unsupported('int() of a symbolic real')
    if isinstance(x, np.ndarray) and x.dtype == object: return _int(x.item())
    return int(x, *a)
_int_t, _float_t = int, float
def _isinstance(x, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    cl = tuple({_float: float, _int: int, _bool: bool}.get(c, c) if not isinstance(c, type) else c for c in cl)
    if isinstance(x, Term): return any(c in (float, Term, object) or (isinstance(c, type) and issubclass(c, np.floating)) for c in cl) or (any(c is int for c in cl) and x.is_const() and x.is_int())
    return isinstance(x, cl)
def _bool(x=False): return bool(x)

class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (float, Term))
    def __call__(cls, *a): return _float(*a)
class FloatShim(metaclass=_FloatMeta): pass
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int)
    def __call__(cls, *a): return _int(*a)
class IntShim(metaclass=_IntMeta): pass

def make_builtins(imp):
    b = dict(builtins.__dict__)
    b['__import__'] = imp
    b['float'] = FloatShim; b['int'] = IntShim
    b['print'] = lambda *a, **k: None
    return b

class Copy:
    """one loaded symbolic copy of the package"""
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.scipy = make_scipy()
        self.builtins = make_builtins(self._import)
        self.files = {}
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root in ('numpy',):
                return NP if not fromlist and '.' not in name or fromlist and name == 'numpy' else self._sub(NP, name, fromlist)
            if root == 'jax':
                obj = jaxmod
                if fromlist:
                    for p in name.split('.')[1:]: obj = getattr(obj, p)
                return obj
            if root == 'scipy':
                obj = self.scipy
                if fromlist:
                    for p in name.split('.')[1:]: obj = getattr(obj, p)
                return obj
            if root == 'tmdsimpy':
                m = self.load(PKG + name[len('tmdsimpy'):])
                return m if fromlist else self.load(PKG)
            return builtins.__import__(name, globals, locals, fromlist, level)
        pkg = globals['__package__']
        base = pkg.split('.')
        if level > 1: base = base[:-(level - 1)]
        full = '.'.join(base + ([name] if name else []))
        m = self.load(full)
        for f in (fromlist or ()):
            if f != '*' and not hasattr(m, f):
                try: setattr(m, f, self.load(full + '.' + f))
                except ModuleNotFoundError: pass
        return m
    def _sub(self, obj, name, fromlist):
        if not fromlist: return obj
        for p in name.split('.')[1:]: obj = getattr(obj, p)
        return obj
    def compile(self, src, f): return compile(src, f, 'exec')
    def load(self, full):
        if full in self.mods: return self.mods[full]
        parts = full.split('.')
        if len(parts) > 1: self.load('.'.join(parts[:-1]))
        if full in self.mods: return self.mods[full]
        p = os.path.join(self.repo, 'tmdsimpy', *parts[1:])
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')): f = os.path.join(p, '__init__.py'); ispkg = True
        elif os.path.isfile(p + '.py'): f = p + '.py'; ispkg = False
        else: raise ModuleNotFoundError(full)
        m = types.ModuleType(full)
        m.__file__ = f; m.__package__ = full if ispkg else '.'.join(parts[:-1])
        if ispkg: m.__path__ = [p]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        with open(f) as fh: src = fh.read()
        self.files[full] = f
        code = self.compile(src, f)
        exec(code, m.__dict__)
        if len(parts) > 1: setattr(self.mods['.'.join(parts[:-1])], parts[-1], m)
        return m

_copy = [None]
def copy():
    if _copy[0] is None:
        c = Copy(); c.load(PKG); _copy[0] = c
    return _copy[0]
def fresh_copy():
    c = Copy(); c.load(PKG); return c
