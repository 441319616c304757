"""A numpy look-alike over arrays of symbolic terms (concrete shapes).

Arrays are numpy object arrays (class SArr) whose elements are Terms, Conds or Python numbers; numpy itself does
slicing, broadcasting, reshaping and matrix products, so indexing semantics are numpy's own.  Only element
arithmetic, comparisons, selections and the few functions below are replaced by their exact real-number meaning.
"""
import numpy as np, math, operator
from fractions import Fraction as Fr
from . import terms as T
from .terms import Term, Cond, lift, Unsupported

def issym(x): return isinstance(x, (Term, Cond, CTerm))

class CTerm:
    """complex number with symbolic parts"""
    __array_priority__ = 1002
    def __init__(self, re, im): self.re = lift(re); self.im = lift(im)
    @staticmethod
    def of(x):
        if isinstance(x, CTerm): return x
        if isinstance(x, (complex, np.complexfloating)): return CTerm(float(x.real), float(x.imag))
        t = lift(x)
        return NotImplemented if t is NotImplemented else CTerm(t, T.ZERO)
    def __add__(s, o): o = CTerm.of(o); return o if o is NotImplemented else CTerm(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __neg__(s): return CTerm(-s.re, -s.im)
    def __sub__(s, o): o = CTerm.of(o); return o if o is NotImplemented else CTerm(s.re - o.re, s.im - o.im)
    def __rsub__(s, o): return (-s) + o
    def __mul__(s, o):
        o = CTerm.of(o)
        if o is NotImplemented: return o
        return CTerm(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def inv(s):
        d = s.re * s.re + s.im * s.im
        return CTerm(s.re / d, -s.im / d)
    def __truediv__(s, o): o = CTerm.of(o); return s * o.inv()
    def __rtruediv__(s, o): return CTerm.of(o) * s.inv()
    def __pow__(s, n):
        n = int(n); r = CTerm(1, 0)
        for _ in range(abs(n)): r = r * s
        return r if n >= 0 else r.inv()
    def conjugate(s): return CTerm(s.re, -s.im)
    conj = conjugate
    @property
    def real(s): return s.re
    @property
    def imag(s): return s.im
    def __abs__(s): return T.sqrt_(s.re * s.re + s.im * s.im)
    def __repr__(s): return 'C(%r,%r)' % (s.re, s.im)

def _c(f):
    def g(a, b):
        r = f(a, b)
        return r
    return g

def el(x):
    """element to Term/Cond/CTerm"""
    if issym(x): return x
    if isinstance(x, (complex, np.complexfloating)): return CTerm.of(x)
    if isinstance(x, (bool, np.bool_)): return bool(x)
    t = lift(x)
    if t is NotImplemented: raise Unsupported('element %r' % (x,))
    return t

def num(x):
    x = el(x)
    if isinstance(x, bool): return lift(int(x))
    if isinstance(x, Cond): return T.ind(x)
    return x

def _cmpf(op):
    def f(a, b):
        a, b = num(a), num(b)
        if isinstance(a, CTerm) or isinstance(b, CTerm): raise Unsupported('complex comparison')
        return T.cmp_(a, op, b)
    return f

def _bool(f):
    def g(*xs): return f(*[T.as_cond(x) for x in map(el, xs)])
    return g

def atan2_(y, x):
    if y.is_const() and x.is_const() and not y.m and x.const() >= 0: return T.ZERO
    return T.app('atan2', y, x)

def _isspecial(x, kinds):
    x = el(x)
    if isinstance(x, Term) and T.specials and (len(x.m) == 1 or 'nan' in kinds):
        for mono in x.m:
            for (i, e) in mono:
                if len(x.m) > 1 and T._atoms[i].name != 'nan': continue
                if T._atoms[i].kind == 'special' and T._atoms[i].name in kinds: return True
    return False

def un(f):
    def g(x):
        x = num(x)
        return f(x)
    return g

UF = {
    'less': _cmpf('<'), 'less_equal': _cmpf('<='), 'greater': _cmpf('>'), 'greater_equal': _cmpf('>='),
    'equal': _cmpf('=='), 'not_equal': _cmpf('!='),
    'maximum': lambda a, b: T.maximum_(num(a), num(b)), 'minimum': lambda a, b: T.minimum_(num(a), num(b)),
    'fmax': lambda a, b: T.maximum_(num(a), num(b)), 'fmin': lambda a, b: T.minimum_(num(a), num(b)),
    'sign': un(T.sign_), 'absolute': un(abs), 'fabs': un(abs), 'sqrt': un(T.sqrt_), 'cos': un(T.cos_), 'sin': un(T.sin_),
    'exp': un(T.exp_), 'log': un(lambda x: T.app('log', x)), 'log10': un(lambda x: T.app('log10', x)),
    'arctan': un(lambda x: T.app('atan', x)), 'arctan2': lambda a, b: atan2_(num(a), num(b)),
    'power': lambda a, b: num(a) ** (b if isinstance(b, int) else num(b)), 'float_power': lambda a, b: num(a) ** num(b),
    'floor': un(T.floor_), 'square': un(lambda x: x * x), 'reciprocal': un(lambda x: 1 / x),
    'logical_and': _bool(T.and_), 'logical_or': _bool(T.or_), 'logical_not': _bool(T.not_),
    'bitwise_and': _bool(T.and_), 'bitwise_or': _bool(T.or_), 'invert': _bool(T.not_),
    'add': lambda a, b: num(a) + num(b), 'subtract': lambda a, b: num(a) - num(b), 'multiply': lambda a, b: num(a) * num(b),
    'divide': lambda a, b: div_(num(a), num(b)), 'true_divide': lambda a, b: div_(num(a), num(b)), 'negative': un(lambda x: -x), 'positive': un(lambda x: x),
    'remainder': lambda a, b: num(a) % num(b), 'mod': lambda a, b: num(a) % num(b), 'floor_divide': lambda a, b: num(a) // num(b),
    'conjugate': un(lambda x: x.conjugate()),
    'isnan': lambda x: T.TRUE if _isspecial(x, ('nan',)) else T.FALSE,
    'isinf': lambda x: T.TRUE if _isspecial(x, ('inf', '-inf')) else T.FALSE,
    'isfinite': lambda x: T.FALSE if _isspecial(x, ('nan', 'inf', '-inf')) else T.TRUE,
    'tan': un(lambda x: T.sin_(x) / T.cos_(x)), 'hypot': lambda a, b: T.sqrt_(num(a) * num(a) + num(b) * num(b)),
    'tanh': un(lambda x: T.app('tanh', x)), 'arcsin': un(lambda x: T.app('asin', x)), 'arccos': un(lambda x: T.app('acos', x)),
    'rint': un(lambda x: T.floor_(x + Fr(1, 2))), 'deg2rad': un(lambda x: x * T.PI / 180),
}

def as_obj(x):
    if isinstance(x, np.ndarray): return x.view(np.ndarray)
    if issym(x):
        a = np.empty((), object); a[()] = x; return a
    return x

def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SArr) if r.ndim else r[()]
        return r
    return r

def div_(a, b):
    if isinstance(b, Term) and not b.m: return T.fresh('undefined')     # array division by zero does not raise: an arbitrary value
    return a / b

def ufunc_call(uf, method, inputs, kwargs):
    name = uf.__name__
    out = kwargs.pop('out', None)
    ins = [as_obj(x) for x in inputs]
    if method == '__call__':
        if name in ('matmul',): r = wrap(np.matmul(*ins))
        else:
            f = UF.get(name)
            if f is None: raise Unsupported('numpy.%s on symbolic values' % name)
            where = kwargs.pop('where', True)
            if where is not True: raise Unsupported('ufunc where=')
            kwargs.pop('dtype', None); kwargs.pop('casting', None)
            r = np.frompyfunc(f, len(ins), 1)(*ins)
            r = wrap(r) if isinstance(r, np.ndarray) else r
        if out is not None:
            o = out[0]
            if o.dtype != object: raise Unsupported('symbolic value written into a numeric array')
            o.view(np.ndarray)[...] = as_obj(r); return o
        return r
    if method == 'reduce':
        f = UF[name]
        a = ins[0]; axis = kwargs.get('axis', 0); keep = kwargs.get('keepdims', False)
        init = kwargs.get('initial', None)
        unit = {'add': T.ZERO, 'multiply': T.UNIT, 'logical_and': T.TRUE, 'logical_or': T.FALSE}.get(name)
        def red(seq):
            seq = list(seq); acc = unit if init is None or init is np._NoValue else lift(init)
            for x in seq: acc = x if acc is None else f(acc, x)
            return acc
        if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
            r = red(a.ravel())
            if keep:
                z = np.empty((1,) * a.ndim, object); z[...] = r; r = z.view(SArr)
            return r
        if isinstance(axis, tuple):
            if len(axis) != 1: raise Unsupported('reduce over several axes')
            axis = axis[0]
        m = np.moveaxis(a, axis, -1)
        z = np.empty(m.shape[:-1], object)
        for ix in np.ndindex(*m.shape[:-1]): z[ix] = red(m[ix])
        if keep: z = np.expand_dims(z, axis)
        return wrap(z)
    if method == 'outer':
        a, b = np.asarray(ins[0], object), np.asarray(ins[1], object)
        return ufunc_call(uf, '__call__', (a.reshape(a.shape + (1,) * b.ndim).view(SArr), b), {})
    if method == 'accumulate' and name == 'add':
        return wrap(np.add.accumulate(ins[0], **kwargs))
    raise Unsupported('ufunc method ' + method)

def _term_ufunc(self, uf, method, *inputs, **kw): return ufunc_call(uf, method, inputs, kw)
Term.__array_ufunc__ = _term_ufunc
Cond.__array_ufunc__ = _term_ufunc
CTerm.__array_ufunc__ = _term_ufunc

# Term op ndarray: defer to numpy (which calls the ufunc protocol)
def _defer(name):
    orig = getattr(Term, name)
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        if isinstance(o, (complex, np.complexfloating, CTerm)):
            return getattr(CTerm(self, T.ZERO), name)(o)
        return orig(self, o)
    return f
for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__mod__', '__rmod__', '__floordiv__', '__rfloordiv__', '__pow__', '__rpow__'):
    setattr(Term, _n, _defer(_n))
_UFN = {'__add__': 'add', '__sub__': 'subtract', '__mul__': 'multiply', '__truediv__': 'divide', '__pow__': 'power', '__mod__': 'remainder'}
def _left(name):
    prev = getattr(Term, name)
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0: return ufunc_call(getattr(np, _UFN[name]), '__call__', (self, o), {})
        return prev(self, o)
    return f
for _n in _UFN: setattr(Term, _n, _left(_n))
_UFR = {'__radd__': 'add', '__rsub__': 'subtract', '__rmul__': 'multiply', '__rtruediv__': 'divide', '__rpow__': 'power', '__rmod__': 'remainder'}
def _right(name):
    prev = getattr(Term, name)
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0: return ufunc_call(getattr(np, _UFR[name]), '__call__', (o, self), {})
        return prev(self, o)
    return f
for _n in _UFR: setattr(Term, _n, _right(_n))
_CM = {'__lt__': 'less', '__le__': 'less_equal', '__gt__': 'greater', '__ge__': 'greater_equal', '__eq__': 'equal', '__ne__': 'not_equal'}
def _cmpd(name):
    prev = getattr(Term, name)
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0: return ufunc_call(getattr(np, _CM[name]), '__call__', (self, o), {})
        if o is None: return name == '__ne__'
        if isinstance(o, str): return name == '__ne__'
        return prev(self, o)
    return f
for _n in _CM: setattr(Term, _n, _cmpd(_n))
Term.shape = (); Term.ndim = 0; Term.size = 1
Term.dtype = property(lambda s: np.dtype(object))
Term.item = lambda s: s
Term.copy = lambda s: s
Term.squeeze = lambda s: s
def _titem(self, ix):
    a = as_obj(self)[ix]
    return wrap(a) if isinstance(a, np.ndarray) else a
Term.__getitem__ = _titem
Term.reshape = lambda s, *a: wrap(as_obj(s).reshape(*a))
Term.astype = lambda s, d, **k: s
Term.sum = lambda s, *a, **k: s
Term.flatten = lambda s: wrap(as_obj(s).flatten())
Term.__array__ = None
del Term.__array__

def _ix(i):
    """index with symbolic parts resolved on the current path"""
    if isinstance(i, tuple): return tuple(_ix(x) for x in i)
    if isinstance(i, Cond): return bool(i)
    if isinstance(i, Term): return int(i.__index__())
    if isinstance(i, slice): return slice(*[(_ix(x) if issym(x) else x) for x in (i.start, i.stop, i.step)])
    if isinstance(i, np.ndarray) and i.dtype == object:
        v = i.view(np.ndarray)
        if i.size == 0: return v.astype(int)
        k = [x for x in v.ravel()]
        if all(isinstance(x, (Cond, bool, np.bool_)) for x in k):
            r = np.empty(v.shape, bool)
            for ix in np.ndindex(*v.shape): r[ix] = bool(v[ix])
            return r
        r = np.empty(v.shape, int)
        for ix in np.ndindex(*v.shape): r[ix] = int(v[ix])
        return r
    if isinstance(i, list) and any(issym(x) for x in i): return [_ix(x) for x in i]
    return i

class _At:
    def __init__(self, a, ix=None): self.a = a; self.ix = ix
    def __getitem__(self, ix): return _At(self.a, ix)
    def set(self, v): r = self.a.copy(); r[self.ix] = v; return r
    def add(self, v): r = self.a.copy(); r[self.ix] = r[self.ix] + v; return r
    def multiply(self, v): r = self.a.copy(); r[self.ix] = r[self.ix] * v; return r

class IArr(np.ndarray):
    """plain integer/boolean array whose index may carry symbolic conditions"""
    def __getitem__(self, i):
        if isinstance(i, np.ndarray) and i.dtype == object or isinstance(i, tuple): i = _ix(i)
        return np.ndarray.__getitem__(self, i)
    def __setitem__(self, i, v):
        if isinstance(i, np.ndarray) and i.dtype == object or isinstance(i, tuple): i = _ix(i)
        np.ndarray.__setitem__(self, i, v)
def iarr(r): return r.view(IArr) if type(r) is np.ndarray and r.ndim and r.dtype.kind in 'iub' else r

class SArr(np.ndarray):
    __array_priority__ = 999
    def __array_ufunc__(self, uf, method, *inputs, **kw): return ufunc_call(uf, method, inputs, kw)
    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self.view(np.ndarray), _ix(i))
        return wrap(r) if isinstance(r, np.ndarray) else r
    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self.view(np.ndarray), _ix(i), as_obj(v) if not isinstance(v, (list, tuple)) else as_obj(mk(v)))
    def __iter__(self):
        for k in range(self.shape[0]): yield self[k]
    @property
    def at(self): return _At(self)
    @property
    def real(self): return fmap(lambda x: x.real if isinstance(x, CTerm) else x, self)
    @property
    def imag(self): return fmap(lambda x: x.im if isinstance(x, CTerm) else T.ZERO, self)
    def all(self, axis=None, **k): return np.logical_and.reduce(self, axis=axis)
    def any(self, axis=None, **k): return np.logical_or.reduce(self, axis=axis)
    def max(self, axis=None, **k): return np.maximum.reduce(self, axis=axis)
    def min(self, axis=None, **k): return np.minimum.reduce(self, axis=axis)
    def sum(self, axis=None, **k): return np.add.reduce(self, axis=axis, keepdims=k.get('keepdims', False))
    def mean(self, axis=None, **k): return np.add.reduce(self, axis=axis) / (self.size if axis is None else self.shape[axis])
    def prod(self, axis=None, **k): return np.multiply.reduce(self, axis=axis)
    def astype(self, d, **k):
        if np.dtype(d) == bool: return _ix(fmap(lambda x: T.as_cond(el(x)), self))
        if np.issubdtype(np.dtype(d), np.integer): return np.frompyfunc(trunc_, 1, 1)(as_obj(self)).astype(np.int64)
        return self.copy()
    def copy(self, *a, **k): return self.view(np.ndarray).copy().view(SArr)
    def dot(self, o): return wrap(np.dot(self.view(np.ndarray), as_obj(o)))
    def __bool__(self):
        if self.size == 1: return bool(self.ravel()[0])
        raise ValueError('truth value of an array is ambiguous')
    def __float__(self):
        if self.size == 1: return float(self.ravel()[0])
        raise TypeError('only length-1 arrays')
    def __matmul__(self, o): return mm(self, o)
    def __rmatmul__(self, o): return mm(o, self)
    def item(self, *a):
        if a: return self.view(np.ndarray)[a]
        return self.view(np.ndarray).reshape(-1)[0]
    def block_until_ready(self): return self

def obj(x):
    """numpy object array of elements (symbolic if any element is)"""
    return mk(x)

def mk(x):
    if isinstance(x, SArr): return x
    if issym(x): return x
    if isinstance(x, np.ndarray): return x
    a = np.empty((), object)
    r = np.array(_strip(x), dtype=object) if _anysym(x) else np.array(x)
    return r.view(SArr) if r.dtype == object else r

def _strip(x):
    if isinstance(x, (list, tuple)): return [_strip(y) for y in x]
    if isinstance(x, np.ndarray): return x.view(np.ndarray).tolist() if x.dtype != object else _aslist(x)
    return x
def _aslist(a):
    a = a.view(np.ndarray)
    if a.ndim == 0: return a[()]
    return [_aslist(y) if isinstance(y, np.ndarray) else y for y in a]
def _anysym(x):
    if issym(x): return True
    if isinstance(x, np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(_anysym(y) for y in x)
    return False

# np.array on nested lists holding Terms: numpy would try Term.__getitem__/len; Terms have no __len__, so they are scalars

def fmap(f, a):
    a = mk(a)
    if not isinstance(a, np.ndarray): return f(a)
    r = np.frompyfunc(f, 1, 1)(a.view(np.ndarray))
    return wrap(r) if isinstance(r, np.ndarray) else r

def mm(a, b):
    a, b = mk(a), mk(b)
    return wrap(np.matmul(as_obj(a), as_obj(b)))

def sym_full(shape, v):
    if isinstance(shape, np.ndarray) and shape.ndim == 0: shape = shape.item()
    if isinstance(shape, (int, np.integer, Term)): shape = (shape,)
    shape = tuple(int(_ix(s)) if issym(s) else int(s) for s in shape)
    a = np.empty(shape, object); a[...] = v
    return a.view(SArr) if len(shape) else v

def dt_int(dtype):
    if dtype is None or dtype is object: return False
    try: d = np.dtype(dtype)
    except TypeError: return False
    return d == bool or np.issubdtype(d, np.integer)

class FFT:
    def fft(self, x, n=None, axis=-1, norm=None): return _dft(x, axis, -1, 1)
    def ifft(self, x, n=None, axis=-1, norm=None): return _dft(x, axis, +1, None)
    def rfft(self, x, n=None, axis=-1):
        r = _dft(x, axis, -1, 1); N = mk(x).shape[axis]
        return wrap(np.moveaxis(np.moveaxis(as_obj(r), axis, 0)[:N // 2 + 1], 0, axis))

def _dft(x, axis, sgn, sc):
    a = np.moveaxis(as_obj(mk(x)), axis, 0)
    N = a.shape[0]
    out = np.empty(a.shape, object)
    cs = [(T.cos_(T.PI * Fr(2 * k, N)), T.sin_(T.PI * Fr(2 * k, N))) for k in range(N)]
    for ix in np.ndindex(*a.shape[1:]):
        col = [CTerm.of(el(a[(n,) + ix])) for n in range(N)]
        for k in range(N):
            re = T.ZERO; im = T.ZERO
            for n in range(N):
                c, s = cs[(k * n) % N]; s = s * sgn
                v = col[n]
                re = re + v.re * c - v.im * s
                im = im + v.re * s + v.im * c
            if sc is None: re = re / N; im = im / N
            out[(k,) + ix] = CTerm(re, im)
    return wrap(np.moveaxis(out, 0, axis))

class LINALG:
    LinAlgError = np.linalg.LinAlgError
    def __getattr__(self, n): raise Unsupported('numpy.linalg.' + n)
    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = mk(x)
        if ord is not None and ord not in (2, 'fro'): raise Unsupported('norm ord')
        return T.sqrt_(np.add.reduce((x * x).ravel())) if axis is None else fmap(T.sqrt_, np.add.reduce(x * x, axis=axis, keepdims=keepdims))
    def solve(self, A, b): return solve_exact(A, b)
    def inv(self, A):
        A = mk(A)
        return solve_exact(A, NP.eye(A.shape[0]))
    def matrix_power(self, A, n):
        A = mk(A); n = int(n)
        if n < 0: A = self.inv(A); n = -n
        R = NP.eye(A.shape[0])
        for _ in range(n): R = R @ A
        return R
    def det(self, A):
        A = mk(A); n = A.shape[0]
        if n == 1: return num(A[0, 0])
        return sum(((-1) ** j * num(A[0, j]) * self.det(np.delete(A.view(np.ndarray)[1:], j, 1).view(SArr)) for j in range(n)), T.ZERO)

def solve_exact(A, b):
    """Cramer's rule (n <= 3) for the exact solution of a nonsingular system"""
    A = mk(A); b = mk(b); n = A.shape[0]
    if n > 3: raise Unsupported('symbolic linear solve with more than 3 unknowns')
    L = LINALG(); d = L.det(A)
    B = as_obj(b); one = B.ndim == 1
    B = B.reshape(n, -1)
    X = np.empty(B.shape, object)
    for c in range(B.shape[1]):
        for j in range(n):
            Aj = A.view(np.ndarray).copy() if A.dtype == object else np.array(A, object)
            Aj[:, j] = B[:, c]
            X[j, c] = num(L.det(Aj.view(SArr))) / d
    return wrap(X[:, 0] if one else X)

class SNP:
    """stands for the modules numpy and jax.numpy in the symbolic copy of the package"""
    pi = T.PI
    inf = T.from_float(math.inf); nan = T.from_float(math.nan)
    Inf = inf; NaN = nan; newaxis = None
    fft = FFT(); linalg = LINALG()
    ndarray = np.ndarray
    float64 = np.float64; float_ = np.float64; double = np.double; int32 = np.int32; bool_ = np.bool_; integer = np.integer; floating = np.floating
    complex128 = np.complex128; intp = np.intp; number = np.number
    dtype = np.dtype; VisibleDeprecationWarning = getattr(np, 'VisibleDeprecationWarning', Warning)
    s_ = np.s_; r_ = np.r_; c_ = np.c_; random = np.random; e = T.from_float(math.e)
    def __getattr__(self, n):
        f = getattr(np, n)
        if isinstance(f, np.ufunc):
            def g(*a, **k):
                a2 = [mk(x) if isinstance(x, (list, tuple)) else x for x in a]
                if any(issym(x) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a2):
                    return ufunc_call(f, '__call__', a2, k)
                if n in ('cos', 'sin', 'exp', 'sqrt', 'log', 'divide', 'true_divide', 'arctan', 'log10', 'power'):
                    a3 = [np.asarray(x).astype(object) if not np.isscalar(x) else lift(x) for x in a2]
                    return ufunc_call(f, '__call__', [x.view(SArr) if isinstance(x, np.ndarray) else x for x in a3], k)
                return f(*a2, **k)
            return g
        if n in SAFE:
            def h(*a, **k):
                r = f(*[_un(x) for x in a], **{q: _un(v) for q, v in k.items()})
                return _rw(r)
            return h
        raise Unsupported('numpy.' + n)
    # creation
    def zeros(self, shape, dtype=None, **k): return np.zeros(shape, dtype) if dt_int(dtype) else sym_full(shape, T.ZERO)
    def ones(self, shape, dtype=None, **k): return np.ones(shape, dtype) if dt_int(dtype) else sym_full(shape, T.UNIT)
    def empty(self, shape, dtype=None, **k): return np.empty(shape, dtype) if dt_int(dtype) else sym_full(shape, T.from_float(math.nan))
    def full(self, shape, v, dtype=None, **k):
        if dt_int(dtype) or (dtype is None and isinstance(v, (bool, int)) and not isinstance(v, Term)): return np.full(shape, v, dtype)
        return sym_full(shape, lift(v))
    def zeros_like(self, a, dtype=None, **k): return self.zeros(np.shape(a) if not issym(a) else (), dtype or (mk(a).dtype if dt_int(getattr(mk(a), 'dtype', None)) else None)) if not isinstance(a, Term) else T.ZERO
    def ones_like(self, a, dtype=None, **k): return self.ones(np.shape(a), dtype or (mk(a).dtype if dt_int(getattr(mk(a), 'dtype', None)) else None)) if not isinstance(a, Term) else T.UNIT
    empty_like = zeros_like
    def full_like(self, a, v, dtype=None, **k): return sym_full(np.shape(a), lift(v)) if not dt_int(dtype) else np.full(np.shape(a), v, dtype)
    def eye(self, n, m=None, k=0, dtype=None, **kw):
        e = np.eye(int(n), None if m is None else int(m), k)
        if dt_int(dtype): return e.astype(dtype)
        return fmap(lambda x: T.UNIT if x else T.ZERO, e.astype(object).view(SArr))
    identity = eye
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, range): x = list(x)
        r = iarr(mk(x))
        if issym(r): r = as_obj(r).view(SArr)
        r = np.array(r, copy=True, ndmin=ndmin).view(type(r)) if isinstance(r, np.ndarray) else np.array(r, ndmin=ndmin)
        if dtype is not None:
            if r.dtype == object: return r.astype(dtype)
            return r.astype(dtype) if dt_int(dtype) else r.astype(object).view(SArr)
        return r
    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (dtype is None or not dt_int(dtype) or x.dtype == dtype): return x
        return self.array(x, dtype)
    asanyarray = asarray; ascontiguousarray = asarray
    def copy(self, x): return mk(x).copy()
    def linspace(self, a, b, num=50, endpoint=True, retstep=False, **k):
        n = int(num); a, b = lift(a), lift(b)
        d = (n - 1) if endpoint else n
        st = (b - a) / d if d else T.ZERO
        r = np.empty((n,), object)
        for i in range(n): r[i] = a + (b - a) * Fr(i, d) if d else a
        r = r.view(SArr)
        return (r, st) if retstep else r
    def arange(self, *a, dtype=None, **k):
        if all(isinstance(x, (int, np.integer)) for x in a): return iarr(np.arange(*a, dtype=dtype))
        a = [lift(x) for x in a]
        if all(x.is_const() for x in a):
            v = [x.const() for x in a]
            st, sp, step = (Fr(0), v[0], Fr(1)) if len(v) == 1 else (v[0], v[1], Fr(1)) if len(v) == 2 else v
            n = max(0, math.ceil((sp - st) / step))
            if all(x.denominator == 1 for x in v): return np.array([int(st + i * step) for i in range(n)])
            return mk([T.const(st + i * step) for i in range(n)])
        raise Unsupported('arange with symbolic bounds')
    # elementwise / selection
    def where(self, c, *ab):
        if not ab:
            c = mk(c)
            return np.where(_ix(c) if c.dtype == object else c)
        a, b = [mk(x) for x in ab]
        c = mk(c)
        def f(c, a, b):
            c = T.as_cond(el(c))
            if c.op == 'true': return el(a)
            if c.op == 'false': return el(b)
            if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)): return T.or_(T.and_(c, T.as_cond(a)), T.and_(T.not_(c), T.as_cond(b)))
            return T.ite(c, num(a), num(b))
        r = np.frompyfunc(f, 3, 1)(as_obj(c), as_obj(a), as_obj(b))
        return wrap(r) if isinstance(r, np.ndarray) else r
    def clip(self, x, lo, hi): return self.minimum(self.maximum(x, lo), hi)
    def abs(self, x): return ufunc_call(np.absolute, '__call__', (mk(x),), {}) if _anysym(mk(x)) else np.abs(x)
    def max(self, a, axis=None, **k):
        a = mk(a)
        return np.maximum.reduce(a, axis=axis) if isinstance(a, SArr) else a if issym(a) else np.max(a, axis)
    amax = max
    def min(self, a, axis=None, **k):
        a = mk(a)
        return np.minimum.reduce(a, axis=axis) if isinstance(a, SArr) else a if issym(a) else np.min(a, axis)
    amin = min
    def sum(self, a, axis=None, **k):
        if not isinstance(a, np.ndarray) and hasattr(a, '__next__'): return sum(a)
        a = mk(a)
        return a.sum(axis=axis, **k) if isinstance(a, np.ndarray) else a
    def mean(self, a, axis=None, **k): return np.asarray(mk(a), object).view(SArr).mean(axis=axis) if not isinstance(mk(a), np.ndarray) else mk(a).mean(axis=axis)
    def prod(self, a, axis=None, **k): return mk(a).prod(axis=axis)
    def all(self, a, axis=None, **k):
        a = mk(a)
        return a.all(axis=axis) if isinstance(a, SArr) else T.as_cond(a) if issym(a) else np.all(a, axis=axis)
    def any(self, a, axis=None, **k):
        a = mk(a)
        return a.any(axis=axis) if isinstance(a, SArr) else T.as_cond(a) if issym(a) else np.any(a, axis=axis)
    def real(self, x): return fmap(lambda v: v.re if isinstance(v, CTerm) else v, x) if _anysym(mk(x)) else np.real(x)
    def imag(self, x): return fmap(lambda v: v.im if isinstance(v, CTerm) else T.ZERO, x) if _anysym(mk(x)) else np.imag(x)
    def conj(self, x): return fmap(lambda v: v.conjugate(), x)
    def angle(self, x): return fmap(lambda v: T.app('atan2', CTerm.of(v).im, CTerm.of(v).re), x)
    def isclose(self, *a, **k): raise Unsupported('isclose')
    def dot(self, a, b): return wrap(np.dot(as_obj(mk(a)), as_obj(mk(b))))
    def matmul(self, a, b): return mm(a, b)
    def einsum(self, s, *ops, **k): return _rw(np.einsum(s, *[as_obj(mk(o)) if not (isinstance(mk(o), np.ndarray) and mk(o).dtype != object) else mk(o).astype(object) for o in ops], optimize=False))
    def cumsum(self, a, axis=None, **k): return _rw(np.cumsum(as_obj(mk(a)), axis=axis))
    def diff(self, a, n=1, axis=-1): return _rw(np.subtract(*[as_obj(x) for x in _dsl(mk(a), axis)])) if n == 1 else self.diff(self.diff(a, n - 1, axis), 1, axis)
    def interp(self, x, xp, fp, left=None, right=None): return interp_(x, xp, fp, left, right)
    def sort(self, a, axis=-1, **k):
        a = mk(a)
        if a.dtype != object: return np.sort(a, axis)
        if a.ndim != 1: raise Unsupported('sort of matrix')
        import functools
        return mk(sorted(a, key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else (1 if bool(q < p) else 0))))
    def argmin(self, a, axis=None): return _arg(mk(a), lambda p, q: p < q) if axis is None else _u('argmin axis')
    def argmax(self, a, axis=None): return _arg(mk(a), lambda p, q: p > q) if axis is None else _u('argmax axis')
    def unique(self, *a, **k):
        if _anysym(a[0]): raise Unsupported('unique of symbolic values')
        return np.unique(*a, **k)
    def finfo(self, *a): return np.finfo(float)
    def iinfo(self, *a): return np.iinfo(int)
    def isscalar(self, x): return True if issym(x) else np.isscalar(x)
    def shape(self, x): return np.shape(mk(x)) if not issym(x) else ()
    def size(self, x, axis=None): return 1 if issym(x) else np.size(mk(x), axis)
    def ndim(self, x): return 0 if issym(x) else np.ndim(mk(x))
    def float(self, x): return x
    def kron(self, a, b):
        a, b = mk(a), mk(b)
        if not issym(a) and not issym(b) and np.asarray(a).dtype != object and np.asarray(b).dtype != object: return np.kron(a, b)
        A = np.atleast_2d(as_obj(a)); B = np.atleast_2d(as_obj(b))
        if A.dtype != object and B.dtype != object: return np.kron(A, B)
        A = A.astype(object); B = B.astype(object)
        r = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), object)
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                for k in range(B.shape[0]):
                    for l in range(B.shape[1]):
                        r[i * B.shape[0] + k, j * B.shape[1] + l] = num(A[i, j]) * num(B[k, l])
        if np.ndim(a) <= 1 and np.ndim(b) <= 1: r = r.reshape(-1)
        return r.view(SArr)
    def outer(self, a, b): a, b = mk(a), mk(b); return np.ravel(a).reshape(-1, 1) * np.ravel(b).reshape(1, -1)
    def trace(self, a): return sum((num(a[i, i]) for i in range(min(a.shape))), T.ZERO)
    def count_nonzero(self, a): return sum((1 if bool(T.as_cond(el(x))) else 0) for x in mk(a).ravel())
    def nonzero(self, a): return np.nonzero(_ix(fmap(T.as_cond, mk(a))))
    def flatnonzero(self, a): return np.flatnonzero(_ix(fmap(T.as_cond, mk(a))))
    def argwhere(self, a): return np.argwhere(_ix(fmap(T.as_cond, mk(a))))
    def array_equal(self, a, b): raise Unsupported('array_equal')
    def unravel_index(self, *a): return np.unravel_index(*a)
    def nan_to_num(self, x, **k): return fmap(lambda v: T.ZERO if _isspecial(v, ('nan',)) else v, x)

def _u(m): raise Unsupported(m)
def _dsl(a, axis):
    n = a.ndim; s1 = [slice(None)] * n; s2 = [slice(None)] * n
    s1[axis] = slice(1, None); s2[axis] = slice(None, -1)
    return a[tuple(s1)], a[tuple(s2)]
def _arg(a, lt):
    v = list(a.ravel()); b = 0
    for i in range(1, len(v)):
        if bool(lt(num(v[i]), num(v[b]))): b = i
    return b
def interp_(x, xp, fp, left=None, right=None):
    xp, fp = mk(xp), mk(fp)
    n = xp.shape[0]
    L = lift(fp[0]) if left is None else lift(left); R = lift(fp[-1]) if right is None else lift(right)
    def f(x):
        x = num(x)
        if bool(T.cmp_(x, '<', lift(xp[0]))): return L
        if bool(T.cmp_(x, '>', lift(xp[n - 1]))): return R
        for k in range(n - 1):
            a, b = lift(xp[k]), lift(xp[k + 1])
            if bool(T.cmp_(x, '<', b)): return lift(fp[k]) + (lift(fp[k + 1]) - lift(fp[k])) / (b - a) * (x - a)
        return lift(fp[n - 1])
    return fmap(f, x)

def floor_(x):
    """integer part of a symbolic real by case distinction (bounded by 64 either way)"""
    x = num(x)
    if x.is_const(): return math.floor(x.const())
    if bool(T.cmp_(x, '>=', T.ZERO)):
        for k in range(64):
            if bool(T.cmp_(x, '<', lift(k + 1))): return k
    else:
        for k in range(1, 64):
            if bool(T.cmp_(x, '>=', lift(-k))): return -k
    raise Unsupported('integer part of an unbounded symbolic value')
def trunc_(x):
    x = num(x); k = floor_(x)
    return k + 1 if k < 0 and bool(T.cmp_(x, '>', lift(k))) else k
class _I64(type):
    dtype = np.dtype('int64')
    def __call__(cls, x=0):
        if isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and _anysym(x):
            r = np.frompyfunc(trunc_, 1, 1)(as_obj(mk(x))); return r.astype(np.int64)
        if issym(x): return trunc_(x)
        return np.int64(x)
    def __instancecheck__(cls, x): return isinstance(x, np.int64)
class Int64(metaclass=_I64): dtype = np.dtype('int64')

SAFE = {'reshape', 'hstack', 'vstack', 'concatenate', 'column_stack', 'stack', 'block', 'flipud', 'fliplr', 'flip', 'roll', 'atleast_1d', 'atleast_2d', 'atleast_3d',
        'transpose', 'ravel', 'squeeze', 'expand_dims', 'repeat', 'tile', 'append', 'delete', 'insert', 'diag', 'diagonal', 'take', 'moveaxis', 'swapaxes', 'split',
        'array_split', 'broadcast_to', 'triu', 'tril', 'meshgrid', 'rollaxis', 'hsplit', 'vsplit', 'ix_', 'broadcast_arrays', 'fill_diagonal', 'diag_indices', 'ndindex', 'result_type', 'iterable', 'searchsorted_'}

def _un(x):
    if isinstance(x, (list, tuple)) and _anysym(x): return type(x)(_un(y) for y in x)
    if issym(x): return as_obj(x)
    if isinstance(x, SArr): return x.view(np.ndarray)
    return x

def _rw(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0: return r[()]
            f = r.view(SArr)
            # empty positions introduced by numpy (diag, triu, block) are the integer 0
            return f
        return iarr(r)
    if isinstance(r, (list, tuple)): return type(r)(_rw(x) for x in r) if not hasattr(r, '_fields') else r
    return r

SNP.int64 = Int64
NP = SNP()
