"""Symbolic terms: Laurent polynomials with rational coefficients over interned atoms.

A Term is a mapping monomial -> Fraction.  A monomial is a sorted tuple of (atom id, exponent).
Atoms are variables, function applications, conditional values, Kronecker deltas and bounded sums;
they are interned, so structural equality of normalised terms is equality of dictionaries.

Machine floating point is treated as exact real arithmetic (stated in the evidence as an assumption):
a Python float is read as the simplest rational (or rational multiple of pi) with that float value.
"""
import math
from fractions import Fraction as Fr

class Unsupported(Exception):
    """The engine cannot represent what the code does (never reported as a violation)."""

# ----------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'sort', 'fv', 'info')
    def __repr__(self): return show_atom(self)

_atoms = []
_intern = {}

def atom(kind, name, args=(), sort='R', info=None):
    key = (kind, name, tuple(_akey(a) for a in args), sort)
    a = _intern.get(key)
    if a is None:
        a = Atom(); a.id = len(_atoms); a.kind = kind; a.name = name; a.args = tuple(args); a.sort = sort
        fv = set()
        if kind == 'var': fv.add(a.id)
        for x in args: fv |= _fv(x)
        if kind == 'sum':
            # bound variables of this sum are not free
            fv -= {v.id for v in info['bound']}
        a.fv = frozenset(fv); a.info = info
        _atoms.append(a); _intern[key] = a
    return a

def _akey(a):
    if isinstance(a, Term): return a.key()
    if isinstance(a, Cond): return a.key()
    if isinstance(a, tuple): return tuple(_akey(x) for x in a)
    return a

def _fv(x):
    if isinstance(x, (Term, Cond)): return x.fv()
    if isinstance(x, tuple):
        s = set()
        for y in x: s |= _fv(y)
        return s
    return set()

_fresh = [0]
def fresh_name(p='x'):
    _fresh[0] += 1
    return '%s#%d' % (p, _fresh[0])

# ----------------------------------------------------------------------------------------- terms
ONE = ()

printed = []      # numbers written by the code under test, in formatting order (the written token names the entry)

MOD = []                # remainder of index terms (set by the engine for arrays of symbolic size while it runs)
class Term:
    __slots__ = ('m', '_k', '_fv')
    __array_priority__ = 1000
    def __init__(self, m): self.m = m; self._k = None; self._fv = None
    # --- structure
    def key(self):
        if self._k is None: self._k = ('T', frozenset(self.m.items()))
        return self._k
    def __hash__(self): return hash(self.key())
    def fv(self):
        if self._fv is None:
            s = set()
            for mono in self.m:
                for (i, e) in mono: s |= _atoms[i].fv
            self._fv = frozenset(s)
        return self._fv
    def is_const(self): return not self.m or (len(self.m) == 1 and ONE in self.m)
    def const(self): return Fr(self.m.get(ONE, 0))
    def is_int(self):
        for mono, c in self.m.items():
            if Fr(c).denominator != 1: return False
            for (i, e) in mono:
                if e < 0 or _atoms[i].sort != 'I': return False
        return True
    def int_sorted(self):
        """integer valued up to rational coefficients (all atoms integer sorted)"""
        return all(e > 0 and _atoms[i].sort == 'I' for mono in self.m for (i, e) in mono)
    def __repr__(self): return show(self)
    def __str__(self): return show(self)
    def __format__(self, spec): printed.append(self); return '<#%d>' % (len(printed) - 1)
    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented: return NotImplemented
        if not o.m: return self
        if not self.m: return o
        m = dict(self.m)
        for k, c in o.m.items():
            s = m.get(k, 0) + c
            if s: m[k] = s
            else: m.pop(k, None)
        return Term(m)
    __radd__ = __add__
    def __neg__(self): return Term({k: -c for k, c in self.m.items()})
    def __pos__(self): return self
    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented: return NotImplemented
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented: return NotImplemented
        return tmul(self, o)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented: return NotImplemented
        return tmul(self, inv(o))
    def __rtruediv__(self, o): return lift(o) / self
    def __pow__(self, e):
        e = lift(e)
        return e if e is NotImplemented else tpow(self, e)
    def __rpow__(self, b): return tpow(lift(b), self)
    def __abs__(self): return tabs(self)
    def __floordiv__(self, o): return floor_(self / o)
    def __rfloordiv__(self, o): return floor_(lift(o) / self)
    def __mod__(self, o):
        o = lift(o)
        if MOD and self.int_sorted() and o.int_sorted() and not (self.is_const() and o.is_const()): return MOD[0](self, o)
        return self - o * floor_(self / o)
    def __rmod__(self, o): return lift(o) % self
    # --- numpy object-array hooks
    def sqrt(self): return sqrt_(self)
    def cos(self): return cos_(self)
    def sin(self): return sin_(self)
    def exp(self): return exp_(self)
    def log(self): return app('log', self)
    def log10(self): return app('log10', self)
    def conjugate(self): return self
    conj = conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return ZERO
    # --- comparisons
    def __lt__(self, o): return cmp_(self, '<', o)
    def __le__(self, o): return cmp_(self, '<=', o)
    def __gt__(self, o): return cmp_(self, '>', o)
    def __ge__(self, o): return cmp_(self, '>=', o)
    def __eq__(self, o): return cmp_(self, '==', o)
    def __ne__(self, o): return cmp_(self, '!=', o)
    def same(self, o): return (self - lift(o)).m == {}
    # --- conversions
    def __bool__(self):
        if self.is_const(): return self.const() != 0
        return bool(self != 0)
    def __int__(self):
        if self.is_const(): return int(self.const())
        raise Unsupported('int() of symbolic value')
    def __index__(self):
        if self.is_const() and self.const().denominator == 1 if isinstance(self.const(), Fr) else True:
            if self.is_const(): return int(self.const())
        raise Unsupported('symbolic value used as a concrete index: %s' % show(self))
    def __float__(self):
        if self.is_const(): return float(self.const())
        raise Unsupported('float() of symbolic value')
    def __complex__(self):
        raise Unsupported('complex() of symbolic value')
    def __round__(self, n=None): raise Unsupported('round() of symbolic value')

ZERO = Term({})
def _q(c):
    if isinstance(c, int): return int(c)
    c = Fr(c)
    return c.numerator if c.denominator == 1 else c
def _div(a, b):
    return _q(Fr(a) / Fr(b))

def const(c):
    c = _q(c)
    return Term({ONE: c}) if c else ZERO
UNIT = const(1)

def of_atom(a, e=1): return Term({((a.id, e),): 1})
def var(name, sort='R', info=None): return of_atom(atom('var', name, (), sort, info))
def fresh(p='x', sort='R'): return var(fresh_name(p), sort)

_fcache = {}
def from_float(f):
    t = _fcache.get(f)
    if t is not None: return t
    if math.isnan(f) or math.isinf(f):
        t = of_atom(atom('special', repr(f))); specials.add(list(t.m)[0][0][0])
    else:
        r = Fr(f)
        s = r.limit_denominator(10**6)
        if float(s) == f: t = const(s)
        else:
            q = Fr(f / math.pi).limit_denominator(1000)
            if q and float(q) * math.pi == f or (q and abs(float(q) * math.pi - f) <= 1e-15 * abs(f)): t = const(q) * PI
            else: t = const(r)
    _fcache[f] = t
    return t

def lift(x):
    if isinstance(x, Term): return x
    if isinstance(x, bool): return UNIT if x else ZERO
    if isinstance(x, int): return const(x)
    if isinstance(x, Fr): return const(x)
    if isinstance(x, float): return from_float(x)
    if isinstance(x, Cond): return ind(x)
    tn = type(x).__module__
    if tn == 'numpy':
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.ndim == 0: return lift(x.item())
            return NotImplemented
        if isinstance(x, (np.bool_, np.integer)): return const(int(x))
        if isinstance(x, np.floating): return from_float(float(x))
    return NotImplemented

PI = of_atom(atom('var', 'pi'))

# reductions at monomial level -------------------------------------------------------------------
def _norm_mono(d):
    """d: dict atom id -> exponent.  Returns (monomial tuple, extra Term or None)."""
    extra = None
    for i, e in list(d.items()):
        if e == 0: del d[i]; continue
        a = _atoms[i]
        k = a.kind
        if k == 'app' and a.name == 'sqrt' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if r: d[i] = 1
            else: del d[i]
            t = tpow_int(a.args[0], q)
            extra = t if extra is None else tmul(extra, t)
        elif k == 'app' and a.name == 'sin' and e >= 2:
            q, r = divmod(e, 2)
            if r: d[i] = 1
            else: del d[i]
            c = cos_(a.args[0])
            t = tpow_int(UNIT - c * c, q)
            extra = t if extra is None else tmul(extra, t)
        elif k == 'app' and a.name == 'inv' and e < 0:
            del d[i]
            t = tpow_int(a.args[0], -e)
            extra = t if extra is None else tmul(extra, t)
        elif k == 'app' and a.name == 'abs' and (e >= 2 or e <= -2):
            r = e % 2 if e > 0 else -(-e % 2)
            if r: d[i] = r
            else: del d[i]
            t = a.args[0]; q = e - r
            t = tpow_int(t, q) if q > 0 else inv(tpow_int(t, -q))
            extra = t if extra is None else tmul(extra, t)
        elif k in ('delta', 'ind') and e != 1:
            if e < 0: raise Unsupported('division by an indicator')
            d[i] = 1
        elif k == 'app' and a.name == 'sign' and e >= 2 and a.info == 'nonzero':
            if e % 2: d[i] = 1
            else: del d[i]
    return tuple(sorted(d.items())), extra

_special = {}
def _plain(mono):
    for (i, e) in mono:
        a = _atoms[i]
        if a.kind != 'var' and not (a.kind == 'app' and a.name not in ('sqrt', 'sin', 'inv', 'sign')) and a.kind not in ('sum', 'ite'):
            return False
    return True

def tsum(ts):
    out = {}
    for t in ts:
        for k, c in t.m.items():
            s = out.get(k, 0) + c
            if s: out[k] = s
            else: out.pop(k, None)
    return Term(out)

def tmul(a, b):
    if not a.m or not b.m: return ZERO
    if len(a.m) == 1 and ONE in a.m:
        c = a.m[ONE]
        return b if c == 1 else Term({k: c * v for k, v in b.m.items()})
    if len(b.m) == 1 and ONE in b.m:
        c = b.m[ONE]
        return a if c == 1 else Term({k: c * v for k, v in a.m.items()})
    out = {}
    rest = []
    for ka, ca in a.m.items():
        for kb, cb in b.m.items():
            d = dict(ka)
            for (i, e) in kb: d[i] = d.get(i, 0) + e
            mono, extra = _norm_mono(d)
            c = ca * cb
            if extra is None:
                s = out.get(mono, 0) + c
                if s: out[mono] = s
                else: out.pop(mono, None)
            else: rest.append(tmul(extra, Term({mono: c})))
    if rest: return tsum([Term(out)] + rest)
    return Term(out)

def tpow_int(t, n):
    if n == 0: return UNIT
    if n < 0: return tpow_int(inv(t), -n)
    r = None
    b = t
    while n:
        if n & 1: r = b if r is None else tmul(r, b)
        n >>= 1
        if n: b = tmul(b, b)
    return r

def tpow(b, e):
    if e.is_const():
        c = e.const()
        if c.denominator == 1: return tpow_int(b, int(c))
        if c.denominator == 2:
            return tpow_int(sqrt_(b), int(c * 2))
    if b.is_const() and b.const() == 1: return UNIT
    # b ** (p + integer) -> b**p * b**integer
    c = e.const()
    if c and c.denominator == 1 and not e.is_const():
        return tpow_int(b, int(c)) * tpow(b, e - const(c))
    if not e.is_const() and len(e.m) == 1:
        (mono, cc), = e.m.items()
        if cc.denominator == 1 and cc != 1:   # b ** (k*p) -> (b**p)**k
            return tpow_int(tpow(b, Term({mono: Fr(1)})), int(cc))
    return app('pow', b, e)

divisors = []     # terms assumed nonzero because the code divides by them (reset by the executor)

def inv(t):
    if t.is_const():
        c = t.const()
        if c == 0: raise ZeroDivisionError('symbolic division by zero')
        return const(1 / c)
    divisors.append(t)
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        d = {i: -e for (i, e) in mono}
        mono2, extra = _norm_mono(d)
        r = Term({mono2: _div(1, c)})
        return r if extra is None else tmul(extra, r)
    # normalise: leading coefficient 1 (smallest monomial key)
    lead = t.m[min(t.m)]
    s = Term({k: _div(c, lead) for k, c in t.m.items()})
    a = atom('app', 'inv', (s,))
    return Term({((a.id, 1),): _div(1, lead)})

_INT_APPS = {'floor', 'rank', 'sel'}

specials = set()   # atoms of nan and the infinities
def has_nan(t): return isinstance(t, Term) and any(i in specials and _atoms[i].name == 'nan' for mono in t.m for (i, e) in mono)

def app(name, *args, sort='R', info=None):
    if specials and sort == 'R':
        for a in args:
            if has_nan(a): return from_float(float('nan'))
    return of_atom(atom('app', name, tuple(args), sort, info))

def sqrt_(t):
    t = lift(t)
    if t.is_const():
        c = t.const()
        if c < 0: return app('sqrt', t)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return const(Fr(n, d))
        # pull out square factors
        return app('sqrt', t)
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c > 0 and all(e % 2 == 0 for (_, e) in mono):
            r = sqrt_(const(c))
            for (i, e) in mono:
                half = e // 2
                a = of_atom(_atoms[i])
                r = r * (tpow_int(a, half) if half % 2 == 0 else tpow_int(tabs(a), half))
            return r
    return app('sqrt', t)

def _neg_lead(t):
    """canonical sign: True when the leading coefficient is negative"""
    return bool(t.m) and t.m[min(t.m)] < 0

def _polar(t):
    """t = c*atan2(y, x) + rest with an integer c: (cos, sin) of the first part and the rest"""
    for mono, c in t.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and c.denominator == 1:
            a = _atoms[mono[0][0]]
            if a.kind == 'app' and a.name == 'atan2':
                y, x = a.args; r = inv(sqrt_(x * x + y * y)); x, y = x * r, y * r
                if c < 0: y = -y
                re, im = UNIT, ZERO
                for _ in range(abs(int(c))): re, im = re * x - im * y, re * y + im * x
                return re, im, t - Term({mono: c})
    return None

def cos_(t):
    t = lift(t)
    if not t.m: return UNIT
    p = _polar(t)
    if p: return p[0] * cos_(p[2]) - p[1] * sin_(p[2])
    if _neg_lead(t): t = -t
    v = _trig_pi(t, 'cos')
    return app('cos', t) if v is None else v

def sin_(t):
    t = lift(t)
    if not t.m: return ZERO
    p = _polar(t)
    if p: return p[1] * cos_(p[2]) + p[0] * sin_(p[2])
    if _neg_lead(t): return -sin_(-t)
    v = _trig_pi(t, 'sin')
    return app('sin', t) if v is None else v

def _trig_pi(t, f):
    """exact value of cos/sin at rational multiples of pi; removal of integer multiples of pi"""
    pid = list(PI.m)[0][0][0]
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if mono == ((pid, 1),):
            c = c % 2
            tbl = {Fr(0): 1, Fr(1, 2): 0, Fr(1): -1, Fr(3, 2): 0, Fr(1, 3): Fr(1, 2), Fr(2, 3): Fr(-1, 2), Fr(4, 3): Fr(-1, 2), Fr(5, 3): Fr(1, 2)}
            x = c if f == 'cos' else (Fr(1, 2) - c) % 2
            if x in tbl: return const(tbl[x])
            s = 1
            if x > 1: x = 2 - x
            if x > Fr(1, 2): x = 1 - x; s = -1
            if x == Fr(1, 4): return const(s) * sqrt_(const(2)) / 2
            if x == Fr(1, 6): return const(s) * sqrt_(const(3)) / 2
            return const(s) * app('cos', const(x) * PI) if f == 'cos' or True else None
    return None

def exp_(t):
    t = lift(t)
    if not t.m: return UNIT
    return app('exp', t)

def _known(c):
    from . import paths
    p = paths.current()
    return p.known(c) if hasattr(p, 'known') else None

def tabs(t):
    t = lift(t)
    if t.m and not t.is_const():
        if _known(Cond('<', (-t,))): return t
        if _known(Cond('<', (t,))): return -t
    if t.is_const(): return const(abs(t.const()))
    if _neg_lead(t): t = -t
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if len(mono) == 1 and mono[0][1] == 1 and _atoms[mono[0][0]].kind == 'special':
            if float(_atoms[mono[0][0]].name) * float(c) > 0: return t
            if float(_atoms[mono[0][0]].name) * float(c) < 0: return -t
        if c != 1: return const(abs(c)) * tabs(Term({mono: Fr(1)}))
        if len(mono) == 1 and mono[0][1] == 1:
            a = _atoms[mono[0][0]]
            if a.kind == 'app' and a.name in ('abs', 'sqrt', 'exp'): return t
    return app('abs', t)

def sign_(t):
    t = lift(t)
    if t.is_const():
        c = t.const(); return const((c > 0) - (c < 0))
    return ite(t > 0, UNIT, ite(t < 0, -UNIT, ZERO))

def floor_(t):
    t = lift(t)
    if t.is_const(): return const(math.floor(t.const()))
    if t.is_int(): return t
    # integer part of an integer-sorted polynomial with rational coefficients: split
    ip = {}; fp = {}
    for mono, c in t.m.items():
        if all(e > 0 and _atoms[i].sort == 'I' for (i, e) in mono) and mono != ONE:
            q = math.floor(c); r = c - q
            if q: ip[mono] = Fr(q)
            if r: fp[mono] = r
        elif mono == ONE:
            q = math.floor(c); r = c - q
            if q: ip[mono] = Fr(q)
            if r: fp[mono] = r
        else: fp[mono] = c
    f = Term(fp)
    if f.is_const(): return Term(ip)
    return Term(ip) + app('floor', f, sort='I')

def maximum_(a, b):
    a, b = lift(a), lift(b)
    d = a - b
    if d.is_const(): return a if d.const() >= 0 else b
    return ite(a >= b, a, b)

def minimum_(a, b):
    a, b = lift(a), lift(b)
    d = a - b
    if d.is_const(): return a if d.const() <= 0 else b
    return ite(a <= b, a, b)

# ------------------------------------------------------------------------------------- conditions
class Cond:
    """boolean formula: ('cmp', op, term) meaning term op 0 with op in <,<=,==; and/or/not/var/const"""
    __slots__ = ('op', 'a', '_k')
    __array_priority__ = 1001
    def __init__(self, op, a): self.op = op; self.a = a; self._k = None
    def key(self):
        if self._k is None: self._k = ('C', self.op) + tuple(_akey(x) for x in self.a)
        return self._k
    def __hash__(self): return hash(self.key())
    def fv(self):
        s = set()
        for x in self.a:
            if isinstance(x, (Term, Cond)): s |= x.fv()
        return s
    def __bool__(self): return decide(self)
    def __repr__(self):
        if self.op in ('<', '<=', '=='): return '(%s %s 0)' % (show(self.a[0]), self.op)
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))
    # boolean algebra
    def __and__(self, o): return and_(self, o)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o)
    __ror__ = __or__
    def __invert__(self): return not_(self)
    def logical_not(self): return not_(self)
    def logical_and(self, o): return and_(self, o)
    def logical_or(self, o): return or_(self, o)
    # arithmetic: a numpy boolean behaves like 0/1; the path is split so that sizes stay exact
    def _n(self): return 1 if decide(self) else 0
    def __add__(self, o): return ind(self) + o
    __radd__ = __add__
    def __sub__(self, o): return ind(self) - o
    def __rsub__(self, o): return o - ind(self)
    def __mul__(self, o): return ind(self) * o
    __rmul__ = __mul__
    def __truediv__(self, o): return ind(self) / o
    def __neg__(self): return -ind(self)
    def __index__(self): return self._n()
    def __int__(self): return self._n()
    def __float__(self): return float(self._n())
    def __eq__(self, o):
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'): return self if o else not_(self)
        if isinstance(o, Cond): return or_(and_(self, o), and_(not_(self), not_(o)))
        return ind(self) == o
    def __ne__(self, o): return not_(self.__eq__(o))
    def __lt__(self, o): return ind(self) < o
    def __le__(self, o): return ind(self) <= o
    def __gt__(self, o): return ind(self) > o
    def __ge__(self, o): return ind(self) >= o

TRUE = Cond('true', ())
FALSE = Cond('false', ())

def decide(c):
    if c.op == 'true': return True
    if c.op == 'false': return False
    from . import paths
    return paths.current().decide(c)

def cmp_(a, op, b):
    b = lift(b)
    if b is NotImplemented: return NotImplemented
    if op == '>': return cmp_(b, '<', a)
    if op == '>=': return cmp_(b, '<=', a)
    if op == '!=': return not_(cmp_(a, '==', b))
    for t in (a, b):
        for mono in t.m:
            for (i, e) in mono:
                if _atoms[i].kind == 'special': return _cmp_special(a, op, b)
    d = a - b
    if d.is_const():
        c = d.const()
        r = c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
        return TRUE if r else FALSE
    k = _def_sign(d)
    if k is not None:
        if op == '<': return TRUE if k == -2 else FALSE if k > 0 else Cond('<', (d,)) if k == -1 else FALSE
        if op == '<=': return TRUE if k < 0 else FALSE if k == 2 else Cond('<=', (d,))
        if op == '==' and abs(k) == 2: return FALSE
    # scale to canonical positive leading magnitude
    lead = abs(d.m[min(d.m)])
    if lead != 1: d = Term({k: _div(c, lead) for k, c in d.m.items()})
    if op == '==':
        if _neg_lead(d): d = -d
    return Cond(op, (d,))

def _def_sign(d):
    """2: positive, 1: nonnegative, -1: nonpositive, -2: negative, None: unknown (by form only)"""
    sg = 0; strict = False
    for mono, c in d.m.items():
        pos = True
        for (i, e) in mono:
            if e % 2 == 0 and e > 0: pos = False; continue
            a = _atoms[i]
            if a.kind == 'app' and a.name == 'exp': continue
            if a.kind == 'var' and a.name == 'pi': continue
            if a.kind == 'app' and a.name in ('abs', 'sqrt') and e > 0: pos = False; continue
            if a.kind in ('ind', 'delta'): pos = False; continue
            return None
        s = 1 if c > 0 else -1
        if sg and s != sg: return None
        sg = s; strict = strict or pos
    return sg * (2 if strict else 1) if sg else None

def _cmp_special(a, op, b):
    def val(t):
        if t.is_const(): return float(t.const())
        if len(t.m) == 1:
            (mono, c), = t.m.items()
            if len(mono) == 1 and mono[0][1] == 1 and _atoms[mono[0][0]].kind == 'special':
                return float(_atoms[mono[0][0]].name) * float(c)
        return None
    x, y = val(a), val(b)
    if x is None and y is None: raise Unsupported('comparison with inf/nan')
    if x is None:
        if y == math.inf: return TRUE if op in ('<', '<=') else FALSE
        if y == -math.inf: return FALSE
        return FALSE
    if y is None:
        if x == math.inf: return FALSE
        if x == -math.inf: return TRUE if op in ('<', '<=') else FALSE
        return FALSE
    r = x < y if op == '<' else x <= y if op == '<=' else x == y
    return TRUE if r else FALSE

def as_cond(x):
    if isinstance(x, Cond): return x
    if isinstance(x, Term): return x != 0
    return TRUE if bool(x) else FALSE

def and_(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c.op == 'true': continue
        if c.op == 'false': return FALSE
        if c.op == 'and': out.extend(c.a)
        else: out.append(c)
    u = []
    seen = set()
    for c in out:
        if c.key() not in seen: seen.add(c.key()); u.append(c)
    if not u: return TRUE
    if len(u) == 1: return u[0]
    return Cond('and', tuple(u))

def or_(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c.op == 'false': continue
        if c.op == 'true': return TRUE
        if c.op == 'or': out.extend(c.a)
        else: out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return Cond('or', tuple(out))

def not_(c):
    c = as_cond(c)
    if c.op == 'true': return FALSE
    if c.op == 'false': return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == '<': return Cond('<=', (-c.a[0],))
    if c.op == '<=': return Cond('<', (-c.a[0],))
    return Cond('not', (c,))

def implies(a, b): return or_(not_(a), b)

def boolvar(name): return Cond('bvar', (name,))

def ite(c, a, b):
    c = as_cond(c); a = lift(a); b = lift(b)
    if c.op == 'true': return a
    if c.op == 'false': return b
    if a.key() == b.key(): return a
    if a.is_const() and b.is_const() and a.const() == 1 and b.const() == 0: return ind(c)
    return of_atom(atom('ite', 'ite', (c, a, b), 'I' if a.is_int() and b.is_int() else 'R'))

def ind(c):
    c = as_cond(c)
    if c.op == 'true': return UNIT
    if c.op == 'false': return ZERO
    return of_atom(atom('ind', 'ind', (c,), 'I'))

def delta(i, j):
    d = lift(i) - lift(j)
    if d.is_const(): return UNIT if d.const() == 0 else ZERO
    if _neg_lead(d): d = -d
    return of_atom(atom('delta', 'delta', (d,), 'I'))

# ------------------------------------------------------------------------------------ substitution
def subst(t, mp, cache=None, keys=None):
    """mp: dict atom id (of variables, or other atoms) -> Term"""
    if cache is None: cache = {}; keys = set(mp)
    if isinstance(t, Cond): return subst_cond(t, mp, cache, keys)
    if not (t.fv() & keys) and not any(i in mp for mono in t.m for (i, _) in mono): return t
    out = []
    for mono, c in t.m.items():
        r = const(c)
        for (i, e) in mono:
            v = cache.get(i)
            if v is None: v = cache[i] = subst_atom(_atoms[i], mp, cache, keys)
            r = r * tpow_int(v, e)
        out.append(r)
    return tsum(out)

def subst_cond(c, mp, cache=None, keys=None):
    if cache is None: cache = {}; keys = set(mp)
    if c.op in ('true', 'false'): return c
    if c.op == 'bvar': return mp.get(c.a[0], c)
    if c.op in ('<', '<=', '=='): return cmp_(subst(c.a[0], mp, cache, keys), c.op, ZERO)
    xs = [subst_cond(x, mp, cache, keys) for x in c.a]
    return and_(*xs) if c.op == 'and' else or_(*xs) if c.op == 'or' else not_(xs[0])

def subst_atom(a, mp, cache=None, keys=None):
    if cache is None: cache = {}; keys = set(mp)
    if a.id in mp: return mp[a.id]
    if a.kind == 'var' or not (a.fv & keys): return of_atom(a)
    return rebuild(a, tuple(_sub_arg(x, mp, cache, keys) for x in a.args))

def _sub_arg(x, mp, cache, keys):
    if isinstance(x, Term): return subst(x, mp, cache, keys)
    if isinstance(x, Cond): return subst_cond(x, mp, cache, keys)
    if isinstance(x, tuple): return tuple(_sub_arg(y, mp, cache, keys) for y in x)
    return x

appfuncs = {}   # name -> rebuild function (special normalisation), e.g. selection/rank functions

def rebuild(a, args):
    if a.kind == 'app':
        n = a.name
        if n == 'sqrt': return sqrt_(args[0])
        if n == 'cos': return cos_(args[0])
        if n == 'sin': return sin_(args[0])
        if n == 'exp': return exp_(args[0])
        if n == 'abs': return tabs(args[0])
        if n == 'inv': return inv(args[0])
        if n == 'pow': return tpow(args[0], args[1])
        if n == 'floor': return floor_(args[0])
        f = appfuncs.get(n)
        if f: return f(*args)
        return of_atom(atom('app', n, args, a.sort, a.info))
    if a.kind == 'ite': return ite(*args)
    if a.kind == 'ind': return ind(args[0])
    if a.kind == 'delta': return delta(args[0], ZERO)
    if a.kind == 'sum':
        from . import sums
        return sums.rebuild_sum(a, args)
    raise Unsupported('rebuild ' + a.kind)

# ------------------------------------------------------------------------------------- derivatives
def deriv(t, d):
    """total derivative of t; d(atom) -> Term for leaves (variables and uninterpreted applications),
    None meaning 'not a leaf: use the rules'"""
    out = []
    cache = d.__dict__.setdefault('_memo', {})
    for mono, c in t.m.items():
        for idx, (i, e) in enumerate(mono):
            da = cache.get(i)
            if da is None: da = cache[i] = deriv_atom(_atoms[i], d)
            if not da.m: continue
            rest = dict(mono)
            rest[i] = e - 1
            mn, extra = _norm_mono(rest)
            r = Term({mn: Fr(c) * e})
            if extra is not None: r = r * extra
            out.append(r * da)
    return tsum(out)

def deriv_atom(a, d):
    x = d(a)
    if x is not None: return x
    if a.kind == 'var': return ZERO
    if a.kind in ('ind', 'delta'): return ZERO
    if a.kind == 'ite': return ite(a.args[0], deriv(a.args[1], d), deriv(a.args[2], d))
    if a.kind == 'app':
        n = a.name
        if n == 'sqrt':
            du = deriv(a.args[0], d)
            return du / (2 * of_atom(a)) if du.m else ZERO
        if n == 'cos': return -sin_(a.args[0]) * deriv(a.args[0], d)
        if n == 'sin': return cos_(a.args[0]) * deriv(a.args[0], d)
        if n == 'exp': return of_atom(a) * deriv(a.args[0], d)
        if n == 'log':
            du = deriv(a.args[0], d)
            return du / a.args[0] if du.m else ZERO
        if n == 'inv':
            du = deriv(a.args[0], d)
            return -du * of_atom(a) * of_atom(a) if du.m else ZERO
        if n == 'abs': return sign_(a.args[0]) * deriv(a.args[0], d)
        if n == 'pow':
            b, e = a.args
            db, de = deriv(b, d), deriv(e, d)
            r = ZERO
            if db.m: r = r + e * of_atom(a) / b * db
            if de.m: r = r + of_atom(a) * app('log', b) * de
            return r
        if n == 'floor': return ZERO
        if n.startswith('uf:'):                      # uninterpreted smooth function: partials are uninterpreted functions of the same arguments
            r = ZERO
            for j, x in enumerate(a.args):
                dx = deriv(x, d)
                if dx.m: r = r + app('%s,%d' % (n, j), *a.args) * dx
            return r
        # uninterpreted function of non-integer arguments: must not depend on the variables
        for x in a.args:
            if isinstance(x, Term) and not x.int_sorted() and deriv(x, d).m:
                raise Unsupported('derivative of uninterpreted function ' + n)
        return ZERO
    if a.kind == 'sum':
        from . import sums
        return sums.deriv_sum(a, d)
    if a.kind == 'special': return ZERO
    raise Unsupported('derivative of ' + a.kind)

# --------------------------------------------------------------------------------------- zero test
def clear_denominators(t):
    """multiply by all denominators (negative exponents and inv atoms) and re-expand"""
    for _ in range(12):
        invs = {}; neg = {}
        for mono in t.m:
            for (i, e) in mono:
                a = _atoms[i]
                if a.kind == 'app' and a.name == 'inv': invs[i] = max(invs.get(i, 0), e)
                elif e < 0: neg[i] = max(neg.get(i, 0), -e)
        if not invs and not neg: return t
        if invs:
            # clear one inv atom, the one created last
            i = max(invs); k = invs[i]
            den = _atoms[i].args[0]
            parts = {}
            # (the factor common to all monomials is dropped, not expanded)
            for mono, c in t.m.items():
                d = dict(mono); e = d.pop(i, 0)
                mn = tuple(sorted(d.items()))
                g = parts.setdefault(e, {}); s = g.get(mn, 0) + c
                if s: g[mn] = s
                else: g.pop(mn, None)
            k = max([e for e, g in parts.items() if g], default=0)
            t = tsum([Term(g) * tpow_int(den, k - e) for e, g in parts.items() if g])
        else:
            f = UNIT
            for i, k in neg.items(): f = f * tpow_int(of_atom(_atoms[i]), k)
            t = t * f
    return t

def is_zero(t):
    if not t.m: return True
    return not clear_denominators(t).m

# --------------------------------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == 'var': return a.name
    if a.kind == 'sum':
        return 'SUM[%s](%s)' % (', '.join('%s<%s' % (v.name, show(e)) for v, e in zip(a.info['bound'], a.args[0])), show(a.args[1]))
    if a.kind == 'special': return a.name
    return '%s(%s)' % (a.name, ', '.join(repr(x) for x in a.args))

def show(t, n=12):
    if not t.m: return '0'
    s = []
    for k, (mono, c) in enumerate(sorted(t.m.items(), key=lambda kv: kv[0])):
        if k >= n: s.append('...(%d terms)' % len(t.m)); break
        fs = [show_atom(_atoms[i]) + ('' if e == 1 else '^%d' % e) for (i, e) in mono]
        if c != 1 or not fs: fs.insert(0, str(c))
        s.append('*'.join(fs))
    return ' + '.join(s)

# ------------------------------------------------------------------------------ numeric evaluation
def evalf(t, env, memo=None):
    """env: dict atom id -> float for leaves (others evaluated)"""
    if memo is None: memo = {}
    if isinstance(t, Cond): return eval_cond(t, env, memo)
    s = 0.0
    for mono, c in t.m.items():
        p = float(c)
        for (i, e) in mono: p *= eval_atom(_atoms[i], env, memo) ** e
        s += p
    return s

def eval_cond(c, env, memo=None):
    if memo is None: memo = {}
    if c.op == 'true': return True
    if c.op == 'false': return False
    if c.op == 'bvar': return bool(env[c.a[0]])
    if c.op == '<': return evalf(c.a[0], env, memo) < 0
    if c.op == '<=': return evalf(c.a[0], env, memo) <= 0
    if c.op == '==': return abs(evalf(c.a[0], env, memo)) < 1e-12
    xs = [eval_cond(x, env, memo) for x in c.a]
    return all(xs) if c.op == 'and' else any(xs) if c.op == 'or' else not xs[0]

def eval_atom(a, env, memo=None):
    if a.id in env: return env[a.id]
    if a.kind == 'var' and a.name == 'pi': return math.pi
    if memo is None: memo = {}
    r = memo.get(a.id)
    if r is None: r = memo[a.id] = _eval_atom(a, env, memo)
    return r

def _eval_atom(a, env, memo):
    if a.kind == 'app':
        n = a.name
        if n not in ('sqrt', 'cos', 'sin', 'exp', 'log', 'inv', 'abs', 'pow', 'floor'): raise KeyError(a)
        x = [evalf(y, env, memo) for y in a.args]
        return (math.sqrt(x[0]) if n == 'sqrt' else math.cos(x[0]) if n == 'cos' else math.sin(x[0]) if n == 'sin' else
             math.exp(x[0]) if n == 'exp' else math.log(x[0]) if n == 'log' else 1 / x[0] if n == 'inv' else
             abs(x[0]) if n == 'abs' else x[0] ** x[1] if n == 'pow' else math.floor(x[0]))
    if a.kind == 'ite': return evalf(a.args[1], env, memo) if eval_cond(a.args[0], env, memo) else evalf(a.args[2], env, memo)
    if a.kind == 'ind': return 1.0 if eval_cond(a.args[0], env, memo) else 0.0
    if a.kind == 'delta': return 1.0 if abs(evalf(a.args[0], env, memo)) < 1e-12 else 0.0
    raise KeyError(a)

def leaves(t, acc=None, seen=None):
    """all leaf atoms (variables and uninterpreted applications) of a term or condition"""
    if acc is None: acc = {}
    if seen is None: seen = set()
    if isinstance(t, Cond):
        for x in t.a:
            if isinstance(x, (Term, Cond)): leaves(x, acc, seen)
        return acc
    for mono in t.m:
        for (i, e) in mono:
            if i in seen: continue
            seen.add(i)
            a = _atoms[i]
            if a.kind == 'var': acc[i] = a
            elif a.kind == 'app' and a.name not in ('sqrt', 'cos', 'sin', 'exp', 'log', 'inv', 'abs', 'pow', 'floor'): acc[i] = a
            else:
                for x in a.args:
                    if isinstance(x, (Term, Cond)): leaves(x, acc, seen)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, (Term, Cond)): leaves(y, acc, seen)
    return acc
