"""Arrays of arbitrary (symbolic) size: the real source runs on arrays whose dimensions are symbols.

An array is a function from symbolic indices to terms plus the list of writes made to it; reading at a symbolic index
decides which write covers the index (splitting the path where both are possible).  A matrix product becomes a bounded
sum with a symbolic bound.  A loop over a symbolic range is executed once for an arbitrary iteration; its writes are
kept with the iteration as a parameter, and a read solves for the iteration that wrote the index.  So an obligation
proved here holds for every array size and every number of loop iterations.
"""
import sys, ast, builtins, types, time, math
import numpy as np

from . import terms as T, paths, smt, load, loops as loops_mod
import z3
from .terms import Term, Cond, Unsupported, lift
from fractions import Fraction as Fr

class SplitAt(Exception):
    def __init__(self, c, var): self.c = c; self.var = var
class EndPath(Exception): pass

def vid(t): return list(t.m)[0][0][0]
def isc(t): return not isinstance(t, Term) or t.is_const()
def dim(t):
    if isinstance(t, Term): return int(t.const()) if t.is_const() else t
    if isinstance(t, Cond): return 1 if bool(t) else 0
    return int(t)
def I(t):
    """index term"""
    if isinstance(t, Cond): return lift(1 if bool(t) else 0)
    if isinstance(t, GArr):
        if t.ndim == 0 or all(isc(d) and dim(d) == 1 for d in t.shape): return t.get(tuple(T.ZERO for _ in t.shape))
        raise Unsupported('array as index')
    r = lift(t)
    if r is NotImplemented: raise Unsupported('index %r' % (t,))
    return r
def elem(x):
    if isinstance(x, (Term, Cond)): return x
    if isinstance(x, GArr): return I(x) if x.ndim else x.get(())
    r = lift(x)
    if r is NotImplemented: raise Unsupported('element %r' % type(x))
    return r
def val(x):
    x = elem(x)
    if not isinstance(x, Cond): return x
    try: return T.UNIT if bool(x) else T.ZERO
    except SplitAt:                     # depends on values at a running index: kept as a case distinction inside the sum
        if intc(x): raise
        return T.ite(x, T.UNIT, T.ZERO)

# ------------------------------------------------------------------------------------------ decisions
class Facts:
    """integer facts translated for z3"""
    def __init__(self): self.c = {}
    def term(self, t, s):
        xs = []
        den = 1
        for c in t.m.values(): den = den * Fr(c).denominator // np.gcd(den, Fr(c).denominator)
        for mono, c in t.m.items():
            p = z3.IntVal(int(Fr(c) * int(den)))
            for (i, e) in mono:
                v = self.atom(i, s)
                for _ in range(e): p = p * v
            xs.append(p)
        return z3.Sum(xs) if xs else z3.IntVal(0)
    def atom(self, i, s):
        v = self.c.get(i)
        if v is None: v = self.c[i] = z3.Int('i%d' % i)
        return v
    def cond(self, c, s):
        if c.op == 'true': return z3.BoolVal(True)
        if c.op == 'false': return z3.BoolVal(False)
        if c.op == 'bvar': return z3.Bool(c.a[0])
        if c.op in ('<', '<=', '=='):
            t = self.term(c.a[0], s); return t < 0 if c.op == '<' else t <= 0 if c.op == '<=' else t == 0
        xs = [self.cond(x, s) for x in c.a]
        return z3.And(xs) if c.op == 'and' else z3.Or(xs) if c.op == 'or' else z3.Not(xs[0])

def intc(c):
    if c.op in ('true', 'false', 'bvar'): return True
    if c.op in ('<', '<=', '=='): return c.a[0].int_sorted()
    return all(intc(x) for x in c.a)

stats = {'queries': 0, 'time': 0.0}

_memo = {}
class GPath(paths.Path):
    dims = ()          # block sizes (terms)
    mono = ()          # names of strictly increasing integer sequences with values >= 1
    def __init__(self, prefix, base):
        super().__init__(prefix, base); self.bounds = []; self.bvars = []
    def facts(self): return [c for c in self.pc if intc(c)] + [c for b in self.bounds for c in b]
    def apps(self, conds):
        out = {}
        for c in conds: leaves_i(c, out)
        return out
    def entails(self, c):
        """True/False/None from the integer facts"""
        if c.op == 'true': return True
        if c.op == 'false': return False
        k = self.known(c)
        if k is not None: return k
        fs = self.facts()
        key = (c.key(), frozenset(x.key() for x in fs), self.mono)
        if key in _memo: return _memo[key]
        r = _memo[key] = self._entails(c, fs)
        return r
    def _entails(self, c, fs):
        t0 = time.time(); s = z3.SimpleSolver(); s.set('rlimit', 400000); F = Facts()
        for f in fs: s.add(F.cond(f, s))
        for i in self.apps(fs + [c]):
            if T._atoms[i].name in self.mono: s.add(F.atom(i, s) >= 1)
        r = None
        for g in (c, T.not_(c)):
            s.push(); s.add(F.cond(g, s)); rs = s.check(); s.pop(); stats['queries'] += 1
            if rs == z3.unsat: r = g is not c; break
        stats['time'] += time.time() - t0
        return r
    def decide(self, c):
        if c.op == 'true': return True
        if c.op == 'false': return False
        if c.op == 'and': return all(self.decide(x) for x in c.a)
        if c.op == 'or': return any(self.decide(x) for x in c.a)
        if c.op == 'not': return not self.decide(c.a[0])
        if not intc(c): return self.rdecide(c)
        return self.idec(c.op, c.a[0])
    def rdecide(self, c):
        k = self.known(c)
        if k is not None: return k
        self._nob(c)
        return paths.Path.decide(self, c)
    def _nob(self, c):
        fv = c.fv()
        for v in reversed(self.bvars):
            if vid(v) in fv: raise SplitAt(c, v)
    def idec(self, op, t):
        if t.is_const():
            c = t.const(); return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
        r = self.division(op, t)
        if r is not None: return r
        # strictly increasing sequences compare as their positions
        if len(t.m) == 2:
            (m1, c1), (m2, c2) = t.m.items()
            if len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and c1 == -c2 and abs(c1) == 1:
                a, b = T._atoms[m1[0][0]], T._atoms[m2[0][0]]
                if a.kind == b.kind == 'app' and a.name == b.name and a.name in self.mono:
                    d = a.args[0] - b.args[0]
                    return self.idec(op, d if c1 > 0 else -d)
        c = T.cmp_(t, op, T.ZERO)
        if c.op in ('true', 'false'): return c.op == 'true'
        k = self.known(c)
        if k is not None: return k
        t = c.a[0]; op = c.op; den = math.lcm(*(x.denominator for x in t.m.values()))
        if den != 1: t = Term({m: x * den for m, x in t.m.items()})
        for nd in self.dims:
            q, s = factor(t, nd)
            if not q.m: continue
            inr = lambda: self.entails(T.and_(s >= 0, s < nd)) is True
            neg = lambda: self.entails(T.and_(s < 0, -s <= nd)) is True
            if not s.m or inr():
                if op == '<': return self.idec('<', q)
                if op == '<=': return self.idec('<', q) or (self.idec('==', q) and self.idec('<=', s))
                return self.idec('==', q) and self.idec('==', s)
            if abs(s.m.get((), 0)) > 1:
                r = self.entails(c)
                if r is not None: return r
            if self.entails(T.and_(-s < nd, s < nd)) is True:
                if self.entails(q >= 1) is True: return False
                if self.entails(q <= -1) is True: return op != '=='
                if self.idec('<', s):        # -nd < s < 0
                    if op in ('<', '<='): return self.idec('<=', q)
                    return False
                if op == '<': return self.idec('<', q)
                if op == '<=': return self.idec('<', q) or (self.idec('==', q) and self.idec('<=', s))
                return self.idec('==', q) and self.idec('==', s)
        r = self.entails(c)
        if r is not None: return r
        self._nob(c)
        return self._fork(c)
    def division(self, op, t):
        """floor(a / n) compared with a term: a compared with n times the term"""
        for mono, c in t.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
                a = T._atoms[mono[0][0]]
                if a.kind == 'app' and a.name == 'idiv':
                    x, n = a.args; r = t - Term({mono: c})
                    if any(T._atoms[i].kind == 'app' and T._atoms[i].name == 'idiv' for m in r.m for i, e in m): return None
                    lt = lambda k: self.decide(T.cmp_(x, '<', n * k))          # floor(x/n) < k
                    if op == '==': k = -r * c; return lt(k + 1) and not lt(k)
                    if c > 0: return lt(-r) if op == '<' else lt(-r + 1)
                    return not lt(r + 1) if op == '<' else not lt(r)
        return None
    def _fork(self, c):
        i = len(self.dec)
        b = self.prefix[i] if i < len(self.prefix) else True
        self.dec.append(b); self.assume(c if b else T.not_(c))
        return b

def sat(p):
    """False when the integer facts of the path contradict each other"""
    s = z3.Solver(); s.set('rlimit', 400000); s.set('timeout', 3000); F = Facts(); fs = p.facts()
    for f in fs: s.add(F.cond(f, s))
    for i in p.apps(fs):
        if T._atoms[i].name in p.mono: s.add(F.atom(i, s) >= 1)
    stats['queries'] += 1
    return s.check() != z3.unsat

def leaves_i(c, out):
    if isinstance(c, Cond):
        for x in c.a:
            if isinstance(x, (Cond, Term)): leaves_i(x, out)
        return
    for mono in c.m:
        for (i, e) in mono: out[i] = 1

def factor(t, nd):
    """t = nd*q + s"""
    k = vid(nd); q = {}; s = {}
    for mono, c in t.m.items():
        d = dict(mono)
        if k in d:
            d[k] -= 1
            if not d[k]: del d[k]
            q[tuple(sorted(d.items()))] = c
        else: s[mono] = c
    return Term(q), Term(s)

_ind = T.ind
def ind_decided(c):
    """a numpy boolean used as a number; a condition on sizes or harmonics is decided"""
    p = paths.current()
    if isinstance(p, GPath) and intc(c): return T.UNIT if p.decide(c) else T.ZERO
    return _ind(c)
T.ind = ind_decided

def P(): 
    p = paths.current()
    if not isinstance(p, GPath): raise Unsupported('outside of a path')
    return p
def yes(c):
    """decided truth (may split the path)"""
    return P().decide(T.as_cond(c)) if not isinstance(c, (bool, np.bool_)) else bool(c)

# ------------------------------------------------------------------------------------------ sums
def level(t):
    """deepest index of a bound variable used inside"""
    n = 0
    if isinstance(t, Cond): return max([level(x) for x in t.a if isinstance(x, (Term, Cond))] or [0])
    for mono in t.m:
        for (i, e) in mono:
            a = T._atoms[i]
            if a.kind == 'app' and a.name == 'gsum': n = max(n, a.info)
            for x in a.args:
                if isinstance(x, (Term, Cond)): n = max(n, level(x))
    return n

def gsum(lo, hi, f, tries=0, excl=()):
    """sum of f(j) for lo <= j < hi.  A body that depends on a comparison j < t is split at t; a body with an equality
    j == x is the general term summed over all j plus the correction f(x) - general term at x."""
    lo, hi = lift(lo), lift(hi)
    n = hi - lo
    if n.is_const():
        k = int(n.const())
        if k <= 0: return T.ZERO
        if k <= 6: return T.tsum([val(f(lo + q)) for q in range(k)])
    p = P()
    j = T.fresh('j', 'I')
    p.bounds.append([j >= lo, j < hi] + [T.not_(T.cmp_(j, '==', x)) for x in excl]); p.bvars.append(j); cut = None
    try: body = val(f(j))
    except SplitAt as s:
        if s.var is not j: raise
        nb = blocks(s.c, j)
        if nb is None: cut = thresholds(s.c, j)
        else: cut = ('blocks', nb)
    finally: p.bounds.pop(); p.bvars.pop()
    if cut is not None and cut[0] == 'blocks':
        nb = cut[1]; (ql, rl), (qh, rh) = divmod_block(lo, nb), divmod_block(hi, nb)
        if rl.m or rh.m: raise Unsupported('sum over parts of blocks')
        return gsum(ql, qh, lambda q: gsum(0, nb, lambda r: f(nb * q + r)))
    if cut is not None:
        if tries > 6: raise Unsupported('sum split does not progress')
        if len(cut) == 2:
            x = cut[0]
            if yes(x >= lo) and yes(x < hi) and not any(yes(T.cmp_(x, '==', y)) for y in excl): return gsum(lo, hi, f, tries + 1, excl + (x,))
            return gsum(lo, hi, f, tries + 1, excl)
        for t in cut:
            if yes(t > lo) and yes(t < hi): return gsum(lo, t, f) + gsum(t, hi, f)
        return gsum(lo, hi, f, tries + 1, excl)
    if not excl and yes(hi <= lo): return T.ZERO
    r = close_sum(body, j, lo, n)
    for x in excl: r = r + val(f(x)) - T.subst(body, {vid(j): x})
    return r

def rewrite(t, f, cache=None):
    """replace atoms (innermost first)"""
    cache = {} if cache is None else cache
    def atom(i):
        if i in cache: return cache[i]
        a = T._atoms[i]
        if a.kind == 'var': r = T.of_atom(a)
        else:
            args = tuple(rewrite(x, f, cache) if isinstance(x, Term) else x for x in a.args)
            if all(x is y or isinstance(x, Term) and not (x - y).m for x, y in zip(args, a.args)): r = f(a)
            else:
                r = T.rebuild(a, args)
                if len(r.m) == 1 and list(r.m.items())[0][1] == 1 and len(list(r.m)[0]) == 1 and list(r.m)[0][0][1] == 1: b = T._atoms[list(r.m)[0][0][0]]; q = f(b) if b.id != i else None; r = r if q is None else q
            if r is None: r = T.of_atom(a)
        cache[i] = r; return r
    if not any(T._atoms[i].kind != 'var' for mono in t.m for i, e in mono): return t
    out = []
    for mono, c in t.m.items():
        r = T.const(c)
        for i, e in mono: r = r * T.tpow_int(atom(i), e)
        out.append(r)
    return T.tsum(out)

def short_sums(t):
    """sums of a fixed small number of terms written out"""
    def f(a):
        if a.kind == 'app' and a.name == 'gsum' and a.args[0].is_const():
            n, body = a.args; k = int(n.const())
            if k > 6: return None
            return T.tsum([T.subst(body, {vid(T.var('B%d' % a.info, 'I')): lift(q)}) for q in range(k)])
    return rewrite(t, f)
def has_idiv(t):
    return any(a_idiv(T._atoms[i]) for mono in t.m for i, e in mono)
def a_idiv(a):
    return a.kind != 'var' and (a.name == 'idiv' or any(isinstance(x, Term) and has_idiv(x) for x in a.args))
def quotients(t):
    """quotients whose value the path fixes"""
    if not has_idiv(t): return t
    p = P()
    def quotient(a):
        if a.kind != 'app' or a.name != 'idiv': return None
        x, n = a.args
        for q in range(-1, 4):
            if p.entails(T.and_(x >= q * n, x < (q + 1) * n)) is True: return lift(q)
    return rewrite(t, quotient)

def close_sum(body, j, lo, n):
    out = []; ji = vid(j)
    for mono, c in body.m.items():
        dep = {}; ind = {}
        for (i, e) in mono: (dep if ji in T._atoms[i].fv else ind)[i] = e
        k = Term({tuple(sorted(ind.items())): c})
        if not dep: out.append(k * n); continue
        b = Term({tuple(sorted(dep.items())): 1}); d = level(b) + 1
        B = T.var('B%d' % d, 'I'); b = T.subst(b, {ji: lo + B})
        if has_idiv(b):
            P().bounds.append([B >= 0, B < n])
            try: b = quotients(b)
            finally: P().bounds.pop()
        if len(b.m) == 1 and list(b.m.values()) == [1]: out.append(k * T.of_atom(T.atom('app', 'gsum', (n, b), 'R', d)))
        else:
            for mm, cc in b.m.items(): out.append(k * cc * T.of_atom(T.atom('app', 'gsum', (n, Term({mm: 1})), 'R', d)))
    return T.tsum(out)

def blocks(c, j):
    """block size when a condition depends on the position of the running index inside its block"""
    if c.op not in ('<', '<=', '=='): return None
    for mono in c.a[0].m:
        for i, e in mono:
            a = T._atoms[i]
            if a.kind == 'app' and a.name == 'idiv' and vid(j) in a.fv:
                x, n = a.args
                if x.m.get(((vid(j), 1),), 0) == 1 and vid(j) not in n.fv(): return n
    return None

def thresholds(c, j):
    """values (independent of j) at which the truth of c can change"""
    if c.op not in ('<', '<=', '=='): raise Unsupported('sum over a condition %r' % (c,))
    t = c.a[0]; ji = vid(j); k = t.m.get(((ji, 1),), 0)
    if k and abs(k) != 1:
        q = t / T.const(abs(k))
        if all(Fr(x).denominator == 1 for x in q.m.values()): t = q; k = 1 if k > 0 else -1
    rest = t - j * k
    if ji in rest.fv() or abs(k) != 1: raise Unsupported('sum over a nonlinear condition %r in %r' % (c, j))
    if c.op == '==': x = rest * (-k); return [x, x + 1]
    if k > 0: return [-rest if c.op == '<' else -rest + 1]       # j < -rest ; j <= -rest
    return [rest + 1 if c.op == '<' else rest]                   # j > rest ; j >= rest

# ------------------------------------------------------------------------------------------ arrays
clock = [0]
class Write:
    """value fn(idx) on the region cover(idx) -> list of conditions; loop: (k, lo, hi) or None; acc: added instead of replaced"""
    def __init__(self, cover, fn, acc=False): self.cover = cover; self.fn = fn; self.acc = acc; self.loop = None
class LoopWrites:
    def __init__(self, k, lo, hi, ws): self.k, self.lo, self.hi, self.ws = k, lo, hi, ws

loops = []        # active symbolic loops

class GArr:
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, shape, fn, boolean=False):
        self.shape = tuple(dim(s) for s in shape); self.fn = fn; self.ws = []; self.base = None; self.born = tuple(loops); self.dead = False
        self.dtype = np.dtype(bool) if boolean else np.dtype(float)
    # --- structure
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self):
        n = lift(1)
        for s in self.shape: n = n * s
        return dim(n)
    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int): return n
        raise Unsupported('len() of a symbolic dimension')
    def root(self): return self if self.base is None else self.base[0].root()
    def get(self, idx):
        if self.base is not None: return self.base[0].get(self.base[1](idx))
        if self.dead: raise Unsupported('array written through a view')
        return read(self, self.ws, len(self.ws), idx, None)
    def frozen(self):
        """element function at this moment"""
        if self.base is not None:
            f = self.base[0].frozen(); m = self.base[1]
            return lambda idx: f(m(idx))
        if self.dead: raise Unsupported('array written through a view')
        n = len(self.ws); ws = self.ws; act = loops[-1] if loops else None
        if n == 0 and act is None: return self.fn
        return lambda idx: read(self, ws, n, idx, act)
    def view(self, shape, m):
        v = GArr(shape, None); v.base = (self, m); v.dtype = self.dtype; return v
    def copy(self, *a, **k):
        return GArr(self.shape, self.frozen(), self.dtype == bool)
    def detach(self):
        """a view that is written becomes an array of its own; its base must not be read any more"""
        f = self.frozen(); r = self.root(); r.dead = True; self.born = r.born
        self.base = None; self.fn = f
    def write(self, cover, fn, acc=False):
        if self.base is not None: self.detach()
        for L in loops:
            if L not in self.born and id(self) not in L.marks: L.marks[id(self)] = len(self.ws); L.known.append(self)
        self.ws.append(Write(cover, fn, acc))
    # --- indexing
    def _key(self, key):
        if not isinstance(key, tuple): key = (key,)
        nk = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if not isinstance(k, (GArr, np.ndarray, Term, Cond))]:
            i = [n for n, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (self.ndim - nk) + key[i + 1:]
        else: key = key + (slice(None),) * (self.ndim - nk)
        return key
    def _plan(self, key):
        """(result shape, map result idx -> own idx, cover conditions of own idx, own idx -> result idx)"""
        key = self._key(key); shape = []; steps = []; d = 0
        for k in key:
            if k is None: steps.append(('new', None, None)); shape.append(1); continue
            n = self.shape[d]
            if isinstance(k, slice):
                if k.step is not None and not (isc(k.step) and dim(k.step) == 1):
                    lo, ln, st = strided(k, n); steps.append(('slice', d, (lo, ln, st))); shape.append(ln); d += 1; continue
                lo, hi = bound(k.start, n, 0), bound(k.stop, n, n)
                if lo is not None and hi is not None and not (isc(lo) and isc(hi)) or True:
                    ln = lift(hi) - lo
                    if not ln.is_const():
                        if not yes(ln >= 0): ln = T.ZERO
                    elif ln.const() < 0: ln = T.ZERO
                steps.append(('slice', d, (lift(lo), ln, 1))); shape.append(ln); d += 1; continue
            if isinstance(k, GArr) and k.ndim == 1 or isinstance(k, np.ndarray) and k.ndim == 1:
                g = as_g(k)
                if g.dtype == bool:
                    lo, hi = prefix(g); steps.append(('slice', d, (lo, hi - lo, 1))); shape.append(hi - lo); d += 1; continue
                f = g.frozen(); steps.append(('gather', d, (f, g.shape[0]))); shape.append(g.shape[0]); d += 1; continue
            i = I(k)
            if i.is_const() and i.const() < 0: i = i + n
            steps.append(('int', d, i)); d += 1
        def to_own(idx):
            r = [None] * self.ndim; p = 0
            for kind, dd, a in steps:
                if kind == 'new': p += 1
                elif kind == 'slice': r[dd] = a[0] + a[2] * lift(idx[p]); p += 1
                elif kind == 'gather': r[dd] = val(a[0]((lift(idx[p]),))); p += 1
                else: r[dd] = a
            return tuple(r)
        def cover(idx):
            cs = []
            for kind, dd, a in steps:
                if kind == 'slice':
                    if not (isc(a[2]) and dim(a[2]) == 1):
                        off = a[0] if isc(a[2]) else T.ZERO; q, r = kdiv(lift(idx[dd]) - off, a[2]); cs.append(('range', r - a[0] + off, T.UNIT)); cs.append(('range', q, lift(a[1]))); continue
                    cs.append(('range', lift(idx[dd]) - a[0], lift(a[1])))
                elif kind == 'int': cs.append(('range', lift(idx[dd]) - a, T.UNIT))
                elif kind == 'gather': raise Unsupported('scattered write')
            return cs
        def back(idx):
            r = []
            for kind, dd, a in steps:
                if kind == 'new': r.append(T.ZERO)
                elif kind == 'slice': r.append(lift(idx[dd]) - a[0] if isc(a[2]) and dim(a[2]) == 1 else kdiv(lift(idx[dd]) - a[0] if isc(a[2]) else idx[dd], a[2])[0])
            return tuple(r)
        return tuple(dim(s) for s in shape), to_own, cover, back
    def __getitem__(self, key):
        if real_mask(key, self): return Masked(GArr(self.shape, self.frozen(), self.dtype == bool), key)
        shape, m, _, _ = self._plan(key)
        if not shape and (not isinstance(key, tuple) or all(k is not None for k in key)): return self.get(m(()))
        if any(isinstance(k, (GArr, np.ndarray)) for k in (key if isinstance(key, tuple) else (key,))):
            f = self.frozen(); return GArr(shape, lambda idx: f(m(idx)), self.dtype == bool)     # a copy, not a view
        v = self.view(shape, m); v.via = key; return v
    def __setitem__(self, key, v):
        if real_mask(key, self):
            if isinstance(v, Masked): v.same(key); v = v.g
            f, c, b = GArr(self.shape, self.frozen()), GArr(key.shape, key.frozen(), True), self.dtype == bool
            self[(slice(None),) * self.ndim] = ew(lambda p, x, y: x if p is True else y if p is False else T.ite(T.as_cond(p), val(x), val(y)), c, v, f); return
        if self.base is not None: self.detach()
        shape, _, cover, back = self._plan(key)
        g = as_g(v)
        f = bcast(g, shape)
        self.write(cover, lambda idx: f(back(idx)))
    def __iter__(self):
        if not isinstance(self.shape[0], int): return iter(GIter(T.ZERO, self.shape[0], lambda k: self[k]))
        return iter([self[k] for k in range(len(self))])
    # --- arithmetic
    def __iadd__(self, o): return self._inplace(o, 1)
    def __isub__(self, o): return self._inplace(-1 * as_g(o) if True else o, 1)
    def _inplace(self, o, s):
        g = as_g(o); f = bcast(g, self.shape)
        if self.base is not None: return self._through(self + o)
        self.write(lambda idx: [], f, acc=True); return self
    def _through(self, r):
        if not hasattr(self, 'via'): raise Unsupported('in-place operation on a view')
        self.base[0][self.via] = r; return self
    def __imul__(self, o): r = self * o; return self._full(r)
    def __itruediv__(self, o): r = self / o; return self._full(r)
    def _full(self, r):
        if self.base is not None: return self._through(r)
        f = r.frozen()
        self.write(lambda idx: [], f); return self
    def __neg__(self): return ew(lambda a: -val(a), self)
    def __pos__(self): return self
    def __invert__(self): return ew(lambda a: T.not_(T.as_cond(a)), self, boolean=True)
    @property
    def T(self):
        if self.ndim < 2: return self
        n = self.ndim
        return self.view(self.shape[::-1], lambda idx: tuple(idx[::-1]))
    def transpose(self): return self.T
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def dot(self, o): return matmul(self, o) if as_g(o).ndim else self * o
    def sum(self, axis=None, keepdims=False, **k): return gnp_sum(self, axis, keepdims)
    def mean(self, axis=None): return gnp_sum(self, axis) / (lift(self.size) if axis is None else self.shape[axis])
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return reshape(self, shape, order)
    def astype(self, d, **k): return self
    def ravel(self, order='C'): return reshape(self, (-1,), order)
    def flatten(self, order='C'): return reshape(self, (-1,), order)
    def squeeze(self, axis=None):
        keep = [n for n, s in enumerate(self.shape) if not (isinstance(s, int) and s == 1)]
        def m(idx):
            r = [T.ZERO] * self.ndim
            for q, n in enumerate(keep): r[n] = idx[q]
            return tuple(r)
        return self.view([self.shape[n] for n in keep], m)
    def item(self): return I(self)
    def max(self, *a, **k): raise Unsupported('max of a symbolic array')
    def min(self, *a, **k): raise Unsupported('min of a symbolic array')
    def any(self, *a, **k): raise Unsupported('any')
    def all(self, *a, **k): raise Unsupported('all')
    def __bool__(self):
        if self.ndim == 0 or all(isinstance(s, int) and s == 1 for s in self.shape): return bool(self.get(tuple(T.ZERO for _ in self.shape)))
        raise Unsupported('truth value of a symbolic array')
    def __float__(self): raise Unsupported('float of a symbolic array')

def _bin(name, f, boolean=False, swap=False):
    def op(self, o):
        if o is None: return NotImplemented
        return ew(f, o, self, boolean=boolean) if swap else ew(f, self, o, boolean=boolean)
    setattr(GArr, name, op)
_F = {'add': lambda a, b: val(a) + val(b), 'sub': lambda a, b: val(a) - val(b), 'mul': lambda a, b: val(a) * val(b),
      'truediv': lambda a, b: val(a) / val(b), 'pow': lambda a, b: val(a) ** val(b), 'mod': lambda a, b: val(a) % val(b), 'floordiv': lambda a, b: val(a) // val(b)}
for _n, _f in _F.items():
    _bin('__%s__' % _n, _f); _bin('__r%s__' % _n, _f, swap=True)
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    _bin('__%s__' % _n, (lambda o: lambda a, b: T.cmp_(val(a), o, val(b)))(_o), boolean=True)
_bin('__and__', lambda a, b: T.and_(a, b), boolean=True); _bin('__or__', lambda a, b: T.or_(a, b), boolean=True)

def in_range(t, n):
    """0 <= t < n"""
    if isc(n) and lift(n).const() == 1: return yes(T.cmp_(lift(t), '==', T.ZERO))
    return yes(t >= 0) and yes(t < n)

def read(arr, ws, n, idx, act):
    idx = tuple(lift(i) for i in idx)
    total = None
    for w in reversed(ws[:n]):
        if isinstance(w, LoopWrites):
            hit = loop_hit(w, idx)
            if hit == 'acc': raise Unsupported('accumulation mixed with writes')
            if hit is None: continue
            kind, v = hit
            if kind == 'set': return v if total is None else total + val(v)
            total = val(v) if total is None else total + val(v); continue
        if w.loop is not None and act is not w.loop and any(l is w.loop for l in loops): pass
        if covers(w, idx):
            v = w.fn(idx)
            if not w.acc: return v if total is None else total + val(v)
            total = val(v) if total is None else total + val(v)
    # a value read inside a loop iteration: no earlier iteration may have written it
    if act is not None and act.closed is not None:
        lw = act.closed.get(id(arr))
        if lw is not None:
            for w in lw.ws:
                if w.acc: raise Unsupported('accumulator read inside its loop')
                k = solve_iter(lw, w, idx)
                if k is not None and yes(k < act.k): raise Unsupported('value carried between iterations')
    v = arr.fn(idx)
    return v if total is None else total + val(v)

def covers(w, idx):
    for kind, t, n in w.cover(idx):
        if not in_range(t, n): return False
    return True

def never(lw, t, n):
    """no iteration has 0 <= t < n (t linear in the iteration)"""
    ki = vid(lw.k); c = t - T.subst(t, {ki: T.ZERO})
    if any(dict(m).get(ki, 0) != 1 for m in c.m): return False
    a, b = T.subst(t, {ki: lw.lo}), T.subst(t, {ki: lw.hi - 1}); p = P()
    for x in ((lambda v: v >= n), (lambda v: v < 0)):
        if p.entails(x(a)) is True and p.entails(x(b)) is True: return True
    return False

def chains(lw):
    for w in lw.ws:
        if isinstance(w, LoopWrites):
            for c, x in chains(w): yield (lw,) + c, x
        else: yield (lw,), w

def solve_nest(chain, w, idx):
    """iterations of nested loops that make w cover idx: a substitution, or None"""
    mp = {}; todo = list(chain)
    while todo:
        for n, lw in enumerate(todo):
            others = {vid(x.k) for x in todo if x is not lw}
            cov = [(a, T.subst(lift(t), mp), T.subst(lift(m), mp)) for a, t, m in w.cover(idx)]
            cov = [q for q in cov if not (q[1].fv() | q[2].fv()) & others]
            if not any(vid(lw.k) in q[1].fv() for q in cov): continue
            v = Write(lambda idx, cov=cov: cov, None); L = LoopWrites(lw.k, T.subst(lw.lo, mp), T.subst(lw.hi, mp), ())
            k = solve_iter(L, v, idx)
            if k is None: return None
            mp[vid(lw.k)] = k; todo.pop(n); break
        else: raise Unsupported('iteration of a nested write')
    for a, t, m in w.cover(idx):
        if not in_range(T.subst(lift(t), mp), T.subst(lift(m), mp)): return None
    return mp

def nest_hit(lw, idx):
    hit = None
    for chain, w in chains(lw):
        if w.acc: raise Unsupported('accumulation in nested loops')
        mp = solve_nest(chain, w, idx)
        if mp is None: continue
        if hit is not None: raise Unsupported('several writes in nested loops')
        hit = (chain, w, mp)
    if hit is None: return None
    chain, w, mp = hit
    p = P()
    p.bounds.append([T.cmp_(lw.k, '==', mp[vid(lw.k)]) for lw in chain])
    try: v = val(w.fn(idx))
    finally: p.bounds.pop()
    return ('set', T.subst(v, mp))

def solve_iter(lw, w, idx):
    """iteration that makes w cover idx (a term), or None"""
    ki = vid(lw.k); cand = None
    for kind, t, n in w.cover(idx):
        if ki not in t.fv(): continue
        # 0 <= t(k) < n : t = nd*q(k) + s, n = nd  or n = 1
        if n.is_const() and n.const() == 1: q = t
        else:
            q = None
            for nd in P().dims:
                if (n - nd).m == {}:
                    q, s = factor(t, nd)
                    if s.m and P().entails(T.and_(s >= 0, s < nd)) is not True: q = None
            ck = (t - T.subst(t, {ki: T.ZERO})) if q is None else None
            if q is None and never(lw, t, n): return None
            if q is None and (T.subst(ck, {ki: T.UNIT}) - n).m == {} and (ck - n * lw.k).m == {}: q = divmod_block(t - ck, n)[0] + lw.k
            elif q is None and (ck + n * lw.k).m == {}: q = divmod_block(t - ck, n)[0] - lw.k
            if q is None:
                raise Unsupported('region of a loop write')
        if ki not in q.fv(): continue
        c = q.m.get(((ki, 1),), 0); rest = q - lw.k * c
        if ki in rest.fv() or not c: raise Unsupported('nonlinear region of a loop write')
        sol = rest * Fr(-1, 1) / T.const(c)
        if not sol.int_sorted() and not sol.is_const(): raise Unsupported('iteration of a write')
        fr = [m for m, cc in sol.m.items() if Fr(cc).denominator != 1]
        if fr:
            if all(m == () for m in fr): return None          # parity: never
            continue                                          # decided by the substitution below if another dimension gives the iteration
        if cand is None: cand = sol
    if cand is None: raise Unsupported('iteration of a write')
    if not (yes(cand >= lw.lo) and yes(cand < lw.hi)): return None
    for kind, t, n in w.cover(idx):
        if not in_range(T.subst(t, {ki: cand}), T.subst(lift(n), {ki: cand})): return None
    return cand

def loop_hit(lw, idx):
    if any(isinstance(w, LoopWrites) for w in lw.ws): return nest_hit(lw, idx)
    if all(w.acc for w in lw.ws):
        if getattr(lw, 'forked', False): raise Unsupported('accumulation over iterations of different kinds')
        tot = T.ZERO
        for w in lw.ws:
            ki = vid(lw.k)
            def f(j, w=w):
                for kind, t, n in w.cover(idx):
                    if not in_range(T.subst(t, {ki: j}), n): return T.ZERO
                return T.subst(val(w.fn(idx)), {ki: j})
            tot = tot + gsum(lw.lo, lw.hi, f)
        return ('acc', tot)
    if any(w.acc for w in lw.ws): return 'acc'
    best = None
    for n, w in enumerate(lw.ws):
        k = solve_iter(lw, w, idx)
        if k is None: continue
        if best is None or yes(best[0] <= k): best = (k, w)
    if best is None: return None
    k, w = best
    p = P()
    # the value of that iteration
    v = at_iter(lw, w, idx, k)
    return ('set', v)

def at_iter(lw, w, idx, k):
    """value of write w at idx in iteration k: the recorded value with the iteration substituted"""
    p = P(); ki = vid(lw.k)
    p.alias = getattr(p, 'alias', {})
    j = lw.k
    p.bounds.append([T.cmp_(j, '==', k)])
    try: v = val(w.fn(idx))
    finally: p.bounds.pop()
    return T.subst(v, {ki: k})

def bound(x, n, default):
    """effective slice bound with the clamping of Python slices"""
    if x is None: return lift(default)
    x = I(x); n = lift(n)
    if x.is_const() and x.const() < 0:
        x = n + x
        if x.is_const(): return x if x.const() >= 0 else T.ZERO
        return x if yes(x >= 0) else T.ZERO
    if not x.is_const() and not yes(x >= 0):
        x = n + x
        if x.is_const(): return x if x.const() >= 0 else T.ZERO
        return x if yes(x >= 0) else T.ZERO
    if (x - n).m == {}: return x
    return x if yes(x <= n) else n

def strided(k, n):
    if not isc(k.step):          # step d over q full blocks, starting inside the first block
        st = dim(k.step); q, r = divmod_block(n, st); lo = I(k.start if k.start is not None else 0)
        if r.m or k.stop is not None or not (yes(lo >= 0) and yes(lo < st)): raise Unsupported('strided slice')
        return lo, q, st
    st = int(lift(k.step).const())
    if st <= 0: raise Unsupported('negative slice step')
    lo, hi = bound(k.start, n, 0), bound(k.stop, n, n)
    d = lift(hi) - lo
    ln = (d + (st - 1)) / st
    if not ln.is_int():
        # length by parity
        fl = None
        for r in range(st):
            c = (d - r) / st
            if c.is_int(): fl = c + (1 if r else 0)
        if fl is None: raise Unsupported('strided length')
        ln = fl
    return lift(lo), ln, st

def prefix(g):
    """(lo, hi) of a boolean mask that is an interval"""
    f = g.frozen(); n = lift(g.shape[0]); p = P()
    def pieces(lo, hi, tries=0):
        if (hi - lo).m == {}: return []
        j = T.fresh('j', 'I'); p.bounds.append([j >= lo, j < hi]); p.bvars.append(j); cut = None
        try: v = yes(f((j,)))
        except SplitAt as s:
            if s.var is not j: raise
            cut = thresholds(s.c, j)
        finally: p.bounds.pop(); p.bvars.pop()
        if cut is None: return [(lo, hi, v)]
        for t in cut:
            if yes(t > lo) and yes(t < hi): return pieces(lo, t) + pieces(t, hi)
        if tries > 3: raise Unsupported('mask')
        return pieces(lo, hi, tries + 1)
    out = []
    for lo, hi, v in pieces(T.ZERO, n):
        if out and out[-1][2] == v: out[-1] = (out[-1][0], hi, v)
        else: out.append((lo, hi, v))
    t = [(lo, hi) for lo, hi, v in out if v]
    if not t: return T.ZERO, T.ZERO
    if len(t) > 1: raise Unsupported('mask that is not an interval')
    return t[0]

def real_mask(key, a):
    """a boolean array of the same shape whose entries depend on values (not only on positions and sizes)"""
    if not isinstance(key, GArr) or key.dtype != bool or key.ndim != a.ndim or not a.ndim: return False
    if not all(same_dim(x, y) for x, y in zip(key.shape, a.shape)): return False
    js = tuple(T.fresh('j', 'I') for _ in key.shape); p = P(); p.bounds.append([c for j, n in zip(js, key.shape) for c in (j >= 0, j < n)]); p.bvars.extend(js)
    try: c = key.frozen()(js)
    except SplitAt: return False
    finally:
        p.bounds.pop()
        for _ in js: p.bvars.pop()
    return isinstance(c, Cond) and c.op not in ('true', 'false') and not intc(c)

class Masked:
    """a[mask]: the entries of an array selected by value; element by element operations with selections of the same mask"""
    ndim = 1; __array_ufunc__ = None
    def __init__(self, g, mask): self.g = g; self.mask = mask; self.dtype = g.dtype
    def same(self, mask):
        if mask is self.mask: return
        js = tuple(T.fresh('j', 'I') for _ in self.g.shape); a, b = self.mask.frozen()(js), mask.frozen()(js)
        if repr(a) != repr(b): raise Unsupported('selections by different masks')
    @property
    def shape(self): raise Unsupported('number of selected entries')
for _n in 'add sub mul truediv pow lt le gt ge eq ne and or'.split():
    def _mk(n):
        def op(self, o):
            if isinstance(o, Masked): self.same(o.mask); o = o.g
            elif as_g(o).ndim: raise Unsupported('selection combined with an array')
            return Masked(getattr(self.g, n)(o), self.mask)
        return op
    setattr(Masked, '__%s__' % _n, _mk('__%s__' % _n))
    if _n in ('add', 'sub', 'mul', 'truediv', 'pow'): setattr(Masked, '__r%s__' % _n, _mk('__r%s__' % _n))
Masked.__neg__ = lambda self: Masked(-self.g, self.mask)
Masked.__hash__ = None

def as_g(x):
    if isinstance(x, Masked): raise Unsupported('selected entries')
    if isinstance(x, GArr): return x
    if isinstance(x, (Term, Cond, int, float, bool, Fr, np.generic)):
        e = elem(x); return GArr((), lambda idx: e, isinstance(e, Cond))
    if isinstance(x, np.ndarray):
        a = x
        def f(idx):
            pos = []
            for d, i in enumerate(idx):
                i = lift(i)
                if i.is_const(): pos.append(int(i.const())); continue
                for q in range(a.shape[d]):
                    if q == a.shape[d] - 1 or yes(i == q): pos.append(q); break
            return elem(a[tuple(pos)])
        return GArr(a.shape, f, a.dtype == bool)
    if isinstance(x, (list, tuple)):
        gs = [as_g(v) for v in x]
        return stack(gs)
    if isinstance(x, GIter): lo = x.lo; return new((x.hi - lo,), lambda i, x=x: x.item(lo + i[0]))
    raise Unsupported('array from %r' % type(x))

def stack(gs):
    fs = [g.frozen() for g in gs]; sh = gs[0].shape if gs else ()
    def f(idx):
        i = lift(idx[0])
        for q in range(len(fs)):
            if q == len(fs) - 1 or yes(i == q): return fs[q](tuple(idx[1:]))
    return GArr((len(gs),) + tuple(sh), f, all(g.dtype == bool for g in gs) and bool(gs))

def same_dim(a, b):
    d = lift(a) - lift(b)
    if d.is_const(): return d.const() == 0
    return yes(T.cmp_(d, '==', T.ZERO))

def bcast(g, shape):
    """element function of g broadcast to shape"""
    f = g.frozen(); k = len(shape) - g.ndim
    if k < 0:
        if all(isinstance(s, int) and s == 1 for s in g.shape[:-k]):
            extra = -k
            sh = g.shape[extra:]
            f0 = f
            f = lambda idx: f0((T.ZERO,) * extra + tuple(idx)); k = 0
            g = GArr(sh, f)
        else: raise ValueError('could not broadcast input array')
    one = []
    for d, s in enumerate(g.shape):
        t = shape[d + k]
        if isinstance(s, int) and s == 1 and not (isinstance(t, int) and t == 1): one.append(True)
        else:
            if not same_dim(s, t): raise ValueError('operands could not be broadcast together: %r %r' % (g.shape, shape))
            one.append(False)
    def h(idx):
        if len(idx) != len(shape): raise Unsupported('rank')
        return f(tuple(T.ZERO if one[d] else idx[d + k] for d in range(g.ndim)))
    return h

def ew(f, *xs, boolean=False):
    ms = [x for x in xs if isinstance(x, Masked)]
    if ms:
        for x in ms: x.same(ms[0].mask)
        if any(not isinstance(x, Masked) and as_g(x).ndim for x in xs): raise Unsupported('selection combined with an array')
        return Masked(ew(f, *[x.g if isinstance(x, Masked) else x for x in xs], boolean=boolean), ms[0].mask)
    gs = [as_g(x) for x in xs]
    nd = max(g.ndim for g in gs)
    shape = []
    for d in range(nd):
        cur = None
        for g in gs:
            p = d - (nd - g.ndim)
            if p < 0: continue
            s = g.shape[p]
            if cur is None or (isinstance(cur, int) and cur == 1): cur = s
            elif not (isinstance(s, int) and s == 1) and not same_dim(s, cur): raise ValueError('operands could not be broadcast together')
        shape.append(cur)
    fs = [bcast(g, shape) for g in gs]
    if nd == 0:
        r = f(*[h(()) for h in fs]); return r
    return GArr(shape, lambda idx: f(*[h(idx) for h in fs]), boolean)

def matmul(a, b):
    a, b = as_g(a), as_g(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError('matmul of a scalar')
    n = a.shape[-1]; m = b.shape[-2] if b.ndim >= 2 else b.shape[0]
    if not same_dim(n, m): raise ValueError('matmul: inner dimensions differ')
    fa, fb = a.frozen(), b.frozen()
    if a.ndim == 1 and b.ndim == 1: return gsum(0, n, lambda j: val(fa((j,))) * val(fb((j,))))
    if a.ndim == 2 and b.ndim == 1: return GArr((a.shape[0],), lambda idx: gsum(0, n, lambda j: val(fa((idx[0], j))) * val(fb((j,)))))
    if a.ndim == 1 and b.ndim == 2: return GArr((b.shape[1],), lambda idx: gsum(0, n, lambda j: val(fa((j,))) * val(fb((j, idx[0])))))
    if a.ndim == 2 and b.ndim == 2: return GArr((a.shape[0], b.shape[1]), lambda idx: gsum(0, n, lambda j: val(fa((idx[0], j))) * val(fb((j, idx[1])))))
    raise Unsupported('matmul of higher rank')

def gnp_sum(x, axis=None, keepdims=False, **k):
    g = as_g(x); f = g.frozen()
    if axis is None:
        def rec(pre):
            if len(pre) == g.ndim: return val(f(tuple(pre)))
            return gsum(0, g.shape[len(pre)], lambda j: rec(pre + [j]))
        return rec([])
    ax = axis % g.ndim
    shape = g.shape[:ax] + ((1,) if keepdims else ()) + g.shape[ax + 1:]
    def h(idx):
        idx = list(idx)
        if keepdims: idx.pop(ax)
        return gsum(0, g.shape[ax], lambda j: val(f(tuple(idx[:ax] + [j] + idx[ax:]))))
    return GArr(shape, h) if shape else h(())

def divmod_block(i, n):
    """i = n*q + r with 0 <= r < n"""
    i = lift(i); n = lift(n)
    if n.is_const():
        if n.const() == 1: return i, T.ZERO
        if i.is_const(): return lift(int(i.const()) // int(n.const())), lift(int(i.const()) % int(n.const()))
        k = int(n.const())
        for r in range(k):
            q = (i - r) / k
            if q.is_int(): return q, lift(r)
        raise Unsupported('index modulo')
    if len(n.m) == 1 and list(n.m.values()) == [1] and len(list(n.m)[0]) == 1:
        q, s = factor(i, n)
        if not s.m or P().entails(T.and_(s >= 0, s < n)) is True: return q, s
        if P().entails(T.and_(s < 0, -s <= n)) is True: return q - 1, s + n
        if not q.m and yes(T.and_(i >= 0, i < n)): return T.ZERO, i
    for lead, lc in sorted(n.m.items(), key=lambda q: -sum(e for _, e in q[0])):
        if not lead: continue
        q = {}                                     # division by a size that is a sum: the monomials with its leading one
        for mono, c in i.m.items():
            d = dict(mono)
            if all(d.get(v, 0) >= e for v, e in lead):
                for v, e in lead: d[v] -= e
                q[tuple(sorted((v, e) for v, e in d.items() if e))] = Fr(c) / Fr(lc)
        q = Term({m: Fr(math.floor(c)) for m, c in q.items() if math.floor(c)})
        for _ in range(2):
            r = i - n * q
            if not r.m or P().entails(T.and_(r >= 0, r < n)) is True: return q, r
            q = q - 1
    if yes(i < n): return T.ZERO, i
    raise Unsupported('index modulo a symbolic size %r mod %r' % (i, n))

def reshape(a, shape, order='C'):
    a = as_g(a)
    if not isinstance(shape, (tuple, list)): shape = (shape,)
    shape = [dim(s) if not isinstance(s, GArr) else dim(I(s)) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        n = lift(a.size)
        for s in shape:
            if not (isinstance(s, int) and s == -1): n = n / lift(s)
        if not n.is_int(): raise Unsupported('reshape size')
        shape = [dim(n) if isinstance(s, int) and s == -1 else s for s in shape]
    else:
        n = lift(1)
        for s in shape: n = n * s
        if not same_dim(n, a.size): raise ValueError('cannot reshape array')
    src = a.shape
    def flat(idx, sh):
        t = T.ZERO; m = T.UNIT
        it = range(len(sh)) if order == 'F' else reversed(range(len(sh)))
        for d in it: t = t + m * lift(idx[d]); m = m * sh[d]
        return t
    def unflat(t, sh):
        r = [None] * len(sh)
        it = list(range(len(sh))) if order == 'F' else list(reversed(range(len(sh))))
        big = [d for d in it if not (isinstance(sh[d], int) and sh[d] == 1)]
        for d in it: r[d] = T.ZERO
        for q, d in enumerate(big):
            if q == len(big) - 1: r[d] = t
            else: t, r[d] = divmod_block(t, sh[d])
        return tuple(r)
    return a.view(shape, lambda idx: unflat(flat(idx, shape), src))

# ------------------------------------------------------------------------------------------ loops
class Loop:
    def __init__(self, k): self.k = k; self.closed = None; self.known = []; self.marks = {}

def snapshot_arrays(frame): return None

class GIter:
    """iteration over a symbolic range: leading iterations are peeled, then one arbitrary iteration stands for the rest"""
    def __init__(self, lo, hi, item, frame_depth=2): self.lo, self.hi, self.item = lift(lo), lift(hi), item
    def __reversed__(self): lo, hi, item = self.lo, self.hi, self.item; return GIter(lo, hi, lambda k: item(lo + hi - 1 - k))
    def __iter__(self):
        fr = sys._getframe(1)
        if fr.f_code is loops_mod.Loop.turns.__code__: fr = fr.f_back
        lo, hi = self.lo, self.hi
        if not yes(lo < hi): return
        if PEEL[0]:
            yield self.item(lo)
            lo = lo + 1
            if not yes(lo < hi): return
        k = T.fresh('k', 'I'); p = P(); p.assume(k >= lo); p.assume(k < hi)
        L = Loop(k); loops.append(L)
        live, before = carried(fr); snap = loops_mod.snapshot(fr.f_locals)
        known = len(p.pc)
        yield self.item(k)
        loops.pop()
        carried_check(fr, live, before); loops_mod.unchanged(snap)
        forked = any(vid(k) in c.fv() for c in p.pc[known:])       # the body depends on a case distinction on the iteration
        closed = {}
        for a in L.known:
            new = a.ws[L.marks[id(a)]:]
            if new:
                del a.ws[L.marks[id(a)]:]
                lw = LoopWrites(k, lo, hi, new); lw.forked = forked; a.ws.append(lw); closed[id(a)] = lw
        L.closed = closed
PEEL = [True]
journal = []          # arrays that can be written in place (created by zeros, copy, ...)

_trees = {}
def loop_node(fr):
    fn = fr.f_code.co_filename
    if fn not in _trees:
        with open(fn) as f: _trees[fn] = ast.parse(f.read())
    best = None
    for n in ast.walk(_trees[fn]):
        if isinstance(n, (ast.For, ast.comprehension)) and getattr(n, 'lineno', None) is not None and n.lineno <= fr.f_lineno <= n.end_lineno and isinstance(n, ast.For):
            if best is None or n.lineno > best.lineno and n.lineno <= fr.f_lineno: best = n
    return best

def stores(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

def exposed(body):
    """names possibly read before they are written in one iteration"""
    out = set(); done = set()
    def expr(e, d):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d: out.add(n.id)
    def block(b, d):
        for s in b: d = stmt(s, d)
        return d
    def stmt(s, d):
        if isinstance(s, ast.Assign):
            expr(s.value, d)
            for t in s.targets:
                if not isinstance(t, ast.Name): 
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d: out.add(n.id)
            return d | {n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if isinstance(s, ast.AugAssign):
            expr(s.value, d)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name) and n.id not in d: out.add(n.id)
            return d
        if isinstance(s, ast.If):
            expr(s.test, d); a = block(s.body, d); b = block(s.orelse, d)
            return a & b
        if isinstance(s, (ast.For, ast.While)):
            expr(s.iter if isinstance(s, ast.For) else s.test, d)
            d2 = d | (stores(s.target) if isinstance(s, ast.For) else set())
            block(s.body, d2); return d
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d: out.add(n.id)
        return d | stores(s)
    block(body, set())
    return out

def follow(fnode, loop):
    """names possibly read after the loop before they are written again"""
    def path(node):
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            for k, q in enumerate(getattr(node, f, None) or []):
                if q is loop: return [(node, f, k)]
                if hasattr(q, 'body') and q.lineno <= loop.lineno <= q.end_lineno:
                    r = path(q)
                    if r is not None: return [(node, f, k)] + r
        return None
    pa = path(fnode)
    if pa is None: return {q.id for q in ast.walk(fnode) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load)}
    body = []
    for node, f, k in reversed(pa):
        body += getattr(node, f)[k + 1:]
        if isinstance(node, ast.Try): body += node.finalbody + node.orelse
        if isinstance(node, (ast.For, ast.While)): body += [ast.copy_location(ast.Expr(node.iter if isinstance(node, ast.For) else node.test), node)] + node.body + node.orelse
    return exposed(body)

def carried(fr):
    n = loop_node(fr)
    if n is None: raise Unsupported('loop not found')
    st = set()
    for s in n.body: st |= stores(s)
    tgt = stores(n.target)
    ex = exposed(n.body)
    after = set()
    fnode = None
    for q in ast.walk(_trees[fr.f_code.co_filename]):
        if isinstance(q, ast.FunctionDef) and q.lineno <= n.lineno and n.end_lineno <= q.end_lineno:
            if fnode is None or q.lineno > fnode.lineno: fnode = q
    after = follow(fnode, n)
    live = (st & (ex | after)) - tgt
    if tgt & after: live |= tgt & set()
    loc = fr.f_locals
    return live, {k: loc.get(k) for k in live}

def carried_check(fr, live, before):
    loc = fr.f_locals
    for k in live:
        a, b = before.get(k), loc.get(k)
        if a is b: continue
        if isinstance(a, (int, float, Term)) and isinstance(b, (int, float, Term)) and (lift(a) - lift(b)).m == {}: continue
        raise Unsupported('variable %s is carried between iterations' % k)

def g_range(*a):
    if all(isinstance(x, int) and not isinstance(x, Term) for x in a): return builtins.range(*a)
    a = [I(x) if not isinstance(x, int) else lift(x) for x in a]
    if all(x.is_const() for x in a): return builtins.range(*[int(x.const()) for x in a])
    if len(a) == 1: lo, hi = T.ZERO, a[0]
    elif len(a) == 2: lo, hi = a
    elif a[2].is_const() and a[2].const() == 1: lo, hi = a[:2]
    elif a[2].is_const() and a[2].const() == -1: return GRev(a[1] + 1, a[0] + 1)
    else: raise Unsupported('range with a step')
    return GIter(lo, hi, lambda k: k)

def from_zero(it):
    """precondition of a loop contract that counts turns from zero"""
    if not isinstance(it, GIter) or lift(it.lo).m: raise Unsupported('a loop that does not count from zero')

class GRev:
    """hi - 1, ..., lo"""
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def __iter__(self): raise Unsupported('descending range of symbolic length')

class GList:
    """a list of any length; item(k) is its k-th element"""
    def __init__(self, n, item): self.n = lift(n); self.item = item
    def __iter__(self): return iter(_peelless(self))
    def __len__(self): raise Unsupported('len() of a symbolic list')
    def __add__(self, o): return GList2(self, list(o))
def _peelless(l):
    return GIter(T.ZERO, l.n, l.item)

def g_len(x):
    if isinstance(x, GArr): return x.shape[0]
    if isinstance(x, GList): return x.n
    return builtins.len(x)

def g_zip(*xs, **k):
    """several symbolic sequences of the same length side by side"""
    def seq(x):
        if isinstance(x, GIter): return x.hi - x.lo, lambda j: x.item(x.lo + j)
        if isinstance(x, GList): return x.n, x.item
        if isinstance(x, GArr) and not isinstance(x.shape[0], int): return x.shape[0], lambda j: x[j]
        return None
    s = [seq(x) for x in xs]
    if not any(s): return builtins.zip(*xs, **k)
    if not all(s) or not all(same_dim(s[0][0], n) for n, _ in s): raise Unsupported('zip of different lengths')
    return GIter(T.ZERO, s[0][0], lambda j: tuple(f(j) for _, f in s))
def g_enumerate(x, start=0):
    if isinstance(x, GIter): return GIter(T.ZERO, x.hi - x.lo, lambda j: (j + start, x.item(x.lo + j)))
    if isinstance(x, GList): return GIter(T.ZERO, x.n, lambda k: (k + start, x.item(k)))
    if isinstance(x, GArr) and not isinstance(x.shape[0], int): return GIter(T.ZERO, x.shape[0], lambda k: (k + start, x[k]))
    return builtins.enumerate(x, start)

# ------------------------------------------------------------------------------------------ numpy
def new(shape, fn, boolean=False):
    a = GArr(shape, fn, boolean); journal.append(a); return a
def shp(s):
    if isinstance(s, (tuple, list)): return tuple(dim(I(x)) for x in s)
    return (dim(I(s)),)

class GNPt:
    ndarray = GArr; pi = T.PI; nan = float('nan'); inf = float('inf'); double = float; float64 = float; int64 = int; newaxis = None; bool_ = bool; e = None
    number = (Term, float, int); integer = int; floating = float; generic = np.generic
    def zeros(self, s, dtype=None, **k): b = dtype is bool; return new(shp(s), lambda idx: T.FALSE if b else T.ZERO, b)
    def ones(self, s, dtype=None, **k): b = dtype is bool; return new(shp(s), lambda idx: T.TRUE if b else T.UNIT, b)
    def full(self, s, v, dtype=None): e = elem(v); return new(shp(s), lambda idx: e, isinstance(e, Cond))
    def zeros_like(self, a, **k): return self.zeros(as_g(a).shape) if as_g(a).ndim else T.ZERO
    def ones_like(self, a, **k): return self.ones(as_g(a).shape) if as_g(a).ndim else T.UNIT
    def empty(self, s, **k): return self.zeros(s)
    def eye(self, n, M=None, **k): n = dim(I(n)); return new((n, n if M is None else dim(I(M))), lambda idx: T.UNIT if yes(T.cmp_(lift(idx[0]) - lift(idx[1]), '==', T.ZERO)) else T.ZERO)
    identity = eye
    def copy(self, a, **k): g = as_g(a); return new(g.shape, g.frozen(), g.dtype == bool)
    def array(self, x, dtype=None, **k): 
        g = as_g(x); return new(g.shape, g.frozen(), g.dtype == bool)
    def asarray(self, x, *a, **k): return x if isinstance(x, GArr) else self.array(x)
    def atleast_1d(self, x): g = as_g(x); return g if g.ndim else GArr((1,), lambda idx: g.get(()))
    def atleast_2d(self, x):
        g = as_g(x)
        if g.ndim >= 2: return g
        if g.ndim == 0: return GArr((1, 1), lambda idx: g.get(()))
        return g.view((1,) + g.shape, lambda idx: tuple(idx[1:]))
    def reshape(self, a, s, order='C'): return reshape(a, s, order)
    def ravel(self, a, order='C'): return reshape(a, (-1,), order)
    def transpose(self, a): return as_g(a).T
    def concatenate(self, xs, axis=0, **k):
        gs = [as_g(x) for x in xs]; nd = gs[0].ndim; ax = axis % nd
        fs = [g.frozen() for g in gs]; offs = [T.ZERO]
        for g in gs: offs.append(offs[-1] + g.shape[ax])
        for g in gs[1:]:
            if g.ndim != nd or any(not same_dim(g.shape[d], gs[0].shape[d]) for d in builtins.range(nd) if d != ax): raise ValueError('dimensions for concatenation do not match')
        def f(idx):
            i = lift(idx[ax])
            for q in builtins.range(len(fs)):
                if q == len(fs) - 1 or yes(i < offs[q + 1]): return fs[q](tuple(idx[:ax]) + (i - offs[q],) + tuple(idx[ax + 1:]))
        return new(gs[0].shape[:ax] + (dim(offs[-1]),) + gs[0].shape[ax + 1:], f, all(g.dtype == bool for g in gs))
    def hstack(self, xs, **k):
        gs = [self.atleast_1d(x) for x in xs]
        return self.concatenate(gs, axis=0 if gs[0].ndim == 1 else 1)
    def vstack(self, xs, **k): return self.concatenate([self.atleast_2d(x) for x in xs], axis=0)
    def stack(self, xs, axis=0):
        if axis: raise Unsupported('stack axis')
        return stack([as_g(x) for x in xs])
    def block(self, rows): return self.concatenate([self.concatenate([self.atleast_2d(x) for x in r], axis=1) for r in rows], axis=0)
    def kron(self, a, b):
        a, b = as_g(a), as_g(b); fa, fb = a.frozen(), b.frozen()
        while a.ndim < b.ndim: a = a.view((1,) + a.shape, (lambda q: lambda idx: tuple(idx[1:]))(a)); fa = a.frozen()
        while b.ndim < a.ndim: b = b.view((1,) + b.shape, (lambda q: lambda idx: tuple(idx[1:]))(b)); fb = b.frozen()
        shape = tuple(dim(lift(s) * t) for s, t in zip(a.shape, b.shape))
        def f(idx):
            qa, rb = [], []
            for d, i in enumerate(idx):
                if isinstance(a.shape[d], int) and a.shape[d] == 1: q, r = T.ZERO, lift(i)
                else: q, r = kdiv(i, b.shape[d])
                qa.append(q); rb.append(r)
            return val(fa(tuple(qa))) * val(fb(tuple(rb)))
        return new(shape, f)
    def sum(self, a, axis=None, keepdims=False, **k): return gnp_sum(a, axis, keepdims)
    def mean(self, a, axis=None, **k): return as_g(a).mean(axis)
    def dot(self, a, b): return matmul(a, b)
    def multiply(self, a, b): return a * b if isinstance(a, (GArr, Term)) else as_g(a) * b if not isinstance(b, (GArr, Term)) else b * a
    def divide(self, a, b): return (a if isinstance(a, Term) else as_g(a)) / b
    true_divide = divide
    def add(self, a, b): return (a if isinstance(a, Term) else as_g(a)) + b
    def subtract(self, a, b): return (a if isinstance(a, Term) else as_g(a)) - b
    def negative(self, a): return -(a if isinstance(a, Term) else as_g(a))
    def count_nonzero(self, a, axis=None, **k):
        a = as_g(a); return gnp_sum(a if a.dtype == bool else a != 0, axis)
    matmul = staticmethod(lambda a, b: matmul(a, b))
    def outer(self, a, b): a, b = as_g(a), as_g(b); fa, fb = a.frozen(), b.frozen(); return GArr((a.shape[0], b.shape[0]), lambda idx: val(fa((idx[0],))) * val(fb((idx[1],))))
    def unique(self, h, **k): return h          # precondition: harmonics are distinct and ascending
    def sqrt(self, x): return ew(lambda a: T.sqrt_(val(a)), x)
    def cos(self, x): return ew(lambda a: T.cos_(val(a)), x)
    def sin(self, x): return ew(lambda a: T.sin_(val(a)), x)
    def exp(self, x): return ew(lambda a: T.exp_(val(a)), x)
    def log(self, x): return ew(lambda a: logt(val(a)), x)
    def arctan2(self, y, x): return ew(lambda a, b: T.app('atan2', val(a), val(b)), y, x)
    def abs(self, x): return ew(lambda a: abs(val(a)), x)
    absolute = abs
    def square(self, x): return ew(lambda a: val(a) * val(a), x)
    def sign(self, x):
        if not isinstance(x, Masked) and as_g(x).ndim == 0: a = val(x); return T.UNIT if yes(T.cmp_(a, '>', T.ZERO)) else T.const(-1) if yes(T.cmp_(a, '<', T.ZERO)) else T.ZERO
        return ew(lambda a: T.sign_(val(a)), x)
    def maximum(self, x, y): return ew(lambda a, b: T.maximum_(val(a), val(b)), x, y)
    def minimum(self, x, y): return ew(lambda a, b: T.minimum_(val(a), val(b)), x, y)
    def clip(self, x, lo, hi): return self.minimum(self.maximum(x, lo), hi)
    def where(self, c, a, b): return ew(lambda p, x, y: T.ite(T.as_cond(p), val(x), val(y)), c, a, b)
    def logical_not(self, x): return ew(lambda a: T.not_(T.as_cond(a)), x, boolean=True)
    def logical_and(self, x, y): return ew(lambda a, b: T.and_(T.as_cond(a), T.as_cond(b)), x, y, boolean=True)
    def logical_or(self, x, y): return ew(lambda a, b: T.or_(T.as_cond(a), T.as_cond(b)), x, y, boolean=True)
    def less(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '<', val(b)), x, y, boolean=True)
    def greater(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '>', val(b)), x, y, boolean=True)
    def less_equal(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '<=', val(b)), x, y, boolean=True)
    def greater_equal(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '>=', val(b)), x, y, boolean=True)
    def not_equal(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '!=', val(b)), x, y, boolean=True)
    def equal(self, x, y): return ew(lambda a, b: T.cmp_(val(a), '==', val(b)), x, y, boolean=True)
    def isnan(self, x):
        if 'isnan' in LIN: return LIN['isnan'](x)
        return ew(lambda a: T.FALSE, x, boolean=True)
    def power(self, x, y): return ew(lambda a, b: val(a) ** val(b), x, y)
    def diag(self, x):
        g = as_g(x); f = g.frozen()
        if g.ndim == 1: return new((g.shape[0],) * 2, lambda idx: val(f((idx[0],))) if yes(T.cmp_(lift(idx[0]) - lift(idx[1]), '==', T.ZERO)) else T.ZERO)
        return new((g.shape[0],), lambda idx: f((idx[0], idx[0])))
    def arange(self, *a):
        if len(a) == 1: n = I(a[0]); return new((dim(n),), lambda idx: lift(idx[0]))
        lo, hi = I(a[0]), I(a[1]); return new((dim(hi - lo),), lambda idx: lo + lift(idx[0]))
    def linspace(self, a, b, num=50, endpoint=True):
        n = I(num); a, b = val(a), val(b); m = n - 1 if endpoint else n
        if m.is_const() and m.const() == 0: return new((dim(n),), lambda idx: a)
        return new((dim(n),), lambda idx: a + (b - a) * lift(idx[0]) / m)
    def append(self, a, b, axis=None):
        if axis is None: a, b = reshape(as_g(a), (-1,)), reshape(as_g(b), (-1,)); axis = 0
        return self.concatenate([a, b], axis)
    def atleast_3d(self, x):
        g = as_g(x)
        if g.ndim == 2: return g.view(g.shape + (1,), lambda idx: tuple(idx[:2]))
        if g.ndim == 3: return g
        raise Unsupported('atleast_3d')
    def any(self, x, axis=None):
        g = as_g(x); f = g.frozen()
        if axis is not None or not all(isc(n) for n in g.shape): raise Unsupported('any of a symbolic array')
        return T.or_(*[T.as_cond(f(i)) for i in np.ndindex(*[int(lift(n).const()) for n in g.shape])]) if g.ndim else T.as_cond(f(()))
    def all(self, x, axis=None): return T.not_(self.any(self.logical_not(x), axis))
    def finfo(self, t): return types.SimpleNamespace(eps=T.const(Fr(1, 2 ** 52)))
    def cumsum(self, a, axis=None, **k):
        g = as_g(a)
        if g.ndim != 1: raise Unsupported('cumsum')
        f = g.frozen(); return GArr(g.shape, lambda idx: gsum(0, idx[0] + 1, lambda j: val(f((j,)))))
    def einsum(self, spec, *xs, **k):
        if '...' in spec: raise Unsupported('einsum')
        ins, _, out = spec.replace(' ', '').partition('->'); ins = ins.split(',')
        if '->' not in spec: out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
        gs = [as_g(x) for x in xs]; fs = [g.frozen() for g in gs]; dims = {}
        for q, g in zip(ins, gs):
            for c, d in zip(q, g.shape):
                if c in dims and not same_dim(dims[c], d): raise ValueError('einsum: dimensions differ')
                dims.setdefault(c, d)
        inner = [c for c in dims if c not in out]
        def f(idx):
            at = dict(zip(out, idx))
            def rec(n):
                if n == len(inner):
                    r = T.UNIT
                    for q, h in zip(ins, fs): r = r * val(h(tuple(at[c] for c in q)))
                    return r
                def g(j): at[inner[n]] = j; return rec(n + 1)
                return gsum(0, dims[inner[n]], g)
            return rec(0)
        return GArr(tuple(dims[c] for c in out), f) if out else f(())
    def squeeze(self, a, axis=None): return as_g(a).squeeze()
    def repeat(self, a, n, axis=None):
        g = as_g(a); f = g.frozen(); n = lift(n)
        if g.ndim != 1: raise Unsupported('repeat')
        return new((dim(n * g.shape[0]),), lambda idx: f((kdiv(idx[0], dim(n))[0],)))
    def tile(self, a, n):
        g = as_g(a); f = g.frozen(); n = lift(n)
        if g.ndim != 1: raise Unsupported('tile')
        return new((dim(n * g.shape[0]),), lambda idx: f((kdiv(idx[0], g.shape[0])[1],)))
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        if k == 'linalg': return Lin()
        if k in LIN: return LIN[k]
        def bad(*a, **kw):
            if not any(isinstance(x, (GArr, Term, Cond)) for x in a): return getattr(np, k)(*a, **kw)
            raise Unsupported('numpy.%s on arrays of symbolic size' % k)
        return bad
class Lin:
    def norm(self, x, **k): return T.sqrt_(gnp_sum(ew(lambda a: val(a) * val(a), x)))
    def __getattr__(self, k):
        if k in LIN: return LIN[k]
        raise Unsupported('numpy.linalg.' + k)
LIN = {}                 # contracts given to numpy.linalg functions by the running contract
GNP = GNPt()

class LazyDiv:
    """i // n for comparisons only"""
    pass

def kdiv(i, n):
    """quotient and remainder; a running index inside a sum or an arbitrary index is split at block boundaries"""
    i = lift(i)
    try: return divmod_block(i, n)
    except Unsupported: pass
    n = lift(n)
    q = T.app('idiv', i, n, sort='I'); r = i - n * q
    return q, r

LN10 = None
def kmod(i, n):
    if yes(i >= 0):
        if yes(i < n): return i
        if yes(T.cmp_(i, '==', n)): return T.ZERO
    return divmod_block(i, n)[1]

def logt(t):
    if t.is_const() and t.const() == 10: return T.app('log', t)
    return T.app('log', t)

# ------------------------------------------------------------------------------------------ derivatives
class Wrt:
    """derivative with respect to one entry of a named input array (or a scalar variable)"""
    def __init__(self, name, idx=None, opaque=None): self.name, self.idx, self.opaque = name, idx, opaque or {}
    def d(self, t):
        return T.deriv(lift(t), self)
    def __call__(self, a):
        if a.kind == 'var': return T.UNIT if self.idx is None and a.name == self.name else T.ZERO
        if a.kind != 'app': return None
        if a.name == self.name:
            if self.idx is None: return T.ZERO
            if len(a.args) != len(self.idx): return T.ZERO
            return T.UNIT if all(yes(T.cmp_(x - lift(y), '==', T.ZERO)) for x, y in zip(a.args, self.idx)) else T.ZERO
        if a.name in self.opaque: return self.opaque[a.name](a.args, self)
        if a.name == 'gsum': return self.dsum(a)
        if a.sort == 'I': return T.ZERO
        if a.name in ('sqrt', 'cos', 'sin', 'exp', 'log', 'inv', 'abs', 'pow'): return None
        return T.ZERO
    def dsum(self, a):
        n, body = a.args; B = T.var('B%d' % a.info, 'I')
        p = P()
        def wrtbody(j):
            return T.subst(body, {vid(B): j})
        # leaves at the differentiated entry inside the sum pick one term
        out = T.ZERO
        (mono, c), = body.m.items()
        for pos, (i, e) in enumerate(mono):
            at = T._atoms[i]
            rest = dict(mono); rest[i] = e - 1
            if not rest[i]: del rest[i]
            restt = Term({tuple(sorted(rest.items())): Fr(c) * e})
            if at.kind == 'app' and at.name == self.name and self.idx is not None and len(at.args) == len(self.idx):
                sol = None; ok = True
                for x, y in zip(at.args, self.idx):
                    x = lift(x); k = x.m.get(((vid(B), 1),), 0); r = x - B * k
                    if not k:
                        if vid(B) in x.fv(): raise Unsupported('derivative index')
                        if not yes(T.cmp_(x - lift(y), '==', T.ZERO)): ok = False; break
                    else:
                        s = (lift(y) - r) / T.const(k)
                        if abs(k) != 1 or vid(B) in r.fv(): raise Unsupported('derivative index')
                        if sol is None: sol = s
                        elif not yes(T.cmp_(sol - s, '==', T.ZERO)): ok = False; break
                if not ok: continue
                if sol is None: out = out + gsum(0, n, lambda j: T.subst(restt, {vid(B): j}))
                elif yes(sol >= 0) and yes(sol < n): out = out + T.subst(restt, {vid(B): sol})
                continue
            if at.kind == 'app' and (at.name in ('gsum',) or at.name in self.opaque or any(isinstance(x, Term) and not x.int_sorted() for x in at.args)) or at.kind == 'ite':
                def f(j, i=i, restt=restt):
                    v = T.subst(T.of_atom(T._atoms[i]), {vid(B): j})
                    dv = T.deriv(v, self)
                    return T.subst(restt, {vid(B): j}) * dv
                out = out + gsum(0, n, f)
            elif at.kind == 'var' and self.idx is None and at.name == self.name:
                out = out + gsum(0, n, lambda j, restt=restt: T.subst(restt, {vid(B): j}))
        return out

def opaque_vec(args_fn, n, dname, dw=None):
    """derivative rule of an opaque vector F(i) of an argument vector arg(j) and scalars: sum_j dF(i,j) darg(j) + ..."""
    def rule(idx, w):
        r = T.ZERO
        # the coefficient is opaque: differentiate only the argument
        t = gsum(0, n, lambda j: T.app(dname, idx[0], j) * val(args_fn((j,))))
        r = r + T.deriv(t, w)
        for nm, tm in (dw or {}).items():
            d = T.deriv(lift(tm), w)
            if d.m: r = r + T.app(nm, idx[0]) * d
        return r
    return rule

# ------------------------------------------------------------------------------------------ loading
class GCopy(load.Copy):
    def __init__(self, repo=None):
        super().__init__(repo)
        b = self.builtins; b['range'] = g_range; b['len'] = g_len; b['enumerate'] = g_enumerate; b['zip'] = g_zip; b['sum'] = self._sum; b['type'] = g_type; b['max'] = g_max; b['min'] = g_min; b['__loop__'] = loops_mod.Loop; b['__format__'] = loops_mod.text_format; b['locals'] = builtins.locals
    def compile(self, src, f):
        t = loops_mod.rewrite(src, f)
        return compile(src if t is None else t, f, 'exec')
    def _sum(self, x, start=0):
        if isinstance(x, GArr): return gnp_sum(x) + start
        return builtins.sum(x, start)
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split('.')[0] == 'numpy':
            if '.' in name and fromlist: raise Unsupported('import ' + name)
            return GNP
        return super()._import(name, globals, locals, fromlist, level)
def g_type(*a):
    if len(a) == 1 and isinstance(a[0], Term): return load.FloatShim
    return builtins.type(*a)
def g_max(*a, **k):
    if any(isinstance(x, Term) for x in a):
        r = a[0]
        for x in a[1:]: r = T.maximum_(lift(r), lift(x)) if not (lift(r).int_sorted() and lift(x).int_sorted()) else (r if yes(lift(r) >= lift(x)) else x)
        return r
    return builtins.max(*a, **k)
def g_min(*a, **k):
    if any(isinstance(x, Term) for x in a):
        r = a[0]
        for x in a[1:]: r = x if yes(lift(r) >= lift(x)) else r
        return r
    return builtins.min(*a, **k)

_gc = {}
def module(name):
    if 'c' not in _gc:
        c = GCopy()
        pk = types.ModuleType(load.PKG); pk.__path__ = [c.repo + '/tmdsimpy']; pk.__package__ = load.PKG; pk.__dict__['__builtins__'] = c.builtins
        c.mods[load.PKG] = pk
        for s in ('utils', 'nlforces', 'roms', 'postprocess', 'jax', 'jax.nlforces'):
            m = types.ModuleType(load.PKG + '.' + s); m.__package__ = load.PKG + '.' + s; m.__path__ = [c.repo + '/tmdsimpy/' + s.replace('.', '/')]; m.__dict__['__builtins__'] = c.builtins
            c.mods[load.PKG + '.' + s] = m
        _gc['c'] = c
    return _gc['c'].load(load.PKG + '.' + name)
