"""The two domains in which a contract is checked.

A contract is a Python function over a domain D: it builds arguments with D.real / D.pick, states preconditions with
D.assume, calls the real function and states postconditions with D.eq / D.true / D.jac.  In the symbolic domain the
arguments are arbitrary reals and the postconditions are proof obligations; in the numeric domain the same text runs
on the real, unmodified package with sampled values (cross-check of the engine, replay of counterexamples and the
labelled stand-in where the symbolic engine does not reach).
"""
import sys, os, math, importlib, random
import numpy as np
from . import terms as T, symnp, paths, load, prove
from .symnp import NP, SArr, mk, num, el
from .terms import Term, Cond, Unsupported

REPO = load.REPO
opaque = {}      # atom id -> list of (argument Term, partial Term): derivative contract of uninterpreted outputs

def leaf_derivative(k):
    def d(a):
        if a.id == k: return T.UNIT
        if a.id in opaque:
            r = T.ZERO
            for arg, p in opaque[a.id]:
                if k in reach(arg):
                    da = T.deriv(arg, d)
                    if da.m: r = r + p * da
            return r
        if a.kind == 'var': return T.ZERO
        return None
    return d

def reach(t):
    s = set(t.fv()); todo = list(s)
    while todo:
        i = todo.pop()
        for arg, _ in opaque.get(i, ()):
            for j in arg.fv():
                if j not in s: s.add(j); todo.append(j)
    return s

class Violation(Exception):
    def __init__(self, label, detail): self.label = label; self.detail = detail
class Skip(Exception): pass

class Base:
    def pick(self, name, options):
        raise NotImplementedError

# ----------------------------------------------------------------------------------------- symbolic
class NeedPick(Exception): pass

class SymDom(Base):
    sym = True
    np = NP
    def __init__(self, picks, tier='quick'):
        self.picks = dict(picks); self.tier = tier
        self.obl = []; self.inputs = {}; self.used = {}; self.stubs = {}
    @property
    def pkg(self): return load.copy()
    def mod(self, name): return load.copy().load(load.PKG + ('.' + name if name else ''))
    def pick(self, name, options, sym=None):
        opts = list(options if sym is None else sym)
        if name not in self.picks: raise NeedPick(name, opts)
        self.used[name] = self.picks[name]
        return self.picks[name]
    def real(self, name, shape=None, lo=None, hi=None, pos=False, nonzero=False, draw=None):
        if shape is None:
            t = T.var(name); self.inputs[name] = t
            self._pre(t, lo, hi, pos, nonzero); return t
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            a[ix] = T.var('%s[%s]' % (name, ','.join(map(str, ix)))); self._pre(a[ix], lo, hi, pos, nonzero)
        a = a.view(SArr); self.inputs[name] = a
        return a.copy()
    def _pre(self, t, lo, hi, pos, nonzero):
        if lo is not None: self.assume(t >= lo)
        if hi is not None: self.assume(t <= hi)
        if pos: self.assume(t > 0)
        if nonzero: self.assume(t != 0)
    def assume(self, c): paths.current().assume(T.as_cond(c) if not isinstance(c, np.ndarray) else T.and_(*[T.as_cond(el(x)) for x in c.ravel()]))
    def const(self, x): return symnp.fmap(num, np.asarray(x, dtype=object).view(SArr)) if not np.isscalar(x) else T.lift(x)
    def rat(self, *xs): return mk([T.lift(x) for x in xs])
    def _add(self, kind, label, data): self.obl.append((kind, label, data, list(paths.current().pc)))
    def eq(self, label, a, b, tol=None):
        a, b = mk(a), mk(b)
        sa, sb = np.shape(a) if not isinstance(a, (Term, Cond)) else (), np.shape(b) if not isinstance(b, (Term, Cond)) else ()
        if sa != sb and sb != (): self._add('fail', label, 'shape %s instead of %s' % (sa, sb)); return
        A = np.broadcast_to(symnp.as_obj(a) if isinstance(a, np.ndarray) or symnp.issym(a) else np.array(a, object), sa)
        B = np.broadcast_to(symnp.as_obj(b) if isinstance(b, np.ndarray) or symnp.issym(b) else np.array(b, object), sa)
        for ix in np.ndindex(*sa): 
            x, y = A[ix], B[ix]
            x, y = el(x), el(y)
            l = label + (str(list(ix)) if sa else '')
            if isinstance(x, symnp.CTerm) or isinstance(y, symnp.CTerm):
                d = symnp.CTerm.of(x) - symnp.CTerm.of(y)
                self._add('zero', l + '.re', d.re); self._add('zero', l + '.im', d.im); continue
            x, y = num(x), num(y)
            sx, sy = special(x), special(y)
            if sx or sy:
                if sx != sy: self._add('fail', l, '%s instead of %s' % (T.show(x), T.show(y)))
                else: self._add('zero', l, T.ZERO)
                continue
            self._add('zero', l, x - y)
    def true(self, label, c):
        if isinstance(c, np.ndarray):
            for k, x in enumerate(c.ravel()): self._add('cond', '%s[%d]' % (label, k), T.as_cond(el(x)))
        else: self._add('cond', label, T.as_cond(el(c)))
    def le(self, label, a, b, tol=None): self.true(label, mk(a) <= b)
    def same(self, label, a, b): self.eq(label, a, b)
    def lower_dim(self):
        return any(c.op == '==' or (c.op == 'and' and any(x.op == '==' for x in c.a)) for c in paths.current().pc)
    def jac(self, label, R, J, x, f=None, tol=None, scale=None):
        """J is the derivative of R with respect to the inputs x (array of variables)"""
        if self.lower_dim(): return
        R, J, x = mk(R), mk(J), mk(x)
        Rv = R.ravel() if isinstance(R, np.ndarray) else [R]
        xv = x.ravel() if isinstance(x, np.ndarray) else [x]
        rs = R.shape if isinstance(R, np.ndarray) else (); xs = x.shape if isinstance(x, np.ndarray) else ()
        js = J.shape if isinstance(J, np.ndarray) else ()
        if int(np.prod(js)) != len(Rv) * len(xv): self._add('fail', label, 'Jacobian shape %s for %s by %s' % (js, rs, xs)); return
        Jv = (J.reshape(len(Rv), len(xv)) if isinstance(J, np.ndarray) else np.array([[J]], object))
        for j, v in enumerate(xv):
            k = list(v.m)[0][0][0]
            d = leaf_derivative(k)
            for i, r in enumerate(Rv):
                self._add('dzero', '%s[%d,%d]' % (label, i, j), num(Jv[i, j]) - T.deriv(num(r), d))
    def deriv(self, expr, x):
        return load.jac_of(mk(expr), x)
    # uninterpreted results of callees (their contract is the derivative relation)
    def fun(self, name, n, args, shape=None):
        """n opaque outputs of the arguments args with opaque exact partial derivatives: (values, partials)"""
        args = [num(x) for x in mk(args).ravel()]
        key = tuple(a.key() for a in args)
        nm = '%s<%d>' % (name, abs(hash(key)) % 10 ** 9)
        memo = self.stubs.get((name, key))
        if memo is None:
            vals = []; parts = np.empty((n, len(args)), object)
            for i in range(n):
                v = T.var('%s[%d]' % (nm, i)); rec = []
                for j, a in enumerate(args):
                    p = T.var('d%s[%d,%d]' % (nm, i, j)); parts[i, j] = p; rec.append((a, p))
                opaque[list(v.m)[0][0][0]] = rec; vals.append(v)
            memo = self.stubs[(name, key)] = (mk(vals), parts.view(SArr))
        return memo[0].copy(), memo[1].copy()
    def ufun(self, name, *args): return T.app('uf:' + name, *[num(x) for x in args])
    def here(self, t):
        """a value of an enclosing derivative trace in terms of the traced function's actual arguments"""
        for mp in reversed(load.pmap): t = symnp.fmap(lambda x: T.subst(num(x), mp), t) if isinstance(t, np.ndarray) else T.subst(num(t), mp)
        return t
    def copyarr(self, a): return mk(a).copy() if isinstance(a, np.ndarray) else a
    def patch(self, obj, name, val): 
        self._patches = getattr(self, '_patches', []); self._patches.append((obj, name, vars(obj).get(name), name in vars(obj)))
        setattr(obj, name, val)
    def close(self):
        for o, n, v, had in reversed(getattr(self, '_patches', [])):
            if had: setattr(o, n, v)
            else: delattr(o, n)
        self._patches = []
    def raises(self, label, f, *exc):
        try: f()
        except Unsupported: raise
        except (exc or (Exception,)) as e: self._add('cond', label, T.TRUE)
        else: self._add('fail', label, 'no error raised')
    def note(self, **k): pass

def special(x):
    for mono in x.m:
        for (i, e) in mono:
            if T._atoms[i].kind == 'special': return T._atoms[i].name
    return None

# ------------------------------------------------------------------------------------------ numeric
class NumDom(Base):
    sym = False
    np = np
    def __init__(self, rng, picks=None, values=None, tier='quick'):
        self.rng = rng; self.fixed = dict(picks or {}); self.values = dict(values or {}); self.tier = tier
        self.picks = {}; self.drawn = {}; self.checks = 0; self.skipped = 0; self.fails = []; self.notes = {}
        self.labels = {}
    def mod(self, name): return importlib.import_module('tmdsimpy' + ('.' + name if name else ''))
    def pick(self, name, options, sym=None):
        if name in self.fixed: v = self.fixed[name]
        else:
            opts = list(options); v = opts[int(self.rng.integers(len(opts)))]
        self.picks[name] = v
        return v
    def real(self, name, shape=None, lo=None, hi=None, pos=False, nonzero=False, draw=None):
        if name in self.values:
            v = self.values[name]; v = float(v) if shape is None else np.array(v, float).reshape(shape)
            if (lo is not None and np.any(v < lo)) or (hi is not None and np.any(v > hi)) or (pos and np.any(v <= 0)) or (nonzero and np.any(v == 0)): raise Skip('precondition of ' + name)
        else:
            r = self.rng
            if draw is not None: v = draw(r, shape)
            else:
                a, b = (-2.0 if lo is None else lo), (2.0 if hi is None else hi)
                if pos: a = 0.1 if lo is None else max(lo, 1e-3); b = 2.0 if hi is None else hi
                if lo is not None and hi is None and not pos: b = lo + 3.0
                if hi is not None and lo is None and not pos: a = hi - 3.0
                v = r.uniform(a, b, size=shape)
                if lo is None and hi is None and not pos:
                    sc = r.choice([1.0, 1.0, 1.0, 0.1, 5.0]); v = v * sc
                if nonzero: v = np.where(np.abs(v) < 0.05, 0.5, v)
                if shape is not None and lo is None and not pos and not nonzero and r.random() < 0.15 and np.size(v) > 1:
                    z = r.random(size=np.shape(v)) < 0.3; v = np.where(z, 0.0, v)
            v = float(v) if shape is None else np.array(v, float)
        self.drawn[name] = v
        return v if shape is None else v.copy()
    def assume(self, c):
        if not bool(np.all(c)): raise Skip('precondition')
    def const(self, x): return np.asarray(x, float) if not np.isscalar(x) else float(x)
    def rat(self, *xs): return np.array([float(x) for x in xs])
    def _fail(self, label, detail):
        self.fails.append((label, detail))
    def eq(self, label, a, b, tol=1e-8):
        tol = 1e-8 if tol is None else tol
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape and b.shape != (): self._fail(label, 'shape %s instead of %s' % (a.shape, b.shape)); return
        b = np.broadcast_to(b, a.shape)
        if a.size == 0: return
        na, nb = np.isnan(a), np.isnan(b)
        if np.any(na != nb): self._fail(label, 'undefined entries differ: %s vs %s' % (brief(a), brief(b))); return
        fin = ~na
        d = np.abs(a[fin] - b[fin])
        d = np.where(a[fin] == b[fin], 0.0, d)
        s = max(1.0, float(np.max(np.abs(b[fin]), initial=0.0)))
        if d.size and not (float(np.max(d)) <= tol * s):
            k = int(np.argmax(d)); self._fail(label, 'got %r, expected %r (index %d, difference %.3g)' % (brief(a), brief(b), k, float(d[k])))
    def true(self, label, c):
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(np.all(c)): self._fail(label, 'condition false: %s' % brief(np.asarray(c)))
    def le(self, label, a, b, tol=1e-9):
        s = max(1.0, float(np.max(np.abs(np.asarray(b)), initial=0.0)))
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(np.all(np.asarray(a) <= np.asarray(b) + tol * s)): self._fail(label, '%s exceeds %s' % (brief(a), brief(b)))
    def same(self, label, a, b):
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True): self._fail(label, '%s differs from %s' % (brief(a), brief(b)))
    def lower_dim(self): return False
    def jac(self, label, R, J, x, f=None, tol=2e-5, scale=None):
        """finite differences of the real function; points where the one-sided slopes disagree are skipped"""
        if f is None: return
        tol = 2e-5 if tol is None else tol
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        R = np.atleast_1d(np.asarray(R, float)).ravel(); x = np.asarray(x, float)
        J = np.asarray(J, float)
        if J.size != R.size * max(1, x.size): self._fail(label, 'Jacobian shape %s for %d by %d' % (J.shape, R.size, x.size)); return
        J = J.reshape(R.size, max(1, x.size))
        bad = 0
        for j in range(max(1, x.size)):
            def at(h):
                y = x.copy()
                if y.ndim == 0: y = y + h; y = float(y)
                else: y.ravel()[j] += h; y = y
                return np.atleast_1d(np.asarray(f(y), float)).ravel()
            xj = float(x) if x.ndim == 0 else float(x.ravel()[j])
            h0 = 1e-3 * max(1.0, abs(xj)) if scale is None else 1e-3 * scale
            ests = []
            for h in (h0, h0 / 8):
                p1, m1, p2, m2 = at(h), at(-h), at(2 * h), at(-2 * h)
                ests.append((8 * (p1 - m1) - (p2 - m2)) / (12 * h))
            # one sided slopes (second order) at the small step
            h = h0 / 8
            fw = (4 * at(h) - at(2 * h) - 3 * R) / (2 * h); bw = -(4 * at(-h) - at(-2 * h) - 3 * R) / (2 * h)
            s = np.maximum(1.0, np.maximum(np.max(np.abs(ests[1])), 1e-3 * np.max(np.abs(R))))
            ok = (np.abs(ests[0] - ests[1]) <= 0.25 * tol * s) & (np.abs(fw - bw) <= 50 * tol * s)
            d = np.abs(J[:, j] - ests[1])
            w = ok & ~(d <= tol * s)
            self.skipped += int(np.sum(~ok))
            if np.any(w):
                i = int(np.argmax(np.where(w, d, 0)))
                self._fail(label, 'derivative entry (%d,%d): returned %.10g, true slope %.10g' % (i, j, J[i, j], ests[1][i])); return
    def fun(self, *a, **k): raise NotImplementedError
    def copyarr(self, a): return np.array(a, copy=True) if isinstance(a, np.ndarray) else a
    def patch(self, obj, name, val):
        self._patches = getattr(self, '_patches', []); self._patches.append((obj, name, vars(obj).get(name), name in vars(obj)))
        setattr(obj, name, val)
    def close(self):
        for o, n, v, had in reversed(getattr(self, '_patches', [])):
            if had: setattr(o, n, v)
            else: delattr(o, n)
        self._patches = []
    def raises(self, label, f, *exc):
        self.checks += 1; self.labels[label] = self.labels.get(label, 0) + 1
        try: f()
        except (exc or (Exception,)): pass
        else: self._fail(label, 'no error raised')
    def note(self, **k): self.notes.update(k)

def brief(a):
    a = np.asarray(a)
    return np.array2string(a, threshold=12, precision=12) if a.size > 1 else repr(a.item() if a.size else a)
