"""Path exploration by re-execution: a branch on a symbolic condition splits the execution."""
import time
from . import terms as T, smt

class Infeasible(Exception): pass
class Budget(T.Unsupported): pass

class Path:
    def __init__(self, prefix, base):
        self.prefix = prefix; self.dec = []; self.pc = list(base); self.keys = {c.key() for c in base}
        self.fixed = set(); self.divs = []
    def assume(self, c):
        c = T.as_cond(c)
        if c.op == 'true': return
        if c.op == 'false': raise Infeasible()
        for x in (c.a if c.op == 'and' else (c,)):
            if x.key() not in self.keys:
                self.keys.add(x.key()); self.pc.append(x)
    def known(self, c):
        if c.key() in self.keys: return True
        n = T.not_(c)
        if n.key() in self.keys: return False
        if c.op == '<' and T.Cond('<', (-c.a[0],)).key() in self.keys: return False
        if c.op == '<=' and T.Cond('<', c.a).key() in self.keys: return True
        if c.op == '==' and (T.Cond('<', c.a).key() in self.keys or T.Cond('<', (-c.a[0],)).key() in self.keys): return False
        if c.op == '<=' and T.Cond('==', c.a).key() in self.keys: return True
        if c.op == 'and':
            ks = [self.known(x) for x in c.a]
            if all(k is True for k in ks): return True
            if any(k is False for k in ks): return False
        if c.op == 'or':
            ks = [self.known(x) for x in c.a]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        return None
    def feasible(self, c, timeout=250):
        r, _ = smt.check(self.pc + [c], timeout)
        return r != 'unsat'
    def decide(self, c):
        k = self.known(c)
        if k is not None: return k
        i = len(self.dec)
        forced = False
        if i < len(self.prefix): b = self.prefix[i]
        else:
            ft = self.feasible(c); ff = self.feasible(T.not_(c)) if ft else True
            if not ft: b = False; forced = True
            elif not ff: b = True; forced = True
            else: b = True; forced = False
        self.dec.append(b)
        if forced: self.fixed.add(i)      # implied by the path: no alternative
        self.assume(c if b else T.not_(c))
        return b

class Concrete:
    """outside of an exploration conditions must be decidable"""
    def decide(self, c): raise T.Unsupported('undecided condition outside of a path: %r' % (c,))

_cur = [Concrete()]
def current(): return _cur[-1]

def explore(fn, base=(), max_paths=400, max_time=60.0):
    """run fn() on every feasible path; yields (path, result or exception)"""
    stack = [[]]; n = 0; t0 = time.time()
    while stack:
        pre = stack.pop()
        p = Path(pre, base)
        _cur.append(p); T.divisors.clear()
        exc = None; res = None
        try: res = fn()
        except Infeasible: exc = 'infeasible'
        except Exception as e: exc = e
        finally: _cur.pop()
        p.divs = list(T.divisors)
        for i in range(len(pre), len(p.dec)):
            if i not in p.fixed: stack.append(p.dec[:i] + [not p.dec[i]])
        if exc == 'infeasible': continue
        n += 1
        yield p, res, exc
        if n >= max_paths and stack: raise Budget('more than %d paths' % max_paths)
        if time.time() - t0 > max_time and stack: raise Budget('path exploration over %gs' % max_time)
