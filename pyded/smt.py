"""Translation of terms and conditions to z3 and satisfiability queries."""
import sys, time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import terms as T
from fractions import Fraction as Fr

stats = {'queries': 0, 'time': 0.0, 'unknown': 0}

class Tr:
    def __init__(self, solver):
        self.s = solver; self.c = {}; self.nl = False
    def term(self, t):
        if not t.m: return z3.RealVal(0)
        xs = []
        for mono, c in t.m.items():
            p = None
            if len(mono) > 1 or (mono and mono[0][1] != 1): self.nl = True
            for (i, e) in mono:
                a = self.atom(T._atoms[i])
                if e < 0:
                    a = self.recip(i, a); e = -e
                for _ in range(e): p = a if p is None else p * a
            c = Fr(c)
            q = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            xs.append(q if p is None else p if c == 1 else q * p)
        return z3.Sum(xs) if len(xs) > 1 else xs[0]
    def recip(self, i, a):
        k = ('r', i)
        if k not in self.c:
            v = z3.Real('r!%d' % i); self.c[k] = v
            self.s.add(v * a == 1)
        return self.c[k]
    def atom(self, a):
        v = self.c.get(a.id)
        if v is not None: return v
        k = a.kind
        if k == 'var':
            if a.name == 'pi':
                v = z3.Real('pi'); self.s.add(v > z3.RealVal('31415926535/10000000000'), v < z3.RealVal('31415926536/10000000000'))
            elif a.sort == 'I': v = z3.ToReal(z3.Int('i!%d' % a.id))
            else: v = z3.Real('x!%d' % a.id)
        elif k == 'ite': v = z3.If(self.cond(a.args[0]), self.term(a.args[1]), self.term(a.args[2]))
        elif k == 'ind': v = z3.If(self.cond(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif k == 'delta': v = z3.If(self.term(a.args[0]) == 0, z3.RealVal(1), z3.RealVal(0))
        elif k == 'app':
            n = a.name
            if n == 'abs':
                x = self.term(a.args[0]); v = z3.If(x >= 0, x, -x)
            elif n == 'sqrt':
                v = z3.Real('q!%d' % a.id); x = self.term(a.args[0]); self.s.add(v >= 0, z3.Implies(x >= 0, v * v == x)); self.nl = True
            elif n == 'inv':
                v = z3.Real('v!%d' % a.id); self.s.add(v * self.term(a.args[0]) == 1); self.nl = True
            elif n in ('sin', 'cos'):
                f = z3.Function(n, z3.RealSort(), z3.RealSort()); v = f(self.term(a.args[0])); self.s.add(v <= 1, v >= -1)
            elif n == 'exp':
                f = z3.Function(n, z3.RealSort(), z3.RealSort()); v = f(self.term(a.args[0])); self.s.add(v > 0)
            elif n == 'floor':
                v = z3.ToReal(z3.ToInt(self.term(a.args[0])))
            elif n == 'pow':
                f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
                b = self.term(a.args[0]); v = f(b, self.term(a.args[1])); self.s.add(z3.Implies(b > 0, v > 0), z3.Implies(b >= 0, v >= 0))
            else:
                args = [self.term(x) for x in a.args if isinstance(x, T.Term)]
                f = z3.Function('f!' + n + '!%d' % len(args), *([z3.RealSort()] * (len(args) + 1))); v = f(*args) if args else z3.Real('f!' + n)
                if a.sort == 'I': self.s.add(z3.IsInt(v))
        elif k in ('sum', 'special'): v = z3.Real('s!%d' % a.id)
        else: raise T.Unsupported('smt ' + k)
        self.c[a.id] = v
        return v
    def cond(self, c):
        if c.op == 'true': return z3.BoolVal(True)
        if c.op == 'false': return z3.BoolVal(False)
        if c.op == 'bvar': return z3.Bool(c.a[0])
        if c.op == '<': return self.term(c.a[0]) < 0
        if c.op == '<=': return self.term(c.a[0]) <= 0
        if c.op == '==': return self.term(c.a[0]) == 0
        xs = [self.cond(x) for x in c.a]
        return z3.And(xs) if c.op == 'and' else z3.Or(xs) if c.op == 'or' else z3.Not(xs[0])

def check(conds, timeout=300, model_atoms=None):
    """('sat', model dict) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', int(timeout))
    tr = Tr(s)
    for c in conds: s.add(tr.cond(c))
    r = s.check()
    stats['queries'] += 1; stats['time'] += time.time() - t0
    if r == z3.unsat: return 'unsat', None
    if r == z3.unknown: stats['unknown'] += 1; return 'unknown', None
    env = {}
    if model_atoms is not None:
        m = s.model()
        for a in model_atoms:
            v = m.eval(tr.atom(a), model_completion=True)
            env[a.id] = num(v)
    return 'sat', env

def num(v):
    if z3.is_rational_value(v): return float(Fr(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20); return float(Fr(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    try: return float(v.as_long())
    except Exception: return 0.0
