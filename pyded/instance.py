"""Concrete instances of an obligation over arrays of symbolic size: sizes and indices from a z3 model of the path's integer
facts, array entries drawn at random, sums computed.  Used to tell a refuted obligation from one the prover could not close."""
import itertools, math, random, z3
from . import terms as T, gen

class NoInstance(Exception): pass
class Ev:
    def __init__(self, ints, mono, seed): self.ints = ints; self.mono = mono; self.seed = seed; self.memo = {}; self.tab = {}; self.steps = 0
    def term(self, t, env):
        s = 0
        for mono, c in t.m.items():
            p = int(c) if c.denominator == 1 else float(c)
            for i, e in mono:
                v = self.atom(T._atoms[i], env)
                p = p * (v ** e)
            s += p
        return s
    def atom(self, a, env):
        self.steps += 1
        if self.steps > 2000000: raise NoInstance('too large')
        if a.kind == 'var':
            if a.id in env: return env[a.id]
            if a.name == 'pi': return math.pi
            if a.sort == 'I': return self.ints.setdefault(a.name, 0)
            return self.draw((a.name,))
        if a.kind == 'ite': return self.term(a.args[1] if self.cond(a.args[0], env) else a.args[2], env)
        if a.kind == 'ind': return 1 if self.cond(a.args[0], env) else 0
        if a.kind == 'delta': return 1 if abs(self.term(a.args[0], env)) < 1e-12 else 0
        if a.kind != 'app': raise NoInstance(a.kind)
        n = a.name
        if n == 'gsum':
            N = self.term(a.args[0], env); B = gen.vid(T.var('B%d' % a.info, 'I')); r = 0
            if N > 60: raise NoInstance('large sum')
            for k in range(int(N)): r += self.term(a.args[1], {**env, B: k})
            return r
        if any(not isinstance(x, T.Term) for x in a.args): raise NoInstance('argument')
        x = [self.term(y, env) for y in a.args]
        if n == 'idiv': return int(x[0]) // int(x[1])
        if n in ('sqrt', 'cos', 'sin', 'exp', 'log', 'inv', 'abs', 'pow', 'floor', 'atan2'):
            try:
                return (math.sqrt(x[0]) if n == 'sqrt' else math.cos(x[0]) if n == 'cos' else math.sin(x[0]) if n == 'sin' else math.exp(x[0]) if n == 'exp' else math.log(x[0]) if n == 'log' else 1.0 / x[0] if n == 'inv'
                    else abs(x[0]) if n == 'abs' else x[0] ** x[1] if n == 'pow' else math.floor(x[0]) if n == 'floor' else math.atan2(x[0], x[1]))
            except (ValueError, ZeroDivisionError, OverflowError): raise NoInstance('undefined')
        if n in self.mono: return self.seq(n, int(x[0]))
        v = self.draw((n,) + tuple(round(y, 7) if isinstance(y, float) else y for y in x))
        return int(v * 10) % 7 if a.sort == 'I' else v
    def seq(self, n, k):
        t = self.tab.setdefault(n, {})
        if k not in t:
            r = random.Random(repr((self.seed, n))); v = 0; 
            if k < 0 or k > 200: raise NoInstance('position')
            for q in range(k + 1): v += r.choice([1, 1, 2, 3]); t[q] = v
        return t[k]
    def draw(self, key):
        if key not in self.memo and key in self.box:
            r = random.Random(repr((self.seed,) + key)); lo, hi = self.box[key]
            self.memo[key] = r.uniform(lo, hi) if lo > -math.inf and hi < math.inf else lo + r.uniform(0.01, 2.0) if lo > -math.inf else hi - r.uniform(0.01, 2.0)
        if key not in self.memo: r = random.Random(repr((self.seed,) + key)); self.memo[key] = r.uniform(0.3, 2.0) * (1 if r.random() < self.pos else -1)
        return self.memo[key]
    pos = 0.6; box = {}
    def cond(self, c, env):
        if c.op == 'true': return True
        if c.op == 'false': return False
        if c.op in ('<', '<=', '=='):
            v = self.term(c.a[0], env)
            return v < 0 if c.op == '<' else v <= 0 if c.op == '<=' else abs(v) < 1e-11
        if c.op == 'bvar': raise NoInstance('boolean')
        xs = [self.cond(x, env) for x in c.a]
        return all(xs) if c.op == 'and' else any(xs) if c.op == 'or' else not xs[0]

def models(p, rng, count, extra=()):
    s = z3.Solver(); s.set('timeout', 2000); F = gen.Facts(); fs = [c for c in p.pc if gen.intc(c)] + list(extra)
    vs = {}
    for c in fs:
        for i in c.fv():
            a = T._atoms[i]
            if a.kind == 'var' and a.sort == 'I': vs[i] = a
    for f in fs: s.add(F.cond(f, s))
    for _ in range(count):
        s.push()
        for i, a in sorted(vs.items()):
            v = F.atom(i, s); s.push(); s.add(v == rng.randint(0, 6))
            if s.check() != z3.sat: s.pop()
        ok = s.check() == z3.sat
        if ok: m = s.model(); out = {a.name: m.eval(F.atom(i, s), model_completion=True).as_long() for i, a in vs.items()}
        while s.num_scopes(): s.pop()
        if not ok: return
        yield out

def boxes(pc):
    """bounds of single real variables stated by the path: name -> (low, high)"""
    box = {}
    def add(c):
        if c.op == 'and':
            for x in c.a: add(x)
            return
        neg = c.op == 'not'
        if neg: c = c.a[0]
        if c.op not in ('<', '<='): return
        t = c.a[0]; fv = [m for m in t.m if m]
        if len(fv) != 1 or len(fv[0]) != 1 or fv[0][0][1] != 1: return
        a = T._atoms[fv[0][0][0]]
        if a.kind != 'var' or a.sort == 'I' or a.name == 'pi': return
        q = float(t.m[fv[0]]); b = -float(t.m.get((), 0)) / q; lo, hi = box.get((a.name,), (-math.inf, math.inf))
        if (q > 0) != neg: hi = min(hi, b)
        else: lo = max(lo, b)
        if lo <= hi: box[(a.name,)] = (lo, hi)
    for c in pc: add(c)
    return box

def failing(t, pc, p, extra, tries, need):
    rng = random.Random(7); bad = []; some = False; box = boxes(pc)
    for ints in models(p, rng, tries, extra):
        for q in range(40):
            E = Ev(dict(ints), p.mono, (rng.random(),)); E.pos = (0.6, 1.0, 0.0)[q % 3]; E.box = box
            try:
                if not all(E.cond(c, {}) for c in list(pc)): continue
                some = True
                if isinstance(t, T.Cond):
                    if E.cond(t, {}): break
                    if not gen.intc(t) and min((abs(E.term(x.a[0], {})) for x in parts(t)), default=1.0) < 1e-6: continue
                    bad.append(dict(sizes=dict(E.ints), value='false'))
                else:
                    v = E.term(t, {}); sc = max([abs(E.term(T.Term({m: c}), {})) for m, c in list(t.m.items())[:50]] + [1e-9])
                    if abs(v) <= 1e-7 * sc: break
                    bad.append(dict(sizes=dict(E.ints), difference=v, scale=sc))
                break
            except (NoInstance, OverflowError, ZeroDivisionError, TypeError): continue
        if len(bad) >= need: return bad
    return None

def refute(t, pc, p, indices=(), tries=12, need=2):
    """instances on which the obligation fails, or None.  Iterations that the path distinguishes are taken equal to an index of the obligation."""
    forked = {}
    for c in p.pc:
        if gen.intc(c):
            for i in c.fv():
                if T._atoms[i].kind == 'var' and T._atoms[i].name.startswith('k#'): forked[i] = forked.get(i, 0) + 1
    ks = [T.of_atom(T._atoms[i]) for i, n in forked.items() if n > 2]
    try:
        if not ks: return failing(t, pc, p, (), tries, need)
        bad = None
        if len(ks) > 2: return None
        for pm in itertools.product(indices, repeat=len(ks)):
            ex = [T.cmp_(k, '==', i) for k, i in zip(ks, pm)]
            if not feasible(p, ex): continue
            b = failing(t, pc, p, ex, tries, need)
            if not b: return None
            bad = b
        return bad
    except z3.Z3Exception: return None

def feasible(p, ex): return next(iter(models(p, random.Random(3), 1, ex)), None) is not None

def parts(c):
    if c.op in ('<', '<=', '=='): return [c]
    return [y for x in c.a if isinstance(x, T.Cond) for y in parts(x)]
