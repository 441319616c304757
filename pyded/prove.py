"""Discharging obligations: normalisation, then case splitting on conditions, then z3."""
import time, random, math
from fractions import Fraction as Fr
from . import terms as T, smt
from .terms import Term, Cond

class Result:
    def __init__(self, status, backend, env=None, note=''):
        self.status = status; self.backend = backend; self.env = env; self.note = note

def split_atoms(t, acc, seen=None):
    """conditions to split on (ite / ind / abs), innermost first"""
    if seen is None: seen = set()
    for mono in t.m:
        for (i, e) in mono:
            if i not in seen: seen.add(i); _sa(T._atoms[i], acc, seen)
def _sa(a, acc, seen):
    if a.kind == 'ite':
        _sc(a.args[0], acc, seen); split_atoms(a.args[1], acc, seen); split_atoms(a.args[2], acc, seen); _addc(a.args[0], acc)
    elif a.kind == 'ind': _sc(a.args[0], acc, seen); _addc(a.args[0], acc)
    elif a.kind == 'app' and a.name == 'abs':
        split_atoms(a.args[0], acc, seen); _addc(T.cmp_(T.ZERO, '<=', a.args[0]), acc)
    elif a.kind == 'app':
        for x in a.args:
            if isinstance(x, Term): split_atoms(x, acc, seen)
def _sc(c, acc, seen=None):
    if seen is None: seen = set()
    for x in c.a:
        if isinstance(x, Term): split_atoms(x, acc, seen)
        elif isinstance(x, Cond): _sc(x, acc, seen)
def _addc(c, acc):
    if c.op in ('and', 'or', 'not'):
        for x in c.a: _addc(x, acc)
    elif c.op in ('<', '<=', '==', 'bvar'):
        acc.setdefault(c.key(), c)

def has_split(c):
    acc = {}
    _sc(c, acc)
    return acc

def simp(t, known):
    """resolve conditions in t; known(cond) -> True / False / None"""
    if isinstance(t, Cond): return simp_c(t, known)
    out = []
    cache = known.__dict__.setdefault('memo', {})
    for mono, c in t.m.items():
        r = T.const(c)
        for (i, e) in mono:
            v = cache.get(i)
            if v is None: v = cache[i] = simp_a(T._atoms[i], known)
            r = r * T.tpow_int(v, e)
        out.append(r)
    return T.tsum(out)
def simp_a(a, known):
    if a.kind == 'ite':
        c = simp_c(a.args[0], known)
        if c.op == 'true': return simp(a.args[1], known)
        if c.op == 'false': return simp(a.args[2], known)
        return T.ite(c, simp(a.args[1], known), simp(a.args[2], known))
    if a.kind == 'ind': return T.ind(simp_c(a.args[0], known))
    if a.kind == 'app':
        args = tuple(simp(x, known) if isinstance(x, Term) else simp_c(x, known) if isinstance(x, Cond) else x for x in a.args)
        if a.name == 'abs':
            k = known(T.cmp_(T.ZERO, '<=', args[0]))
            if k is True: return args[0]
            if k is False: return -args[0]
            k = known(T.cmp_(args[0], '<=', T.ZERO))
            if k is True: return -args[0]
        return T.rebuild(a, args)
    return T.of_atom(a)
def simp_c(c, known):
    if c.op in ('true', 'false'): return c
    if c.op in ('<', '<=', '=='):
        c = T.cmp_(simp(c.a[0], known), c.op, T.ZERO)
        if c.op in ('true', 'false'): return c
        k = known(c)
        return c if k is None else T.TRUE if k else T.FALSE
    if c.op == 'bvar':
        k = known(c)
        return c if k is None else T.TRUE if k else T.FALSE
    xs = [simp_c(x, known) for x in c.a]
    return T.and_(*xs) if c.op == 'and' else T.or_(*xs) if c.op == 'or' else T.not_(xs[0])

def linear_eqs(pc):
    """substitution from equality conditions that are linear with constant coefficient in some variable"""
    mp = {}
    for c in pc:
        if c.op != '==': continue
        t = T.subst(c.a[0], mp) if mp else c.a[0]
        for mono, k in t.m.items():
            if len(mono) == 1 and mono[0][1] == 1:
                i = mono[0][0]; a = T._atoms[i]
                if a.kind == 'var' and a.name != 'pi':
                    rest = t - T.of_atom(a) * T.const(k)
                    if i in rest.fv(): continue
                    v = rest / T.const(-k)
                    mp = {j: T.subst(w, {i: v}) for j, w in mp.items()}; mp[i] = v
                    break
    return mp

class Known:
    def __init__(self, pc):
        from .paths import Path
        self.p = Path([], pc)
    def __call__(self, c): return self.p.known(c)

def prove_zero(t, pc, budget=6.0, rng=None, strict=False):
    """t == 0 under the path condition pc"""
    t0 = time.time()
    t = T.lift(t)
    if not t.m or (len(t.m) < 60 and T.is_zero(t)): return Result('proved', 'normaliser')
    # quick refutation by sampling
    env = sample(t, pc, rng or random.Random(1))
    if env is None and len(t.m) >= 60 and T.is_zero(t): return Result('proved', 'normaliser')
    if env is not None: return Result('refuted', 'evaluation', env)
    if strict: pc = [strict_cond(c) for c in pc]
    r = split_zero(t, list(pc), t0 + budget, strict=strict)
    if r is None: return Result('proved', 'case split + normaliser' if True else '')
    if r[0] == 'cex':
        return Result('refuted', 'z3', r[1]) if confirmed(r[1], pc, lambda e: abs(T.evalf(t, e)) > 1e-9 * max(1e-6, scale(t, e))) else Result('unknown', 'counterexample of the abstraction only')
    return Result('unknown', r[1])

def confirmed(env, pc, bad):
    """the solver's model evaluated with the real functions (square roots, trigonometric functions, ...)"""
    try: return all(holds(c, env) for c in pc) and bad(env)
    except Exception: return False
def holds(c, env):
    if c.op == '==': return abs(T.evalf(c.a[0], env)) <= 1e-9 * max(1e-6, scale(c.a[0], env))
    return T.eval_cond(c, env) or (c.op == '<=' and T.evalf(c.a[0], env) <= 1e-12 * scale(c.a[0], env))

def nl_size(t): return len(t.m)

def strict_cond(c):
    return T.Cond('<', c.a) if c.op == '<=' else T.Cond('and', tuple(strict_cond(x) for x in c.a)) if c.op == 'and' else c

def sides(c, strict):
    if not strict or c.op not in ('<', '<=', '=='): return (c, T.not_(c))
    # interior of the regions only: both strict sides of the boundary
    return (T.Cond('<', c.a), T.Cond('<', (-c.a[0],)))

def split_zero(t, pc, dl, depth=0, strict=False):
    if time.time() > dl: return ('unknown', 'time')
    kn = Known(pc)
    try: t = simp(t, kn)
    except ZeroDivisionError: return ('unknown', 'division by zero in a branch')
    if not t.m: return None
    acc = {}
    split_atoms(t, acc)
    for c in acc.values():
        if kn(c) is None and not has_split(c):
            for b in sides(c, strict):
                r, _ = smt.check(pc + [b], 400)
                if r == 'unsat': continue
                q = split_zero(t, pc + [b], dl, depth + 1, strict)
                if q is not None: return q
            return None
    mp = linear_eqs(pc)
    if mp:
        t2 = T.subst(t, mp)
        if T.is_zero(t2): return None
        if (set(T._atoms[i].kind for m in t2.m for (i, e) in m) & {'ite', 'ind'}) and depth < 12:
            return split_zero(t2, [T.subst_cond(c, mp) for c in pc if T.subst_cond(c, mp).op != 'true'], dl, depth + 1, strict)
        t = t2
    t = T.clear_denominators(t)
    if not t.m: return None
    lv = list(T.leaves(t).values())
    for c in pc: lv += [a for a in T.leaves(c).values()]
    lv = {a.id: a for a in lv}
    r, env = smt.check(pc + [T.or_(T.cmp_(t, '<', T.ZERO), T.cmp_(T.ZERO, '<', t))], max(200, min(3000, (dl - time.time()) * 1000)), lv.values())
    if r == 'unsat': return None
    if r == 'sat': return ('cex', env)
    return ('unknown', 'z3 unknown')

def prove_cond(g, pc, budget=6.0, rng=None):
    g = T.as_cond(g)
    if g.op == 'true': return Result('proved', 'normaliser')
    kn = Known(pc)
    if simp_c(g, kn).op == 'true': return Result('proved', 'normaliser')
    if g.op == 'and':
        for x in g.a:
            r = prove_cond(x, pc, budget, rng)
            if r.status != 'proved': return r
        return Result('proved', 'z3')
    if g.op == '==':
        return prove_zero(g.a[0], pc, budget, rng)
    lv = {a.id: a for a in T.leaves(g).values()}
    for c in pc: lv.update(T.leaves(c))
    r, env = smt.check(pc + [T.not_(g)], budget * 1000, lv.values())
    if r == 'unsat': return Result('proved', 'z3')
    if r == 'sat' and confirmed(env, pc, lambda e: not T.eval_cond(g, e)): return Result('refuted', 'z3', env)
    e2 = sample_cond(g, pc, rng or random.Random(1))
    if e2 is not None: return Result('refuted', 'evaluation', e2)
    r = cvc5_unsat(pc + [T.not_(g)])
    if r: return Result('proved', 'cvc5')
    return Result('unknown', 'z3 unknown')

def cvc5_unsat(conds, timeout=3000):
    try:
        import z3, cvc5
        s = z3.Solver(); tr = smt.Tr(s)
        for c in conds: s.add(tr.cond(c))
        txt = s.to_smt2()
        tm = cvc5.Solver(); tm.setOption('tlimit-per', str(timeout)); tm.setLogic('ALL')
        ip = cvc5.InputParser(tm); ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'q')
        sm = ip.getSymbolManager()
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull(): break
            cmd.invoke(tm, sm)
        return tm.checkSat().isUnsat()
    except Exception:
        return False

def atoms_of(t, pc):
    lv = dict(T.leaves(t))
    for c in pc: lv.update(T.leaves(c))
    return lv

def draw(a, rng):
    if a.sort == 'I': return float(rng.randint(0, 6))
    u = rng.random()
    x = rng.uniform(-2, 2) if u < 0.7 else rng.uniform(-0.2, 0.2) if u < 0.85 else rng.uniform(-8, 8)
    return x

def sample(t, pc, rng, n=60):
    lv = atoms_of(t, pc)
    eqs = [c for c in pc if c.op == '==']
    mp = linear_eqs(eqs) if eqs else {}
    for k in range(n):
        env = {i: draw(a, rng) for i, a in lv.items() if i not in mp and not (a.kind == 'var' and a.name == 'pi')}
        try:
            for i, v in mp.items():
                if i in lv: env[i] = T.evalf(v, env)
            if not all(T.eval_cond(c, env) for c in pc): continue
            v = T.evalf(t, env)
            sc = scale(t, env)
        except Exception: continue
        if isinstance(v, complex) or math.isnan(v) or math.isinf(v): continue
        if abs(v) > 1e-7 * max(1e-3, sc): return env
    return None

def scale(t, env):
    s = 0.0
    for mono, c in t.m.items():
        p = abs(float(c))
        for (i, e) in mono: p *= abs(T.eval_atom(T._atoms[i], env)) ** e
        s += p
    return s

def sample_cond(g, pc, rng, n=200):
    lv = atoms_of(g, pc)
    for k in range(n):
        env = {i: draw(a, rng) for i, a in lv.items() if not (a.kind == 'var' and a.name == 'pi')}
        try:
            if not all(T.eval_cond(c, env) for c in pc): continue
            if not T.eval_cond(g, env): return env
        except Exception: continue
    return None

def full_env(env, pc, leaves, rng):
    e = dict(env)
    for i, a in leaves.items():
        if i not in e and not (a.kind == 'var' and a.name == 'pi'): e[i] = draw(a, rng)
    return e
