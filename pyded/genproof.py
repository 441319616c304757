"""Runs contracts on arrays of symbolic size and discharges their obligations (no bound on any dimension)."""
import os, sys, time, random, traceback
import numpy as np
from . import terms as T, paths, prove, smt, gen, instance, loops
from .terms import Term, Cond, Unsupported, lift
from .gen import GArr, GPath, GNP

class Need(Exception): pass
class G:
    """input generator and obligation collector of one path"""
    def __init__(self, picks, need, pid=None): self.pid = pid; self.picks = picks; self.need = need; self.obl = []; self.used = {}; self.undo = []; self.indices = []
    np = GNP
    def pick(self, name, opts):
        opts = list(opts)
        if name not in self.picks: raise self.need(name, opts)
        self.used[name] = self.picks[name]
        return self.picks[name]
    def mod(self, name): return gen.module(name)
    # sizes, indices, values
    def size(self, name, lo=1, block=False):
        n = T.var(name, 'I'); p = gen.P(); p.assume(n >= lo)
        if block: p.dims = p.dims + (n,)
        return n
    def index(self, name, hi, lo=0):
        i = T.var(name, 'I'); p = gen.P(); p.assume(i >= lo); p.assume(i < hi); self.indices.append(i); return i
    def scalar(self, name): return T.var(name)
    def assume(self, c): gen.P().assume(c)
    def array(self, name, *shape):
        a = GArr(shape, lambda idx: T.app(name, *idx)); gen.journal.append(a); return a
    def harmonics(self, zero, nh, name='hh'):
        """[0] + strictly increasing positive integers (or without the zero); nh is the number of nonzero harmonics"""
        p = gen.P(); p.mono = p.mono + (name,)
        z = 1 if zero else 0
        def f(idx):
            i = lift(idx[0])
            if z and gen.yes(T.cmp_(i, '==', T.ZERO)): return T.ZERO
            return T.app(name, i - z, sort='I')
        a = GArr((nh + z,), f); a.integer = True
        return a
    def patch(self, obj, name, f):
        old = getattr(obj, name); self.undo.append((obj, name, old)); setattr(obj, name, f); return old
    def loop(self, fn, k, contract): loops.contracts[fn, k] = contract
    def peel(self, on): gen.PEEL[0] = on
    def close(self):
        gen.PEEL[0] = True; gen.LIN.clear(); loops.contracts.clear()
        for obj, name, old in reversed(self.undo): setattr(obj, name, old)
    # obligations
    def zero(self, label, t):
        t = gen.val(t)
        p = gen.P()
        self.obl.append((label, t, list(p.pc)))
    def eq(self, label, a, b): self.zero(label, gen.val(a) - gen.val(b))
    def true(self, label, c):
        if isinstance(c, (bool, np.bool_)): c = T.TRUE if c else T.FALSE
        self.obl.append((label, c, list(gen.P().pc)))
    def unreached(self, label): self.obl.append((label, T.FALSE, list(gen.P().pc)))

def explore(fn, max_paths, max_time):
    stack = [[]]; n = 0; t0 = time.time()
    while stack:
        pre = stack.pop()
        p = GPath(pre, ()); T.MOD[:] = [gen.kmod]
        paths._cur.append(p); T.divisors.clear(); gen.loops.clear(); gen.journal.clear(); T._fresh[0] = 10 ** 6
        exc = None; res = None
        try: res = fn()
        except paths.Infeasible: exc = 'infeasible'
        except Exception as e: exc = e
        try:
            for i in range(len(pre), len(p.dec)):
                if i not in p.fixed: stack.append(p.dec[:i] + [not p.dec[i]])
            if exc == 'infeasible': continue
            n += 1
            yield p, res, exc
        finally: paths._cur.pop(); T.MOD.clear()
        if n >= max_paths and stack: raise paths.Budget('more than %d paths' % max_paths)
        if time.time() - t0 > max_time and stack: raise paths.Budget('path exploration over %gs' % max_time)

def canon(t, p):
    """rewrite integer index terms that the path makes equal"""
    eqs = [c for c in p.pc if c.op == '==' and c.a[0].int_sorted()]
    for c in p.pc:
        if c.op == '<=' and c.a[0].int_sorted() and p.entails(T.cmp_(c.a[0], '>=', T.ZERO)) is True: eqs.append(T.Cond('==', c.a))
    for a in {i: T._atoms[i] for c in p.pc if gen.intc(c) for i in c.fv()}.values():
        if a.kind == 'var' and a.sort == 'I':
            for q in (0, 1, 2):
                e = T.cmp_(T.of_atom(a), '==', lift(q))
                if p.entails(e) is True: eqs.append(e); break
    mp = prove.linear_eqs(eqs) if eqs else {}
    t = T.subst(t, mp) if mp else t
    return gen.short_sums(gen.quotients(t))

def discharge(label, t, pc, p):
    if isinstance(t, Cond):
        if t.op == 'true': return 'proved', 'normaliser'
        if gen.intc(t) and p.entails(t) is True: return 'proved', 'z3 (integers)'
        r = prove.prove_cond(t, pc, 4.0)
        return r.status, r.backend
    if not t.m or T.is_zero(t): return 'proved', 'normaliser'
    u = canon(t, p)
    if not u.m or T.is_zero(u): return 'proved', 'normaliser'
    u = join_sums(u)
    if not u.m or T.is_zero(u): return 'proved', 'normaliser'
    u = join_sums(merge(u, p))
    if not u.m or T.is_zero(u): return 'proved', 'index equalities (z3) + normaliser'
    try:
        if T.is_zero(flat(u)): return 'proved', 'interchange of finite sums + normaliser'
    except Unsupported as e: 
        if os.environ.get('VERIF_DEBUG'): pass
    rpc = [c for c in pc if not gen.intc(c)]
    try:
        r = prove.split_zero(u, rpc, time.time() + 4.0)
        if r is None: return 'proved', 'case split + normaliser'
    except Unsupported: pass
    try:
        if termwise(u, rpc): return 'proved', 'term by term + case split'
    except Unsupported as e:
        if os.environ.get('VERIF_DEBUG'): print('TERMWISE', e)
    if os.environ.get('VERIF_DEBUG'): print('DIFF', T.show(u)); print('FLATTENED', T.show(flat(u)))
    return 'open', 'difference %s' % T.show(u)[:400]

def termwise(t, rpc, depth=0):
    """a combination of sums over the same range is zero when the combined summand is zero for an arbitrary index"""
    by, rest = {}, []
    for mono, c in t.m.items():
        hit = [i for i, e in mono if e == 1 and T._atoms[i].kind == 'app' and T._atoms[i].name == 'gsum']
        if not hit: rest.append(Term({mono: c})); continue
        i = hit[0]; n, b = T._atoms[i].args; v = T.var('tw%d' % depth, 'I')
        by.setdefault(n.key(), []).append(T.subst(b, {gen.vid(T.var('B%d' % T._atoms[i].info, 'I')): v}) * Term({tuple(x for x in mono if x[0] != i): c}))
    if not by or depth > 3: return False
    for b in [T.tsum(x) for x in by.values()] + [T.tsum(rest)]:
        if not b.m or T.is_zero(b): continue
        if prove.split_zero(b, rpc, time.time() + 6.0) is None: continue
        if not termwise(b, rpc, depth + 1): return False
    return True

def join_sums(t):
    """sum over [0, n) plus the sum of the same body over [n, n + m) is the sum over [0, n + m)"""
    def parts(mono):
        hit = [(i, e) for i, e in mono if T._atoms[i].kind == 'app' and T._atoms[i].name == 'gsum']
        return hit[0][0] if len(hit) == 1 and hit[0][1] == 1 else None
    for _ in range(12):
        by = {}
        for mono, c in t.m.items():
            i = parts(mono)
            if i is not None: by.setdefault((c, tuple(x for x in mono if x[0] != i), T._atoms[i].info), []).append((i, mono))
        done = False
        for (c, rest, lv), xs in by.items():
            for i, mi in xs:
                for j, mj in xs:
                    if i == j or done: continue
                    (n, a), (m, b) = T._atoms[i].args, T._atoms[j].args; B = T.var('B%d' % lv, 'I')
                    if (T.subst(a, {gen.vid(B): B + n}) - b).m: continue
                    t = t - Term({mi: c}) - Term({mj: c}) + Term({rest: c}) * T.of_atom(T.atom('app', 'gsum', (n + m, a), 'R', lv)); done = True
        if not done: return t
    return t

def flat(t, depth=0):
    """nested sums in one normal form: sums over several indices, split into independent factors, with a fixed order of the indices"""
    import itertools
    if depth > 6: raise Unsupported('nesting')
    def has(a, names):
        return any(T._atoms[i].kind == 'app' and T._atoms[i].name in names for x in a.args if isinstance(x, Term) for i in T.leaves(x))
    out = []; mp = {}
    for mono in t.m:
        for i, e in mono:
            a = T._atoms[i]
            if a.kind == 'app' and a.name in ('sqrt', 'inv') and i not in mp:
                x = flat(a.args[0], depth + 1)
                if (x - a.args[0]).m: mp[i] = T.sqrt_(x) if a.name == 'sqrt' else T.UNIT / x
    if mp: t = T.subst(t, mp)
    for mono, c in t.m.items():
        fac = []; vs = []          # factors (term, ids of bound variables), bound variables (var, n)
        def open_(mono, bound):
            for i, e in mono:
                a = T._atoms[i]
                if a.kind == 'app' and a.name == 'gsum' and e > 0:
                    for _ in range(e):
                        n, body = a.args; v = T.fresh('m', 'I'); vs.append((v, n))
                        (m2, c2), = T.subst(body, {gen.vid(T.var('B%d' % a.info, 'I')): v}).m.items()
                        if c2 != 1: raise Unsupported('coefficient')
                        open_(m2, bound + [v])
                else: fac.append((i, e))
        open_(mono, [])
        if not vs: out.append(Term({mono: c})); continue
        ids = {gen.vid(v): (v, n) for v, n in vs}
        deps = [(i, e, frozenset(k for k in ids if k in T._atoms[i].fv)) for i, e in fac]
        for v, n in vs:
            if set(n.fv()) & set(ids): raise Unsupported('dependent bound')
        comp = []
        for k in ids: comp.append({k})
        for i, e, d in deps:
            hit = [x for x in comp if x & d]
            if len(hit) > 1:
                comp = [x for x in comp if not (x & d)] + [set().union(*hit)]
        r = Term({tuple(sorted((i, e) for i, e, d in collapse(deps) if not d)): c})
        for x in comp:
            fs = [(i, e) for i, e, d in collapse(deps) if d & x]
            if not fs: 
                for k in x: r = r * ids[k][1]
                continue
            if any(T._atoms[i].kind == 'app' and has(T._atoms[i], ('msum',)) for i, e in fs): raise Unsupported('capture')
            body = Term({tuple(sorted(fs)): 1}); best = None
            if len(x) > 5: raise Unsupported('many indices')
            for pm in itertools.permutations(sorted(x)):
                mp = {k: T.var('M%d' % q, 'I') for q, k in enumerate(pm)}
                at = T.atom('app', 'msum', tuple(ids[k][1] for k in pm) + (T.subst(body, mp),), 'R', len(pm))
                key = repr(at.args[:-1]) + T.show(at.args[-1])
                if best is None or key < best[0]: best = (key, at)
            r = r * T.of_atom(best[1])
        out.append(r)
    return T.tsum(out)

def collapse(deps):
    d = {}
    for i, e, k in deps: d[i] = (d.get(i, (0, k))[0] + e, k)
    return [(i, e, k) for i, (e, k) in d.items() if e]

def merge(t, p):
    """equal reads at indices that are provably equal"""
    ats = [a for a in T.leaves(t).values() if a.kind == 'app' and a.args and all(isinstance(x, Term) and x.int_sorted() for x in a.args)]
    mp = {}
    for n, a in enumerate(ats):
        for b in ats[:n]:
            if a.name == b.name and len(a.args) == len(b.args) and b.id not in mp:
                if all(p.entails(T.cmp_(x, '==', y)) is True for x, y in zip(a.args, b.args)): mp[a.id] = T.of_atom(b); break
    return T.subst(t, mp) if mp else t

def task(pid, name, seed, tier):
    from . import runner
    from .contracts_api import GEN
    runner.setup_paths(); runner.get(pid)
    c = GEN[pid][name]; t0 = time.time()
    out = {'kind': 'gen', 'contract': name, 'obligations': 0, 'proved': 0, 'undecided': [], 'unsupported': [], 'refuted_unreplayed': [], 'by': {}, 'labels': {}, 'functions': [], 'configs': 0, 'paths': 0, 'cfgs': [], 'canary': None, 'covers': {}, 'violations': []}
    budget = c.budget * (4 if tier == 'thorough' else 1)
    tree = runner.Configs(); prof = runner.Prof(); failed = False; refuted = []
    try:
        while True:
            picks = tree.next()
            if picks is None: break
            if time.time() - t0 > budget: out['unsupported'].append('time budget: some cases not explored'); break
            def run():
                g = G(picks, Need, pid)
                try: c.fn(g)
                except loops.Ended: pass
                finally: g.close()
                return g
            need = None; it = explore(run, c.paths, max(5.0, budget - (time.time() - t0)))
            sys.setprofile(prof)
            try:
                for p, g, exc in it:
                    sys.setprofile(None)
                    if isinstance(exc, Need): need = exc; break
                    if exc is not None:
                        if os.environ.get('VERIF_DEBUG'): traceback.print_exception(type(exc), exc, exc.__traceback__)
                        if isinstance(exc, Unsupported): out['unsupported'].append(str(exc)[:300])
                        elif gen.sat(p):
                            tb = traceback.extract_tb(exc.__traceback__)
                            out['unsupported'].append('%s: %s at %s:%d' % (type(exc).__name__, str(exc)[:200], tb[-1].filename.split('/')[-1], tb[-1].lineno)); failed = True
                        continue
                    out['paths'] += 1
                    for (label, t, pc) in g.obl:
                        out['obligations'] += 1; out['labels'][label] = out['labels'].get(label, 0) + 1
                        st, how = discharge(label, t, pc, p)
                        if st == 'proved':
                            out['proved'] += 1; out['by'][how] = out['by'].get(how, 0) + 1
                            if out['canary'] is None and isinstance(t, Term) and gen.sat(p):
                                s2, _ = discharge(label, t + 1, pc, p); out['canary'] = 'proved' if s2 == 'proved' else 'refuted'
                        elif gen.sat(p):
                            failed = True
                            if os.environ.get('VERIF_DEBUG'): print('OPEN', label, picks, how, [repr(x) for x in p.pc], file=sys.stderr)
                            if len(refuted) < 3:
                                bad = instance.refute(t, pc, p, g.indices)
                                if bad: refuted.append({'label': label, 'obligation': '%s / %s' % (c.name, label), 'detail': 'fails for sizes %s' % bad[0]['sizes'], 'instances': bad, 'term': T.show(t)[:1500] if isinstance(t, Term) else repr(t)[:1500], 'picks': runner.jsonable(picks)})
                            if len(out['undecided']) < 20: out['undecided'].append({'label': label, 'why': how, 'picks': runner.jsonable(picks)})
                        else: out['proved'] += 1; out['by']['z3 (integers)'] = out['by'].get('z3 (integers)', 0) + 1
            except paths.Budget as e: out['unsupported'].append(str(e))
            finally: sys.setprofile(None); it.close()
            if need is not None: tree.need(*need.args); continue
            out['configs'] += 1; out['cfgs'].append(runner.jsonable(picks)); tree.finish()
    except runner.TimeUp: out['unsupported'].append('time limit')
    out['unsupported'] = list(dict.fromkeys(out['unsupported']))
    out['functions'] = sorted(prof.fs)
    out['solver'] = {'queries': gen.stats['queries'] + smt.stats['queries'], 'time': gen.stats['time'] + smt.stats['time']}
    if failed: replay(pid, c, out, tier)
    if any('carried between iterations' in u for u in out['unsupported']): refuted = []          # the state of a loop is outside the contracts: nothing is concluded from an instance
    if refuted and not out['violations']: out['violations'].append(dict(refuted[0], found_by='obligation for every size refuted on an instance of the extracted code; the run-time contracts %s did not fail' % ', '.join(c.replay), others=[r['label'] for r in refuted[1:]]))
    out['wall'] = time.time() - t0
    return out

def replay(pid, c, out, tier):
    """an obligation that is not discharged is reported only with an input on which the running code fails"""
    from . import runner
    for nm in c.replay:
        k = runner.get(pid).get(nm)
        if k is None: continue
        t0 = time.time()
        for n in range(60):
            if time.time() - t0 > 15: break
            s = runner.seed_of('gen', pid, nm, n)
            st, D, fails = runner.num_one(k, None, None, s, tier)
            if st == 'fail':
                out['violations'].append({'label': fails[0][0], 'detail': fails[0][1], 'all': fails[:6], 'picks': runner.jsonable(D.picks), 'values': runner.jsonable(D.drawn), 'seed': s, 'obligation': '%s / %s' % (c.name, (out['undecided'] or [{'label': 'execution'}])[0]['label']), 'found_by': 'obligation for every size not discharged; failing input found by the run-time contract %s' % nm, 'of': nm})
                return
