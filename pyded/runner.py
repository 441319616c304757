import sys, os, json, time, random, traceback, hashlib, importlib, signal, multiprocessing as mp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class TimeUp(Exception): pass
def _alarm(*a): raise TimeUp()

def seed_of(*xs): return int(hashlib.sha256(repr(xs).encode()).hexdigest()[:12], 16)

def setup_paths():
    if sys.path[0] != REPO: sys.path.insert(0, REPO)
    import warnings; warnings.simplefilter('ignore')

def get(pid):
    from .contracts_api import REG
    importlib.import_module('contracts.' + pid.lower())
    return REG[pid]

def jsonable(x):
    import numpy as np
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, np.generic): return x.item()
    if x is None or isinstance(x, (bool, int, float, str)): return x
    return str(x)

# ---------------------------------------------------------------------------------------- numeric
def num_one(c, picks, values, rngseed, tier):
    """one run of the contract on the real package: ('ok'|'skip'|'fail', dom, fails)"""
    import numpy as np, contextlib, io
    from .dom import NumDom, Skip
    D = NumDom(np.random.default_rng(rngseed), picks, values, tier)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            c.fn(D)
    except Skip: return ('skip', D, D.fails) if not D.fails else ('fail', D, D.fails)
    except TimeUp: raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/tmdsimpy/' in f.filename]
        if where or True:
            D.fails.append(('no exception', '%s: %s at %s' % (type(e).__name__, str(e)[:300], '%s:%d' % (where[-1].filename, where[-1].lineno) if where else '%s:%d' % (tb[-1].filename, tb[-1].lineno))))
        return 'fail', D, D.fails
    finally: D.close()
    return ('fail' if D.fails else 'ok'), D, D.fails

def task_num(pid, name, seed, tier, n, budget, part=0):
    setup_paths()
    c = get(pid)[name]
    t0 = time.time(); out = {'kind': 'num', 'contract': name, 'trials': 0, 'skipped': 0, 'checks': 0, 'slopes_skipped': 0, 'violations': [], 'labels': {}, 'samples': []}
    distinct = set()
    for k in range(n):
        if k and time.time() - t0 > budget: break
        s = seed_of(seed, pid, name, part, k)
        st, D, fails = num_one(c, None, None, s, tier)
        out['trials'] += 1; out['checks'] += D.checks; out['slopes_skipped'] += D.skipped
        for l, v in D.labels.items(): out['labels'][l] = out['labels'].get(l, 0) + v
        if st == 'skip': out['skipped'] += 1; continue
        distinct.add(json.dumps(jsonable(D.drawn), sort_keys=True)[:4000] + repr(sorted(D.picks.items(), key=str)))
        if len(out['samples']) < 2: out['samples'].append({'contract': name, 'picks': jsonable(D.picks), 'inputs': short(D.drawn)})
        if st == 'fail':
            out['violations'].append({'label': fails[0][0], 'detail': fails[0][1], 'all': fails[:6], 'picks': jsonable(D.picks), 'values': jsonable(D.drawn), 'seed': s, 'found_by': 'run-time contract check on the real code'})
            if len(out['violations']) >= 3: break
    out['distinct'] = len(distinct); out['wall'] = time.time() - t0
    return out

def short(d):
    r = {}
    for k, v in list(d.items())[:8]:
        s = json.dumps(jsonable(v)); r[k] = s if len(s) < 120 else s[:117] + '...'
    return r

# --------------------------------------------------------------------------------------- symbolic
class Configs:
    """structural choices of a contract, visited so that every option of every choice appears early (balanced descent)"""
    def __init__(self): self.root = {'name': None, 'kids': None, 'done': False, 'n': 0}; self.path = []
    def next(self):
        if self.root['done']: return None
        node = self.root; picks = {}; self.path = [node]
        while node['kids']:
            o, node = min(((o, k) for o, k in node['kids'] if not k['done']), key=lambda z: z[1]['n'])
            picks[self.path[-1]['name']] = o; self.path.append(node)
        return picks
    def need(self, name, opts):
        n = self.path[-1]; n['name'] = name; n['kids'] = [(o, {'name': None, 'kids': None, 'done': False, 'n': 0}) for o in opts]
        if not opts: self.finish()
    def finish(self):
        for n in self.path: n['n'] += 1
        self.path[-1]['done'] = True
        for n in reversed(self.path[:-1]): n['done'] = all(k['done'] for _, k in n['kids'])

class Prof:
    def __init__(self): self.fs = set()
    def __call__(self, frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if '/tmdsimpy/' in f: self.fs.add(f.split('/tmdsimpy/', 1)[1] + ':' + frame.f_code.co_qualname)

def task_sym(pid, name, seed, tier, budget, part=0):
    setup_paths()
    from . import terms as T, paths, prove, smt, load
    from .dom import SymDom, NeedPick
    c = get(pid)[name]
    t0 = time.time(); rng = random.Random(seed_of(seed, pid, name))
    out = {'kind': 'sym', 'contract': name, 'configs': 0, 'paths': 0, 'obligations': 0, 'proved': 0, 'by': {}, 'undecided': [], 'unsupported': [], 'violations': [], 'canary': None, 'covers': 0, 'functions': [], 'labels': {}, 'refuted_unreplayed': [], 'cfgs': []}
    import itertools
    tree = Configs()
    prof = Prof()
    try:
        while out['configs'] < c.maxcfg * (3 if tier == 'thorough' else 1) and time.time() - t0 < budget:
            picks = tree.next()
            if picks is None: break
            need = None
            def run():
                D = SymDom(picks, tier)
                try: c.fn(D)
                finally: D.close()
                return D
            gen = paths.explore(run, max_paths=c.max_paths, max_time=max(2.0, budget - (time.time() - t0)))
            paths_here = 0
            try:
                first = out['configs'] == 0
                if first: sys.setprofile(prof)
                try:
                    for p, D, exc in gen:
                        if os.environ.get('VERIF_TRACE'): print('%7.1f %s %s' % (time.time() - t0, picks, len(p.pc) if p else ''), file=sys.stderr)
                        if first and paths_here == 0: sys.setprofile(None)
                        if isinstance(exc, NeedPick): need = exc; break
                        if exc is not None:
                            msg = '%s: %s' % (type(exc).__name__, str(exc)[:200])
                            tb = traceback.extract_tb(exc.__traceback__); w = [f for f in tb if '/tmdsimpy/' in f.filename]
                            if w: msg += ' at %s:%d' % (w[-1].filename.split('/tmdsimpy/')[1], w[-1].lineno)
                            elif os.environ.get('VERIF_DEBUG'): traceback.print_exception(exc)
                            if os.environ.get('VERIF_DEBUG'): traceback.print_exception(exc)
                            if msg not in out['unsupported']: out['unsupported'].append(msg)
                            # an exception on a feasible path: try to reproduce it on the real code
                            if not isinstance(exc, T.Unsupported): try_exception(c, p, picks, rng, tier, out)
                            continue
                        paths_here += 1; out['paths'] += 1
                        discharge(c, p, D, picks, rng, tier, out, t0, budget)
                        if len(out['violations']) >= 3: break
                finally: sys.setprofile(None)
            except T.Unsupported as e:
                out['unsupported'].append(str(e)[:200])
            finally: gen.close()
            if need is not None:
                nm, opts = need.args
                tree.need(nm, opts)
                continue
            tree.finish(); out['configs'] += 1; out['cfgs'].append(jsonable(picks))
            if paths_here: out['covers'] += 1
            if len(out['violations']) >= 3: break
        if not tree.root['done']: out['unexplored'] = 'some configurations beyond the limit'
    except TimeUp:
        out['unsupported'].append('time limit')
    out['functions'] = sorted(prof.fs)
    out['solver'] = dict(smt.stats); out['wall'] = time.time() - t0
    return out

def discharge(c, p, D, picks, rng, tier, out, t0, budget):
    from . import terms as T, prove
    for (kind, label, data, pc) in D.obl:
        out['obligations'] += 1
        base = label.split('[')[0]
        out['labels'][base] = out['labels'].get(base, 0) + 1
        if kind == 'fail': r = prove.Result('refuted', 'execution', {}, data)
        elif time.time() - t0 > budget * 1.5: r = prove.Result('unknown', 'budget exhausted')
        elif kind in ('zero', 'dzero'):
            r = prove.prove_zero(data, pc, rng=rng, strict=kind == 'dzero')
            if out['canary'] is None and r.status == 'proved':
                q = prove.prove_zero(T.lift(data) + 1, pc, rng=rng)
                out['canary'] = 'refuted' if q.status == 'refuted' else q.status
        else: r = prove.prove_cond(data, pc, rng=rng)
        if r.status == 'proved':
            out['proved'] += 1; out['by'][r.backend] = out['by'].get(r.backend, 0) + 1
            continue
        if r.status == 'refuted':
            v = replay_env(c, D, picks, r.env or {}, pc, rng, tier)
            if v is not None:
                v['label'] = label if not v.get('label') else v['label']; v['obligation'] = '%s / %s' % (c.name, label)
                v['term'] = (T.show(data) if kind in ('zero', 'dzero') else str(data))[:2000]
                v['found_by'] = 'refuted obligation (%s), replayed on the real code' % r.backend
                if len(out['violations']) < 3: out['violations'].append(v)
                continue
            w = {'label': '%s / %s' % (c.name, label), 'picks': jsonable(picks), 'what': (T.show(data) if kind in ('zero', 'dzero') else str(data))[:600]}
            out['refuted_unreplayed'].append(w)
            if len(out['violations']) < 3: out['violations'].append({'label': label, 'detail': 'obligation refuted by the verifier (%s); the counterexample did not reproduce on the running code: %s' % (r.backend, w['what']), 'picks': jsonable(picks), 'values': None, 'obligation': w['label'], 'term': w['what'], 'found_by': 'refuted obligation'})
            continue
        if len(out['undecided']) < 20: out['undecided'].append({'label': label, 'why': r.backend + ' ' + r.note, 'picks': jsonable(picks)})

def values_from(D, env, pc, rng):
    from . import terms as T, prove
    import numpy as np
    vals = {}
    full = dict(env)
    for nm, t in D.inputs.items():
        if isinstance(t, np.ndarray):
            a = np.empty(t.shape)
            for ix in np.ndindex(*t.shape): a[ix] = ev(np.ndarray.__getitem__(t, ix), full, rng)
            vals[nm] = a
        else: vals[nm] = ev(t, full, rng)
    return vals
def ev(t, env, rng):
    i = list(t.m)[0][0][0]
    if i not in env:
        from . import terms as T, prove
        env[i] = prove.draw(T._atoms[i], rng)
    v = env[i]
    return float(v)

def replay_env(c, D, picks, env, pc, rng, tier):
    import numpy as np
    for attempt in range(6):
        e = dict(env)
        vals = values_from(D, e, pc, rng)
        st, N, fails = num_one(c, picks, vals, seed_of('replay', attempt), tier)
        if st == 'fail':
            return {'label': fails[0][0], 'detail': fails[0][1], 'all': fails[:6], 'picks': jsonable(N.picks), 'values': jsonable(N.drawn), 'seed': seed_of('replay', attempt)}
    for attempt in range(12):
        st, N, fails = num_one(c, picks, None, seed_of('rnd', attempt), tier)
        if st == 'fail':
            return {'label': fails[0][0], 'detail': fails[0][1], 'all': fails[:6], 'picks': jsonable(N.picks), 'values': jsonable(N.drawn), 'seed': seed_of('rnd', attempt)}
    return None

def try_exception(c, p, picks, rng, tier, out):
    for attempt in range(4):
        st, N, fails = num_one(c, picks, None, seed_of('exc', attempt), tier)
        if st == 'fail':
            out['violations'].append({'label': fails[0][0], 'detail': fails[0][1], 'all': fails[:6], 'picks': jsonable(N.picks), 'values': jsonable(N.drawn), 'seed': seed_of('exc', attempt), 'found_by': 'exception on a symbolic path, reproduced on the real code'})
            return

# ---------------------------------------------------------------------------------------- driver
def _work(args):
    kind, rest, limit = args[0], args[1], args[2]
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(limit))
    try:
        if kind == 'num': return task_num(*rest)
        if kind == 'sym': return task_sym(*rest)
        if kind == 'gen':
            from . import genproof
            return genproof.task(*rest)
    except TimeUp:
        return {'kind': kind, 'contract': rest[1], 'timeout': True, 'violations': [], 'wall': limit}
    except BaseException as e:
        return {'kind': kind, 'contract': rest[1], 'error': traceback.format_exc()[-3000:], 'violations': [], 'wall': 0}
    finally: signal.alarm(0)

def known_findings():
    ks = []
    f = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(f):
        for k in json.load(open(f)): ks.append(k)
    return ks

def is_known(pid, contract, v, ks):
    for k in ks:
        if k.get('status') != 'known' or k['property'] != pid or k['contract'] != contract: continue
        if k['label'] != v['label']: continue
        if all(v['picks'].get(a) == b for a, b in k.get('picks', {}).items()): return k
    return None

def run(pid, tier=None, seed=None, only=None, workers=None, modes=('sym', 'num')):
    tier = tier or os.environ.get('VERIF_TIER', 'quick'); seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cs = get(pid)
    tasks = []
    for name, c in cs.items():
        if only and name not in only: continue
        b = c.budget * (6 if tier == 'thorough' else 1)
        if c.sym and 'sym' in modes: tasks.append(('sym', (pid, name, seed, tier, b), b * 2 + 60))
        if c.num and 'num' in modes:
            n = c.num * (c.thorough if tier == 'thorough' else 1)
            tasks.append(('num', (pid, name, seed, tier, n, (240 if tier == 'thorough' else 40)), 500))
    if 'sym' in modes:
        from .contracts_api import GEN
        for g in GEN.get(pid, []):
            if only and g not in only: continue
            tasks.append(('gen', (pid, g, seed, tier), 300))
    w = workers or min(8, max(1, len(tasks)))
    res = []
    if w == 1:
        for t in tasks: res.append(_work(t))
    else:
        ctx = mp.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(w, mp_context=ctx) as ex:
            futs = [ex.submit(_work, t) for t in tasks]
            for f, t in zip(futs, tasks):
                try: res.append(f.result())
                except Exception as e: res.append({'kind': t[0], 'contract': t[1][1], 'error': 'worker died: %r' % e, 'violations': []})
    return report(pid, tier, seed, cs, res, t0)

def report(pid, tier, seed, cs, res, t0):
    ks = known_findings()
    viol = []; known = []
    for r in res:
        for v in r.get('violations', []):
            v['contract'] = v.get('of', r['contract'])
            k = is_known(pid, v['contract'], v, ks)
            if k: known.append(k)
            else: viol.append(v)
    sym = [r for r in res if r['kind'] == 'sym' and 'obligations' in r]; nums = [r for r in res if r['kind'] == 'num' and 'trials' in r]
    gen = [r for r in res if r['kind'] == 'gen' and 'obligations' in r]
    problems = [{'contract': r['contract'], 'kind': r['kind'], 'problem': r.get('error') or 'time limit'} for r in res if r.get('error') or r.get('timeout')]
    by = {}
    for r in sym + gen:
        for k, v in r.get('by', {}).items(): by[k] = by.get(k, 0) + v
    full = [r for r in sym if cs[r['contract']].scope == 'full'] + gen
    bnd = [r for r in sym if cs[r['contract']].scope != 'full']
    S = lambda rs, k: sum(r[k] for r in rs)
    fns = sorted(set(f for r in sym + gen for f in r.get('functions', [])))
    try: mod = importlib.import_module('contracts.' + pid.lower())
    except Exception: mod = None
    try: level = [c['level'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if c['property'] == pid][0]
    except Exception: level = 'other'
    cov = {
        'explanation': 'deductive verification of contracts on the real functions; obligations counts only contracts without any bound, bounded_obligations holds for all real values at the listed array shapes, evaluations are run-time checks of the same contracts on the real package',
        'obligations': S(full, 'obligations') if full else 0, 'discharged': S(full, 'proved') if full else 0,
        'obligations_scope': 'contracts without any bound (unbounded sizes or functions without size parameters)',
        'bounded_obligations': S(bnd, 'obligations') if bnd else 0, 'bounded_discharged': S(bnd, 'proved') if bnd else 0,
        'bounded_scope': 'all real values, finitely many array shapes (listed per contract); labelled bounded, not counted as proved',
        'back_ends': by, 'solver_queries': sum(r['solver']['queries'] for r in sym + gen if 'solver' in r), 'solver_seconds': round(sum(r['solver']['time'] for r in sym + gen if 'solver' in r), 3),
        'functions_under_contract': fns,
        'contracts': [dict({k: r[k] for k in ('contract', 'configs', 'paths', 'obligations', 'proved', 'canary', 'covers', 'labels') if k in r}, shapes=r.get('cfgs'), scope=cs[r['contract']].scope if r['contract'] in cs else 'full',
                           undecided=r['undecided'][:5], out_of_reach=r['unsupported'][:5], refuted_but_not_reproduced=r['refuted_unreplayed'][:5], wall=round(r['wall'], 2)) for r in sym + gen],
        'evaluations': S(nums, 'trials') if nums else 0, 'distinct_nontrivial': S(nums, 'distinct') if nums else 0,
        'rule': 'run-time contract check on the real package: sizes and values drawn from VERIF_SEED; a case counts when its precondition held and its inputs differ from every other case of that contract',
        'postconditions_evaluated': S(nums, 'checks') if nums else 0,
        'runtime_contracts': [{k: r[k] for k in ('contract', 'trials', 'distinct', 'skipped', 'checks', 'slopes_skipped')} for r in nums],
        'samples': [s for r in nums for s in r['samples']][:6],
        'checker_cmd': 'VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s' % (seed, tier, pid),
        'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
        'problems': problems,
    }
    vac = []
    for r in sym + gen:
        if r['obligations'] == 0: vac.append('%s generated no obligations (%s)' % (r['contract'], '; '.join(r['unsupported'][:2])))
        if r.get('canary') == 'proved': vac.append('%s: a false obligation was accepted' % r['contract'])
    cov['vacuity'] = vac
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(jsonable(ev), f, indent=1)
    for k in {k['what']: k for k in known}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d unbounded obligations (%d discharged), %d bounded (%d discharged), %d run-time cases, %d postconditions, %.1fs' % (pid, cov['obligations'], cov['discharged'], cov['bounded_obligations'], cov['bounded_discharged'], cov['evaluations'], cov['postconditions_evaluated'], time.time() - t0))
    for r in sym + gen:
        bad = r['obligations'] - r['proved']
        if bad or r['unsupported']: print('  note: %s: %d obligation(s) not discharged; %s' % (r['contract'], bad, '; '.join((r['unsupported'] + [str(u) for u in r['undecided'][:2]] + [str(u) for u in r['refuted_unreplayed'][:2]])[:3])[:700]))
    for p in problems: print('  note: %s %s: %s' % (p['kind'], p['contract'], p['problem'][-1500:]))
    for v in vac: print('  note: vacuity: ' + v)
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for k, v in enumerate(viol):
            key = (v['contract'], v['label'])
            if key in seen: continue
            seen.add(key)
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, v['contract'], k))
            with open(path, 'w') as f: json.dump(jsonable(dict(v, property=pid, replay='./check.sh --replay ' + path)), f, indent=1)
            print('  %s / %s: %s' % (v['contract'], v['label'], v['detail'][:400]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v.get('values') is not None else ' no-failing-input-found'))
        return 1
    return 0

TRUSTED = [
    'the symbolic engine (pyded): term normaliser, path explorer, z3 5.3 / cvc5 1.4 for feasibility and case splits',
    'numpy object-array indexing, broadcasting, reshaping and matrix products (the engine lets numpy do them)',
    'exact stand-ins for numpy/jax functions: fft/ifft as the discrete Fourier sums, where/maximum/minimum/sign/abs by cases, jacfwd as exact differentiation, fori_loop as a loop',
    'machine floating point treated as exact real arithmetic (float literals read as the nearest short rational or multiple of pi)',
]

def replay(path):
    v = json.load(open(path))
    setup_paths()
    c = get(v['property'])[v['contract']]
    picks = {k: (tuple(x) if False else x) for k, x in v['picks'].items()}
    st, D, fails = num_one(c, picks, v['values'], v['seed'], 'quick')
    print(st); 
    for l, d in fails: print('  %s: %s' % (l, d))
    return 1 if st == 'fail' else 0

def main(argv):
    if argv and argv[0] == '--replay': return replay(argv[1])
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--only', action='append'); ap.add_argument('--workers', type=int); ap.add_argument('--mode', action='append'); ap.add_argument('--tier'); ap.add_argument('--seed', type=int)
    a = ap.parse_args(argv)
    return run(a.pid, a.tier, a.seed, a.only, a.workers, tuple(a.mode) if a.mode else ('sym', 'num'))
