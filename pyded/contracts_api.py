REG = {}
class Contract:
    def __init__(self, pid, name, fn, funcs, num, sym, budget, scope, jax, maxcfg, paths_, thorough):
        self.pid = pid; self.name = name; self.fn = fn; self.funcs = funcs; self.num = num; self.sym = sym; self.budget = budget
        self.scope = scope; self.jax = jax; self.maxcfg = maxcfg; self.max_paths = paths_; self.thorough = thorough
def contract(pid, funcs=(), num=40, sym=True, budget=25.0, scope='bounded', jax=False, maxcfg=24, paths=600, thorough=6, name=None):
    """scope: 'bounded' (finitely many shapes, all real values) or 'full' (no shape parameter: all inputs)"""
    def w(f):
        c = Contract(pid, name or f.__name__, f, list(funcs), num, sym, budget, scope, jax, maxcfg, paths, thorough)
        REG.setdefault(pid, {})[c.name] = c
        return f
    return w
GEN = {}
class GenContract:
    def __init__(self, pid, name, fn, budget, paths, replay): self.pid, self.name, self.fn, self.budget, self.paths, self.replay = pid, name, fn, budget, paths, replay
def gen(pid, budget=60.0, paths=400, replay=(), name=None):
    """contract for arrays of every size; replay: contracts of the same property that are run on the real code when an obligation is refuted"""
    def w(f):
        GEN.setdefault(pid, {})[name or f.__name__] = GenContract(pid, name or f.__name__, f, budget, paths, (replay,) if isinstance(replay, str) else tuple(replay))
        return f
    return w
