"""Loop contracts.  Every while/for loop of a loaded module is rewritten mechanically (on every run, from the current source)

    while C: B            ->   L = __loop__(function, n); if L.on: (names stored in B) = L.start(locals())
                               for _ in L.turns():  if not C: break;  B
    for x in E: B         ->   the same, with  for x in L.turns(E): B

Without a registered contract the rewritten loop runs like the original.  With one: the invariant is checked for the state
before the loop (entry); every name stored in the body is replaced by an arbitrary value satisfying the invariant, or made
unusable when the contract does not describe it (havoc); one arbitrary iteration is executed; when it reaches the loop head
again the invariant is checked (step) and the path ends; a break, or the failing loop condition, continues behind the loop."""
import ast, sys
from . import terms as T, paths

class Ended(Exception): pass          # the path ends at the loop head after its obligations were recorded

class Unusable:
    def __init__(self, n): object.__setattr__(self, '_n', n)
    def _bad(self, *a, **k): raise T.Unsupported('variable %s is carried between iterations and not described by the loop contract' % object.__getattribute__(self, '_n'))
    def __getattribute__(self, k):
        if k in ('_bad', '_n', '__class__'): return object.__getattribute__(self, k)
        object.__getattribute__(self, '_bad')()
for _m in '__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __neg__ __pow__ __matmul__ __rmatmul__ __getitem__ __setitem__ __call__ __iter__ __len__ __bool__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ __hash__ __abs__ __float__ __int__ __index__ __mod__ __floordiv__ __invert__ __and__ __or__ __iadd__ __isub__ __contains__'.split():
    setattr(Unusable, _m, lambda self, *a, **k: object.__getattribute__(self, '_bad')())

contracts = {}            # (function, loop number) -> contract object with entry(v), havoc(v) -> {name: value}, step(v)

def stores(nodes):
    out = []
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):          # written in place
                while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
                if isinstance(n, ast.Name) and n.id != 'self' and n.id not in out: out.append(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out and not n.id.startswith('__'): out.append(n.id)
    return out

def snapshot(loc, skip=()):
    """the lists, dictionaries, sets and objects of the package reachable from local variables, with their contents"""
    out = {}; own = {id(x) for x in skip}
    def walk(x, depth):
        if id(x) in out or id(x) in own or depth > 5: return
        if isinstance(x, (list, dict, set)): c = dict(x) if isinstance(x, dict) else list(x)
        elif isinstance(x, tuple): c = None
        elif getattr(type(x), '__module__', '').split('.')[0] in ('tmdsimpy', 'symtmd') and isinstance(getattr(x, '__dict__', None), dict): c = dict(x.__dict__)
        else: return
        if c is not None: out[id(x)] = (x, c)
        for y in (c.values() if isinstance(c, dict) else (x if c is None else c)): walk(y, depth + 1)
    for v in loc.values(): walk(v, 0)
    return list(out.values())

def unchanged(snap, described=()):
    """described: (container, key) pairs whose contents the loop contract describes"""
    own = {(id(a), b) for a, b in described}
    same = lambda a, b: a is b or type(a) is type(b) and isinstance(a, (int, float, complex, str)) and a == b or isinstance(a, T.Term) and isinstance(b, (T.Term, int, float)) and (a - b).m == {}
    for x, c in snap:
        now = x.__dict__ if not isinstance(x, (list, dict, set)) else x
        if isinstance(now, dict): ok = all(k in now and k in c and same(c[k], now[k]) for k in set(c) | set(now) if (id(x), k) not in own)
        elif isinstance(now, set): ok = now == set(c)
        else: ok = len(now) == len(c) and all(same(a, b) for a, b in zip(c, now))
        if not ok: raise T.Unsupported('contents of a %s are carried between iterations' % type(x).__name__)

class Loop:
    def __init__(self, fn, k): self.c = contracts.get((fn, k)); self.on = self.c is not None; self.key = (fn, k)
    def start(self, v, names):
        try: self.c.entry(dict(v)); h = self.c.havoc(dict(v)) or {}
        except KeyError as e: raise T.Unsupported('loop contract expects a variable %s' % e)
        for n in h:
            if n not in names: raise T.Unsupported('loop contract describes %s, which the loop does not assign' % n)
        self.h = list(h.values())
        return tuple(h.get(n, Unusable(n)) for n in names)
    def turns(self, it=None, target=None):
        if not self.on:
            if target is None:
                while True: yield None
            yield from it
            return
        if target is not None:
            r = self.c.item(it)                # ('turn', value) or ('exit', None)
            if r[0] == 'exit': return
            snap = snapshot(sys._getframe(1).f_locals, self.h); yield r[1]
        else: snap = snapshot(sys._getframe(1).f_locals, self.h); yield None
        fr = sys._getframe(1); unchanged(snap, getattr(self.c, 'described', ()))
        try: self.c.step(dict(fr.f_locals))
        except KeyError as e: raise T.Unsupported('loop contract expects a variable %s' % e)
        raise Ended()

class Rewrite(ast.NodeTransformer):
    """wanted: names of functions whose loops are rewritten"""
    def __init__(self, wanted): self.wanted = wanted; self.fn = None; self.k = 0
    def visit_FunctionDef(self, n):
        if self.fn is not None or n.name not in self.wanted: 
            if self.fn is None: self.generic_visit(n)
            return n
        self.fn, self.k = n.name, 0; self.generic_visit(n); self.fn = None
        return n
    def loop(self, n, it, target):
        k = self.k; self.k += 1; v = '__L%d' % k; names = [x for x in stores(n.body + ([n.target] if target else [])) ]
        self.generic_visit(n)
        L = lambda s: ast.parse(s).body[0]
        pre = [L('%s = __loop__(%r, %d)' % (v, self.fn, k))]
        if names: pre.append(L('if %s.on: (%s,) = %s.start(locals(), %r)' % (v, ', '.join(names), v, names)))
        call = ast.parse('%s.turns()' % v if not target else '%s.turns(0, 1)' % v, mode='eval').body
        if target: call.args[0] = it
        body = n.body if target else [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
        f = ast.For(n.target if target else ast.Name('__turn', ast.Store()), call, body, n.orelse if target else [])
        if n.orelse and not target: raise T.Unsupported('while with else')
        out = pre + [f]
        for s in out: ast.copy_location(s, n); ast.fix_missing_locations(s)
        return out
    def visit_While(self, n): return self.loop(n, None, False) if self.fn else self.generic_visit(n) or n
    def visit_For(self, n): return self.loop(n, n.iter, True) if self.fn else self.generic_visit(n) or n
    def generic_visit(self, n): return super().generic_visit(n)

WANTED = {'continuation', 'nsolve', 'line_search', 'local_force_history', 'local_force_history_crit'}
def text_format(f, a):
    """'...' % values for messages: a symbolic number is shown as a name"""
    def ok(x): return not isinstance(x, T.Term) or x.is_const()
    if all(ok(x) for x in (a if isinstance(a, tuple) else (a,))): return f % a
    return f

class Formats(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__format__', ast.Load()), [n.left, n.right], []), n)
        return n

def rewrite(src, filename):
    t = Formats().visit(ast.parse(src, filename))
    if any(isinstance(n, ast.FunctionDef) and n.name in WANTED for n in ast.walk(t)): t = Rewrite(WANTED).visit(t)
    return ast.fix_missing_locations(t)
