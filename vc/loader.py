"""Loads /repo/src/pynlo from its current source text into symbolic modules.

What the mechanical extraction changes (nothing else is dropped or rewritten):
  * `import` resolves numpy/scipy/pyfftw/math/... to the contracts in shim.py
  * builtins that must see symbolic values (len, range, int, float, isinstance, max, ...) are wrapped
  * `for`/`while` inside functions hand their iterator/condition to loops.py, body text unchanged
  * `"literal" % x` string formatting becomes a no-op on symbolic values
"""
import ast, os, sys, types, builtins, copy as _copy, hashlib
import operator
from .terms import Unsupported
from .symval import *
from . import symval as SVM, shim
from .engine import ctx

REPO = os.environ.get('PYNLO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# ------------------------------------------------------------------ builtins
class _M(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._nat): return not (cls._nat is int and False)
        return isinstance(x, SV) and x.k in cls._ks
    def __eq__(cls, o): return o is cls or o is cls._nat
    def __hash__(cls): return hash(cls._nat)
    def __subclasscheck__(cls, o): return o is cls or issubclass(o, cls._nat)
class SymFloat(metaclass=_M):
    _nat = float; _ks = 'f'; _vc_kind = 'f'
    def __new__(cls, x=0.0):
        if isinstance(x, (SV, SB, Arr)):
            if isinstance(x, Arr): x = x.item()
            t, k = lift(x)
            if k == 'c': raise TypeError("can't convert complex to float")
            return SV(t, 'f')
        return float(x)
class SymInt(metaclass=_M):
    _nat = int; _ks = 'i'; _vc_kind = 'i'
    def __new__(cls, x=0, *a):
        if isinstance(x, (SV, SB, Arr)):
            if isinstance(x, Arr): x = x.item()
            t, k = lift(x)
            if k == 'c': raise TypeError("can't convert complex to int")
            return mkv(trunc_t(t), 'i')
        return int(x, *a)
class SymComplex(metaclass=_M):
    _nat = complex; _ks = 'c'; _vc_kind = 'c'
    def __new__(cls, x=0, y=0):
        if any(isinstance(z, (SV, SB, Arr)) for z in (x, y)):
            return SV(lift(x + 1j * y)[0], 'c')
        return complex(x, y)
class _MB(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SB))
    def __eq__(cls, o): return o is cls or o is bool
    def __hash__(cls): return hash(bool)
class SymBool(metaclass=_MB):
    _vc_kind = 'b'
    def __new__(cls, x=False): return bool(x)

class SymRange:
    def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step
    def __iter__(self): raise Unsupported('native iteration over a symbolic range')
    def count(self):
        d = self.hi - self.lo
        if self.step == 1: return d
        if self.step == -1: return self.lo - self.hi
        n = -((-d) // self.step)
        return n

def v_range(*a):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    if not any(isinstance(x, SV) for x in a): return range(*a)
    for x in a:
        if isinstance(x, SV) and x.k != 'i': raise TypeError("'float' object cannot be interpreted as an integer")
    a = [mkv(ctx().rw(x.t), 'i') if isinstance(x, SV) else x for x in a]
    if not any(isinstance(x, SV) for x in a): return range(*a)
    if len(a) == 1: return SymRange(0, a[0], 1)
    if len(a) == 2: return SymRange(a[0], a[1], 1)
    return SymRange(*a)
def v_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0: raise TypeError('len() of unsized object')
        return dimv(x.shapeT[0])
    if isinstance(x, SymList): return x.length()
    f = getattr(type(x), '_vc_len', None)
    return f(x) if f else len(x)
def v_isinstance(x, c):
    if isinstance(c, tuple): return any(v_isinstance(x, y) for y in c)
    if isinstance(c, DT): return isinstance(x, SV) and x.k == c.kind and c.kind != 'i' or (c.kind == 'f' and isinstance(x, float))
    if c is SymNum: return isinstance(x, SV)
    if c is object: return True
    if isinstance(x, (SV, SB)) and isinstance(c, type):
        if c in (shim.Opaque, SV, SB): return isinstance(x, c)
        if isinstance(c, (_M, _MB)): return isinstance(x, c)
        import numbers
        if c is numbers.Number: return True
        if c is numbers.Real: return x.k in 'fi' if isinstance(x, SV) else True
        if c is numbers.Integral: return x.k in 'i' if isinstance(x, SV) else True
        return False
    return isinstance(x, c)
def v_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SV): return {'f': SymFloat, 'i': SymInt, 'c': SymComplex}[x.k]
        if isinstance(x, Arr): return Arr
        if type(x) is float: return SymFloat
        if type(x) is int: return SymInt
        if type(x) is complex: return SymComplex
        if isinstance(x, (bool, SB)): return SymBool
        return type(x)
    return type(*a, **k)
def v_abs(x): return abs(x)
def v_minmax(name):
    nat = getattr(builtins, name)
    def f(*a, **kw):
        key = kw.get('key')
        if len(a) == 1 and isinstance(a[0], SymList): a = (a[0].to_arr(),)
        if len(a) == 1 and isinstance(a[0], Arr) and not key and a[0].ndim == 1: return a[0].max() if name == 'max' else a[0].min()
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, (SV, SB, Arr)) for x in xs) and not key: return nat(*a, **kw)
        if not xs:
            if 'default' in kw: return kw['default']
            raise ValueError('empty')
        r = xs[0]
        for x in xs[1:]:
            kx, kr = (key(x), key(r)) if key else (x, r)
            if (kx > kr) if name == 'max' else (kx < kr): r = x
        return r
    return f
def v_sum(x, start=0):
    if isinstance(x, SymList): x = x.to_arr()
    if isinstance(x, Arr):
        if x.ndim == 1: return x.sum() + start
        r = reduce_sum(x, 0); return r + start
    for y in x: start = start + y
    return start
def v_round(x, n=None):
    if isinstance(x, (SV, Arr)):
        if n is not None and isinstance(n, int):
            if isinstance(x, Arr): return shim.np_round(x, n)
            return shim.round_digits(x, n)
        if n is not None: raise Unsupported('round digits')
        return mkv(shim.t_round(lift(x)[0]), 'i')
    return round(x) if n is None else round(x, n)
def v_any(x):
    if isinstance(x, SymList): x = x.to_arr()
    if isinstance(x, Arr): return reduce_bool('any', x)
    return any(x)
def v_all(x):
    if isinstance(x, SymList): x = x.to_arr()
    if isinstance(x, Arr): return reduce_bool('all', x)
    return all(x)
def v_str(*a):
    if a and isinstance(a[0], (SV, SB, Arr)): return '<sym>'
    return str(*a)
def v_hash(x): 
    if isinstance(x, (SV, SB)) or (isinstance(x, tuple) and any(isinstance(y, (SV, SB)) for y in x)): raise Unsupported('hash of a symbolic value')
    return hash(x)
def v_pow(a, b, *m): return a ** b if not m else pow(a, b, *m)
def v_enumerate(x, start=0):
    if isinstance(x, (SymRange, SymList)) or (isinstance(x, GA) and not is_const(x.shapeT[0])): return SymEnum(x, start)
    return enumerate(x, start)
class SymEnum:
    def __init__(self, x, start): self.x = x; self.start = start
    def __iter__(self): raise Unsupported('native iteration (enumerate) over a symbolic sequence')
class SymZip:
    def __init__(self, xs): self.xs = xs
    def __iter__(self): raise Unsupported('native iteration (zip) over a symbolic sequence')
def vc_comp(loader):
    def comp(kind, f, cond, it, frame):
        symb = isinstance(it, (SymRange, SymEnum, SymZip, SymList)) or (isinstance(it, GA) and not is_const(it.shapeT[0]))
        if not symb:
            if kind == 'list': return [f(x) for x in it if cond is None or cond(x)]
            return (f(x) for x in it if cond is None or cond(x))
        if cond is not None: raise Unsupported('comprehension with a condition over a symbolic sequence')
        from . import loops
        n, item = loader.loops.seq(it)
        own = loader.loops.is_own
        def at(k): return pure(f, item(lift(k)[0]))
        before = loops.walk_state(frame, lambda d: None, own)
        k = sym('k~comp%d' % len(ctx().facts), sign='nonneg', integer=True)
        x = at(mkv(k, 'i'))
        after = loops.walk_state(frame, lambda d: None, own)
        for p, c in after.items():
            if p != '\0keep' and (p not in before or not loops.same(before[p].val, c.val)): raise Unsupported('comprehension over a symbolic sequence changes ' + p)
        if isinstance(x, (bool, SB)): kd = 'b'
        elif loops.numeric(x): kd = lift(x)[1]
        else: kd = 'o'
        return SymList(n, at, kind=kd)
    return comp
def pure(f, *a):
    """value of f without a case distinction (an element of a symbolic array stands for all elements)"""
    n = len(ctx().trail); r = f(*a)
    if len(ctx().trail) != n: raise Unsupported('case distinction on an arbitrary element of an array')
    return r
def v_zip(*xs, **k):
    if any(isinstance(x, (SymRange, SymList, SymEnum)) or (isinstance(x, GA) and not is_const(x.shapeT[0])) for x in xs): return SymZip(xs)
    return zip(*xs)
def v_reversed(x):
    if isinstance(x, SymRange):
        if x.step == 1: return SymRange(x.hi - 1, x.lo - 1, -1)
        raise Unsupported('reversed')
    if isinstance(x, Arr): return iter(x[::-1])
    return reversed(x)
def v_divmod(a, b): return (a // b, a % b)
def v_open(*a, **k):
    if a and type(a[0]) is str and (a[1] if len(a) > 1 else k.get('mode', 'r')) in ('r', 'rt') and os.path.realpath(a[0]).startswith(os.path.realpath(SRC) + os.sep):
        return builtins.open(a[0], 'r')          # data files shipped with the package
    raise Unsupported('file access')
class JSONPickle:
    @staticmethod
    def decode(s):
        import json
        return json.loads(s)
    def __getattr__(self, k): raise Unsupported('jsonpickle.' + k)
def v_list(*a):
    if a and isinstance(a[0], (SymRange, SymEnum, SymZip, SymList)): raise Unsupported('list() of a symbolic sequence')
    return list(*a)

def vc_fmt(s, x):
    try:
        return s % x
    except Unsupported:
        return s

class VCNS: pass

def make_builtins(loader):
    d = dict(vars(builtins))
    d.update(range=v_range, len=v_len, isinstance=v_isinstance, type=v_type, abs=v_abs, max=v_minmax('max'), min=v_minmax('min'), sum=v_sum,
             round=v_round, any=v_any, all=v_all, str=v_str, float=SymFloat, int=SymInt, complex=SymComplex, bool=SymBool,
             print=lambda *a, **k: None, hash=v_hash, pow=v_pow, enumerate=v_enumerate, zip=v_zip, reversed=v_reversed, divmod=v_divmod, open=v_open)
    d['__import__'] = loader.imp
    return d

# ------------------------------------------------------------------ AST transform
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []      # stack of function info
        self.k = 0
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('vc__fmt', ast.Load()), [node.left, node.right], []), node)
        return node
    def _func(self, node):
        info = FnInfo(node)
        self.fn.append(info)
        self.generic_visit(node)
        self.fn.pop()
        return node
    visit_FunctionDef = _func
    def visit_Lambda(self, node):
        self.fn.append(None); self.generic_visit(node); self.fn.pop(); return node
    def visit_ClassDef(self, node):
        self.fn.append(None); self.generic_visit(node); self.fn.pop(); return node
    def _getset(self, info, node):
        self.k += 1
        names = sorted(info.locals)
        g = 'vc__get%d' % self.k; s = 'vc__set%d' % self.k
        src = 'def %s():\n r = {}\n' % g
        for x in names: src += ' try: r[%r] = %s\n except NameError: pass\n' % (x, x)
        src += ' return r\ndef %s(vc__d):\n' % s
        if names: src += ' nonlocal %s\n' % ', '.join(names)
        for x in names: src += ' if %r in vc__d: %s = vc__d[%r]\n' % (x, x, x)
        src += ' return None\n'
        defs = ast.parse(src).body
        for d in defs:
            for n in ast.walk(d): 
                if hasattr(n, 'lineno') or isinstance(n, (ast.expr, ast.stmt)): ast.copy_location(n, node)
        return defs, g, s
    # ---- comprehensions over symbolic sequences, searches
    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or not self.fn or self.fn[-1] is None: return node
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)): return node
        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            names = [x.id for x in g.target.elts]
            inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
            return ast.Lambda(ast.arguments([], [ast.arg('vc__x')], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name('vc__x', ast.Load()), ast.Load())], []))
        if not (isinstance(g.target, ast.Name) or (isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts))): return node
        if any(isinstance(x, ast.Name) and x.id == '__class__' or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(node)): return node
        cond = ast.Constant(None) if not g.ifs else lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        new = ast.Call(ast.Name('vc__comp', ast.Load()), [ast.Constant(kind), lam(node.elt), cond, g.iter, ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
        return ast.copy_location(new, node)
    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('any', 'all') and len(node.args) == 1 and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)):
            node.args[0].elt = CondTr().visit(node.args[0].elt)
        self.generic_visit(node)
        return node
    def search(self, node):
        """for x in xs: if c(x): return r      ->      if any(c(x) for x in xs): return r        (r does not use x, x is not used elsewhere)"""
        if node.orelse or len(node.body) != 1 or not isinstance(node.body[0], ast.If) or node.body[0].orelse: return None
        t = node.body[0]; last = t.body[-1]
        if not isinstance(last, (ast.Return, ast.Break)): return None
        names = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        uses = lambda n: any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n))
        if any(uses(x) for x in t.body) or self.fn[-1].uses(names, node): return None
        if isinstance(last, ast.Break) and (len(t.body) == 1 or any(isinstance(x, (ast.Break, ast.Continue)) for y in t.body[:-1] for x in ast.walk(y))): return None
        body = t.body[:-1] if isinstance(last, ast.Break) else t.body
        gen = ast.GeneratorExp(CondTr().visit(t.test), [ast.comprehension(node.target, node.iter, [], 0)])
        return ast.copy_location(ast.If(ast.Call(ast.Name('any', ast.Load()), [gen], []), body, []), node)
    def visit_For(self, node):
        if self.fn and self.fn[-1] is not None:
            new = self.search(node)
            if new is not None:
                ast.fix_missing_locations(new)
                return self.generic_visit(new)
        self.generic_visit(node)
        info = self.fn[-1] if self.fn else None
        if info is None: return node
        defs, g, s = self._getset(info, node)
        node.iter = ast.copy_location(ast.Call(ast.Name('vc__for', ast.Load()), [node.iter, ast.Name(g, ast.Load()), ast.Name(s, ast.Load()), ast.Constant('%s:%d' % (info.name, info.next()))], []), node.iter)
        return defs + [node]
    def visit_While(self, node):
        self.generic_visit(node)
        info = self.fn[-1] if self.fn else None
        if info is None: return node
        defs, g, s = self._getset(info, node)
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), node.test)
        it = ast.Call(ast.Name('vc__while', ast.Load()), [lam, ast.Name(g, ast.Load()), ast.Name(s, ast.Load()), ast.Constant('%s:%d' % (info.name, info.next()))], [])
        new = ast.For(ast.Name('vc__w', ast.Store()), it, node.body, node.orelse)
        return defs + [ast.copy_location(new, node)]

class CondTr(ast.NodeTransformer):
    """conditions without the lazy evaluation of Python, so that they can be formed for an arbitrary element"""
    def _call(self, f, xs): return ast.Call(ast.Name(f, ast.Load()), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), x) for x in xs], [])
    def visit_BoolOp(self, node): 
        self.generic_visit(node)
        return ast.copy_location(self._call('vc__and' if isinstance(node.op, ast.And) else 'vc__or', node.values), node)
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('vc__not', [node.operand]), node) if isinstance(node.op, ast.Not) else node
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1: return node
        xs = [node.left] + node.comparators
        return ast.copy_location(self._call('vc__and', [ast.Compare(xs[i], [node.ops[i]], [xs[i + 1]]) for i in range(len(node.ops))]), node)
    def visit_Lambda(self, node): return node
    visit_GeneratorExp = visit_ListComp = visit_SetComp = visit_DictComp = visit_Lambda
def vc_and(*fs):
    acc = None; x = True
    for f in fs:
        x = f()
        if isinstance(x, SB): acc = x if acc is None else (acc & x); continue
        if not x: return False if acc is not None else x
    return x if acc is None else acc
def vc_or(*fs):
    acc = None; x = False
    for f in fs:
        x = f()
        if isinstance(x, SB): acc = x if acc is None else (acc | x); continue
        if x: return True if acc is not None else x
    return x if acc is None else acc
def vc_not(f):
    x = f()
    return ~x if isinstance(x, SB) else not x

class FnInfo:
    def uses(self, names, loop):
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id in names and id(x) not in inside for x in ast.walk(self.node))
    def __init__(self, node):
        self.name = node.name; self.n = 0; self.node = node
        self.locals = set()
        glob = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: self.locals.add(x.arg)
        if a.vararg: self.locals.add(a.vararg.arg)
        if a.kwarg: self.locals.add(a.kwarg.arg)
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    self.locals.add(c.name); continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
                if isinstance(c, (ast.Global, ast.Nonlocal)): glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): self.locals.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name: glob.add(c.name)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for al in c.names: self.locals.add((al.asname or al.name).split('.')[0])
                walk(c)
        walk(ast.Module(node.body, []))
        self.locals -= glob
        self.locals = {x for x in self.locals if not x.startswith('__')}
    def next(self):
        self.n += 1; return self.n

_code_cache = {}
def compile_file(path):
    txt = open(path, encoding='utf-8').read()
    key = (path, hashlib.sha1(txt.encode()).hexdigest())
    c = _code_cache.get(key)
    if c is None:
        tree = ast.parse(txt, path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec', dont_inherit=True)
        _code_cache[key] = c
    return c

class Loader:
    def __init__(self, fftw=False):
        from . import loops
        self.mods = {}
        self.np = shim.make_numpy()
        self.scipy, self.sps = shim.make_scipy(self.np)
        self.fftw = shim.make_pyfftw(self.np) if fftw else None
        self.math = shim.make_math()
        self.files = set()
        self.overrides = {}       # extra modules
        self.tables = None
        self.loops = loops.LoopMgr()
        self.bi = make_builtins(self)
    def ext(self, name):
        top = name.split('.')[0]
        if name in self.overrides: return self.overrides[name]
        if top in ('numpy',):
            o = self.np
        elif top == 'scipy':
            o = self.scipy
        elif top == 'pyfftw':
            if self.fftw is None: raise ImportError('No module named pyfftw')
            o = self.fftw
        elif top == 'math': o = self.math
        elif top in ('matplotlib', 'mpl_toolkits', 'pylab'): return shim.Opaque(name)
        elif top == 'jsonpickle': o = JSONPickle()
        elif top == 'tables':
            if self.tables is None: self.tables = shim.make_tables({})
            o = self.tables
        elif top in ('numba',):
            return shim.Unsup(name)
        elif top == '__future__': return __import__('__future__')
        else:
            ok = ('copy', 'warnings', 'os', 'sys', 'logging', 'gc', 'time', 'json', 'functools', 'itertools', 'collections', 'operator', 'numbers', 'abc', 'types', 'typing', 'dataclasses',
                  'contextlib', 're', 'string', 'inspect', 'threading', 'enum', 'cmath', 'unittest', 'textwrap', 'weakref', 'fractions')
            if top not in ok: raise ImportError('No module named %s' % name)
            if top == 'cmath': return shim.Unsup('cmath')
            return __import__(name, fromlist=['x']) if '.' in name else __import__(name)
        for part in name.split('.')[1:]:
            if part in getattr(o, '__dict__', {}): o = o.__dict__[part]
            else:
                try: o = getattr(o, part)
                except (AttributeError, Unsupported): 
                    if top == 'pyfftw': raise ImportError(name)
                    raise Unsupported('import of ' + name)
        return o
    def path_of(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False
    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
        path, pkg = self.path_of(name)
        if name in self.mods: return self.mods[name]
        if not os.path.exists(path): raise ImportError('No module named %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['__package__'] = name if pkg else name.rpartition('.')[0]
        m.__dict__['__name__'] = name
        m.__dict__['vc__fmt'] = vc_fmt
        m.__dict__['vc__for'] = self.loops.for_
        m.__dict__['vc__while'] = self.loops.while_
        m.__dict__.update(vc__comp=vc_comp(self), vc__and=vc_and, vc__or=vc_or, vc__not=vc_not)
        if pkg: m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        self.files.add(os.path.relpath(path, REPO))
        try:
            exec(compile_file(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par = self.mods.get(name.rsplit('.', 1)[0])
            if par is not None: setattr(par, name.rsplit('.', 1)[1], m)
        return m
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else: full = name
        if full.split('.')[0] == 'pynlo':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try: self.load(full + '.' + f)
                        except ImportError: pass
                return m
            return self.load(full.split('.')[0])
        if fromlist: 
            return self.ext(full)
        r = self.ext(full)
        return self.ext(full.split('.')[0])
