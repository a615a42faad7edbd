"""Symbolic runner: explores every path of a contract scenario and discharges its obligations."""
import time, traceback, sys, math, operator, os, copy
from .terms import *
from . import terms as TM, engine as E, symval as SVM, shim
from .engine import Ctx, CTX, Stop, prove, mk_not, z3_check, STATS
from .symval import *
from .loader import Loader
from .loops import Restart

class Fail(Exception): pass

class V:
    """verification API handed to scenarios (symbolic side)"""
    symbolic = True
    def __init__(self, runner, cx, loader):
        self.runner = runner; self.cx = cx; self.loader = loader; self.np = loader.np
        self.pi = math.pi; self.inputs = {}
        self.scen = runner.scen
        self.opts = {}; self.centred = False
    def put(self, obj, name, x): setattr(obj, name, x)
    def load(self, name): 
        return self.loader.load(name)
    def loop(self, key, setup, check):
        """contract-supplied loop invariant: setup(L) puts the state into an arbitrary member, check(L, when) asserts membership"""
        def wrap(f):
            def g(*a):
                try: return f(*a)
                except (AttributeError, KeyError, TypeError) as e: raise Unsupported('invariant of %s does not fit the code: %r' % (key, e))
            return g
        self.loader.loops.hooks[key] = {'setup': wrap(setup), 'check': wrap(check)}
    def any(self, name, s=(0.0, 1.0), pos=False, nonneg=False):
        """a fresh arbitrary value at every call (outcome of a call replaced by its contract)"""
        self._n = getattr(self, '_n', 0) + 1
        return SV(sym('%s!%d' % (name, self._n), sign='pos' if pos else 'nonneg' if nonneg else 'any'), 'f')
    # ------------------------------------------------ inputs
    def real(self, name, s=(0.5, 2.0), pos=False, nonneg=False, log=False):
        x = SV(sym(name, sign='pos' if pos else 'nonneg' if nonneg else 'any'), 'f'); self.inputs[name] = x; return x
    def pos(self, name, s=(0.5, 2.0), log=False): return self.real(name, s, pos=True, log=log)
    def cplx(self, name, s=1.0):
        return SV(sym(name, real=False), 'c')
    def int(self, name, lo=0, s=None):
        sg = 'any' if lo is None else 'pos' if lo >= 1 else 'nonneg' if lo >= 0 else 'any'
        t = sym(name, sign=sg, integer=True)
        if lo is not None and lo > 1 or lo is not None and lo < 0: self.cx.add(mk_ge(t, const(lo)))
        return SV(t, 'i')
    def index(self, name, n):
        """an arbitrary index 0 <= j < n"""
        j = self.int(name, 0); self.assume(j < n); return j
    def even(self, name='n', s=(8, 64), hmin=1):
        h = sym(name + '_half', sign='pos', integer=True)
        if hmin > 1: self.cx.add(mk_ge(h, const(hmin)))
        return SV(scale(h, Fraction(2)), 'i')
    def at(self, *idx):
        """use what is known for every index at this one"""
        self.cx.point(tuple(lift(i)[0] for i in idx))
    def refresh(self):
        """restate the facts in terms of what variables are known to equal"""
        for f in list(self.cx.facts): self.cx.add(self.cx.brw(f))
    def witnesses(self):
        """indices shown to exist by the decisions taken"""
        return [tuple(mkv(t, 'i') for t in w) for w in self.cx.witnesses]
    def near(self, x, fresh, p=0.3): return fresh
    def carr(self, name, n, s=1.0, smooth=False):
        a = arrsym(name, real=False); return mk_arr((dimT(n),), 'c', lambda i: mk_sel(a, i))
    def rarr(self, name, n, s=(-1.0, 1.0), pos=False, nonneg=False):
        a = arrsym(name, sign='pos' if pos else 'nonneg' if nonneg else 'any'); return mk_arr((dimT(n),), 'f', lambda i: mk_sel(a, i))
    def carr2(self, name, n, m, s=1.0):
        a = arrsym(name, real=False); return mk_arr((dimT(n), dimT(m)), 'c', lambda i: mk_sel(a, i))
    def fun(self, name, cplx=False, pos=False, s=None):
        """an arbitrary function of real variables"""
        def f(*x):
            return unwrap_(elementwise(lambda *t: mk_fn('F_' + name, *t, real=not cplx, sign='pos' if pos else 'any'), 'c' if cplx else 'f', *x))
        return f
    def deriv(self, f, x, n=1):
        """n-th derivative of f at x (x may be an array)"""
        return shim.sp_derivative(f, x, n=n, order=2 * n + 1)
    def integral(self, f, a, b): return shim.sp_quad(f, a, b)[0]
    def op(self, name, cplx=True, real=None):
        """an arbitrary operator on arrays of one axis"""
        def f(A, *par):
            n = A.shapeT[0]; w = fresh_bv(n)
            L = TM.mk_lam([w], A.elem((from_atom(w),)))
            ps = tuple(lift(x)[0] for x in par)
            return mk_arr((n,), 'c' if cplx else 'f', lambda i: mk_fn('OP_' + name, L, i[0], *ps, real=not cplx))
        return f
    def arr(self, n, f, kind='f'):
        """array given by an index function"""
        def g(i):
            r = f(SV(i[0], 'i') if not is_const(i[0]) else int(const_val(i[0])))
            t, k = lift(r); g.k = SVM.kmax(g.k, k)
            return t
        g.k = 'f'
        r = mk_arr((dimT(n),), kind, g)
        r.kind = g.k
        if isinstance(r, GA): r.buf.kind = g.k
        return r
    def array(self, xs): return to_arr(list(xs))
    def seq(self, xs): return list(xs)
    def choice(self, name, options):
        """all options are explored"""
        i = 0
        while i < len(options) - 1:
            if self.cx.choose(name): break
            i += 1
        return options[i]
    def past(self, name, p=0.0): return name.startswith(self.opts.get('past', '-')) and self.choice('past:' + name, [False, True])
    def smooth_phase(self):
        """precondition: the spectral phase changes by less than half a turn from line to line, and the strong lines are enough to fit"""
        self.cx.smooth_phase = True
        self.cx.assumed.append('unwrap: the phase changes by less than half a turn from one point to the next')
    def assume(self, c):
        b = tob(c)
        if b is BF: raise Stop()
        if E.z3_check(self.cx.facts + [b], None, 1000)[0] == 'unsat': raise Stop()
        self.cx.add(b)
    # ------------------------------------------------ obligations
    def eq(self, name, a, b, tol=None, scale=None):
        self.runner.obligation(self, name, self._eq(a, b), lambda: 'lhs=%s\nrhs=%s' % (_short(a), _short(b)))
    def _eq(self, a, b):
        if isinstance(a, (list, tuple)): a = to_arr(list(a))
        if isinstance(b, (list, tuple)): b = to_arr(list(b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr):
                if a.ndim != b.ndim: return False
                for x, y in zip(a.shapeT, b.shapeT):
                    if x is not y and not prove(mk_eq(x, y), self.cx): return False
            sh = a.shapeT if isinstance(a, Arr) else b.shapeT
            if all(is_const(n) for n in sh):
                if isinstance(a, GA): a = SVM.force_la(a)
                if isinstance(b, GA): b = SVM.force_la(b)
                A = list(a.a.flat) if isinstance(a, Arr) else None
                B_ = list(b.a.flat) if isinstance(b, Arr) else None
                n = len(A if A is not None else B_)
                A = A or [lift(a)[0]] * n; B_ = B_ or [lift(b)[0]] * n
                return all(prove(mk_eq(x, y), self.cx) for x, y in zip(A, B_))
            ix = tuple(from_atom(idx(n, d)) for d, n in enumerate(sh))
            x = a.elem(ix) if isinstance(a, Arr) else lift(a)[0]
            y = b.elem(ix) if isinstance(b, Arr) else lift(b)[0]
            return E.prove_zero(sub(x, y), self.cx)
        return E.prove_zero(sub(lift(a)[0], lift(b)[0]), self.cx)
    def true(self, name, c):
        """c: boolean scalar or boolean array (all elements)"""
        if isinstance(c, Arr):
            if all(is_const(n) for n in c.shapeT):
                c = SVM.force_la(c) if isinstance(c, GA) else c
                ok = all(prove(tob(mkv(x, 'b')), self.cx) for x in c.a.flat)
            else:
                ix = tuple(from_atom(idx(n, d)) for d, n in enumerate(c.shapeT))
                ok = prove(tob(mkv(c.elem(ix), 'b')), self.cx)
        else:
            ok = prove(tob(c), self.cx)
        self.runner.obligation(self, name, ok, lambda: _short(c))
    def le(self, name, a, b, tol=1e-9): self.true(name, SVM.nd_cmp('le', a, b) if isinstance(a, Arr) or isinstance(b, Arr) else a <= b)
    def same_len(self, name, a, n):
        ok = isinstance(a, Arr) and a.ndim >= 1 and prove(mk_eq(a.shapeT[0], dimT(n)), self.cx)
        self.runner.obligation(self, name, ok, lambda: _short(a))
    def check(self, name, flag, detail=''):
        """plain python fact"""
        self.runner.obligation(self, name, bool(flag), lambda: detail)
    def raises(self, name, excs, fn):
        try: fn()
        except excs: self.runner.obligation(self, name, True, lambda: ''); return
        except (Stop, Unsupported, Restart): raise
        except BaseException as e:
            if isinstance(e, Exception): self.runner.obligation(self, name, False, lambda: 'raised %r' % e); return
            raise
        self.runner.obligation(self, name, False, lambda: 'no exception')
    def snapshot(self, a): return a.copy() if isinstance(a, Arr) else a
    def is_array(self, x): return isinstance(x, Arr)
    def decided(self, c): return bool(c)
    def concrete_only(self): return False
    def note(self, s): pass
    def scratch(self, name): return '/scratch/' + name
    def text_file(self, name, arr, delimiter=None, header=()):
        f = '/scratch/' + name
        shim.FILES[f] = arr.copy(); shim.FILEFMT[f] = (delimiter, len(header)); return f
    def scalar(self, x): return x.item() if isinstance(x, Arr) else x

def unwrap_(r): return SVM.unwrap0(r)
def _short(x):
    s = repr(x)
    return s if len(s) < 1500 else s[:1500] + '...'

class Result:
    def __init__(self): self.obl = {}; self.paths = 0; self.unsupported = None; self.assumed = set(); self.files = set(); self.wall = 0; self.vacuous = []; self.inv = []

class Runner:
    def __init__(self, scen, fftw, time_limit=300, max_paths=5000):
        self.scen = scen; self.fftw = fftw; self.limit = time_limit; self.max_paths = max_paths
        self.res = Result()
        self.loopinfo = {}
    def obligation(self, v, name, ok, detail):
        d = self.res.obl.setdefault(name, {'ok': 0, 'fail': 0, 'detail': None, 'pc': None})
        if ok: d['ok'] += 1
        else:
            # an infeasible path proves everything
            if z3_check(v.cx.facts, None, 3000)[0] == 'unsat':
                d['ok'] += 1; return
            d['fail'] += 1
            if d['detail'] is None:
                try: d['detail'] = detail()
                except BaseException as e: d['detail'] = repr(e)
                st, m = z3_check(v.cx.facts, None, 3000, want_model=True)
                d['pc'] = [bstr(f)[:300] for f in v.cx.facts]
                d['model'] = {atom_str(a): x for a, x in (m or {}).items()} if m else {}
    def run(self):
        t0 = time.time()
        todo = [[]]
        r = self.res
        try:
            while todo:
                if r.paths > self.max_paths: raise Unsupported('more than %d paths' % self.max_paths)
                if time.time() - t0 > self.limit: raise Unsupported('time limit')
                prefix = todo.pop()
                cx = Ctx(prefix)
                cx.deadline = t0 + self.limit
                CTX[0] = cx
                loader = Loader(self.fftw)
                loader.loops.attach(self.loopinfo); loader.loops.runner = self
                v = V(self, cx, loader); v.opts = self.scen.opts
                try:
                    self.scen.fn(v)
                except Stop: pass
                except Restart as rs:
                    T = list(rs.at)
                    r.obl = copy.deepcopy(self.loopinfo[('snap', rs.at)])
                    todo = [x for x in todo if x[:len(T)] != T]
                    todo.extend(f for f in cx.forks if len(f) <= len(T))
                    todo.append(T)
                    self.restarts = getattr(self, 'restarts', 0) + 1
                    if self.restarts > 2000: raise Unsupported('loop invariant inference did not converge')
                    continue
                except (Exception, Fail) as e:
                    if not isinstance(e, (RecursionError, MemoryError)):
                        tb = traceback.format_exc()
                        self.obligation(v, 'no exception', False, lambda: tb)
                    else: raise Unsupported(repr(e))
                else:
                    self.obligation(v, 'no exception', True, lambda: '')
                r.paths += 1
                r.files |= loader.files
                for t in getattr(cx, 'nz', ()):  r.assumed.add('nonzero divisor: ' + tstr(t)[:160])
                for x in cx.assumed: r.assumed.add(x)
                todo.extend(cx.forks)
        except Unsupported as e:
            r.unsupported = '%s (%s)' % (e, _where())
            if os.environ.get('VC_DEBUG'): traceback.print_exc()
        except (ZeroDivisionError, RecursionError, ValueError, TypeError, KeyError, AttributeError, IndexError) as e:
            r.unsupported = 'engine: %r %s' % (e, _where())
            if os.environ.get('VC_DEBUG'): traceback.print_exc()
        r.inv = [str(x) for x in self.loopinfo.get('report', [])]
        r.wall = time.time() - t0
        CTX[0] = None
        return r
def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if '/repo/' in f.filename or '/pynlo/' in f.filename: return '%s:%s' % (os.path.basename(f.filename), f.lineno)
    return fr[-1].filename.split('/')[-1] + ':%d' % fr[-1].lineno if fr else ''
