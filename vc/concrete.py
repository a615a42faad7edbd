"""Concrete runner: the same contract scenarios against the real code under CPython + numpy."""
import signal, sys, os, json, math, time, traceback, warnings, io, contextlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import importlib

class Abort(Exception): pass
class Fail(Exception): pass

class CV:
    symbolic = False
    def __init__(self, rng, np, over=None, log=None):
        self.rng = rng; self.np = np; self.over = over or {}; self.inputs = {}; self.fails = []; self.passed = 0; self.pi = math.pi
        self.choices = {}
        self.opts = {}; self._tmp = None; self._undo = []; self.centred = False; self._old = {}; self.coin = np.random.RandomState(rng.randint(2 ** 31))
    def load(self, name): return importlib.import_module(name)
    def loop(self, key, setup, check): pass
    def any(self, name, s=(0.0, 1.0), pos=False, nonneg=False): return float(self.rng.uniform(*s))
    def _ov(self, name, default):
        x = self.over.get(name, default)
        self.inputs[name] = x if not hasattr(x, 'tolist') else None
        return x
    def real(self, name, s=(0.5, 2.0), pos=False, nonneg=False, log=False):
        lo, hi = s
        x = float(math.exp(self.rng.uniform(math.log(lo), math.log(hi)))) if log else float(self.rng.uniform(lo, hi))
        if nonneg and self.rng.random_sample() < 0.1: x = 0.0
        return self._ov(name, self.coincide((lo, hi, log), x))
    def coincide(self, kind, x):
        """inputs of one kind are sometimes equal or nearly equal"""
        old = self._old.setdefault(kind, []); r = self.coin.random_sample()
        if old and r < 0.1:
            y = old[self.coin.randint(len(old))]
            if r > 0.05: y = y * (1.0 + self.coin.choice([-1, 1]) * 10.0 ** self.coin.uniform(-9, -3))
            if kind[0] <= y <= kind[1]: x = y
        elif 0.1 < r < 0.16 and kind[0] <= 0.0 <= kind[1]: x = 0.0          # special values: zero, and integers (given as such)
        elif 0.16 < r < 0.2 and kind[0] <= round(x) <= kind[1] and round(x) > 0: x = int(round(x))
        old.append(x)
        return x
    def pos(self, name, s=(0.5, 2.0), log=False): return self.real(name, s, pos=True, log=log)
    def cplx(self, name, s=1.0): return complex(self.rng.normal() * s, self.rng.normal() * s)
    def int(self, name, lo=0, s=None):
        s = s or (lo, lo + 10)
        return int(self._ov(name, int(self.rng.randint(s[0], s[1] + 1))))
    def index(self, name, n): return int(self.rng.randint(0, int(n)))
    def even(self, name='n', s=(8, 64), hmin=1):
        h = int(self.rng.randint(s[0] // 2, s[1] // 2 + 1)); old = self._old.setdefault('even', [])
        if old and self.coin.random_sample() < 0.15:
            y = old[self.coin.randint(len(old))]
            if s[0] // 2 <= y <= s[1] // 2: h = y
        old.append(h)
        h = self.over.get(name + '_half', h)
        self.inputs[name + '_half'] = h
        return 2 * int(h)
    def carr(self, name, n, s=1.0, smooth=False):
        a = (self.rng.normal(size=n) + 1j * self.rng.normal(size=n)) * s
        r = self.rng.random_sample()
        if r < 0.12: a *= 10.0 ** self.rng.uniform(-9, 0.3)                                     # weak or strong fields
        elif r < 0.2: a *= 10.0 ** self.rng.uniform(-6, 0, size=n)                              # large dynamic range
        elif r < 0.25: a[self.rng.random_sample(n) < 0.3] = 0.0                                 # exact zeros
        return a
    def near(self, x, fresh, p=0.3):
        """an arbitrary value of the same kind: sometimes very close to x"""
        return x * (1.0 + self.rng.choice([-1, 0, 1]) * 10.0 ** self.rng.uniform(-9, -2)) if self.rng.random_sample() < p else fresh
    def rarr(self, name, n, s=(-1.0, 1.0), pos=False, nonneg=False): return self.rng.uniform(s[0], s[1], size=n)
    def carr2(self, name, n, m, s=1.0): return (self.rng.normal(size=(n, m)) + 1j * self.rng.normal(size=(n, m))) * s
    def fun(self, name, cplx=False, pos=False, s=None):
        a = self.rng.uniform(0.5, 1.5, size=4); ph = self.rng.uniform(0, 6, size=4); np = self.np
        s = s or 1.0
        def f(x):
            x = np.asarray(x) if not np.isscalar(x) else x
            r = sum(a[k] * np.sin((k + 1) * 0.7 * x / s + ph[k]) for k in range(3))
            if pos: r = np.exp(0.2 * r)
            if cplx: r = r * np.exp(1j * a[3] * x / s)
            return r
        return f
    def deriv(self, f, x, n=1, rel=0.02):
        """n-th derivative of a smooth f at x, from a Chebyshev fit over +-2 %"""
        np = self.np; C = np.polynomial.chebyshev
        def one(x):
            h = rel * abs(float(x)); N = 14; u = np.cos(np.pi * (np.arange(N) + 0.5) / N)
            c = C.chebfit(u, np.array([float(f(x + h * ui)) for ui in u]), N - 1)
            return float(C.chebval(0.0, C.chebder(c, n))) / h ** n
        return np.array([one(y) for y in x]) if np.ndim(x) else one(x)
    def integral(self, f, a, b, panels=40):
        """integral of a smooth f (vectorised) from a to b, Gauss-Legendre"""
        np = self.np; u, w = np.polynomial.legendre.leggauss(10); e = np.linspace(a, b, panels + 1); h = (e[1:] - e[:-1]) / 2.0
        x = (e[1:] + e[:-1])[:, None] / 2.0 + h[:, None] * u
        return float(np.sum(f(x) * w * h[:, None]))
    def op(self, name, cplx=True, real=None):
        np = self.np; c = self.rng.normal(size=3)
        def f(A, *par):
            A = A / (1.0 + np.abs(A)) * (1.0 + sum((0.3 + 0.1 * i) * x for i, x in enumerate(par)))
            r = c[0] * np.abs(A) ** 2 + c[1] * np.roll(A, 1) + c[2] * np.conj(A)
            return r * 1j if cplx else r.real
        return f
    def arr(self, n, f, kind='f'): return self.np.array([f(k) for k in range(int(n))])
    def array(self, xs): return self.np.array(list(xs))
    def seq(self, xs): return list(xs)
    def choice(self, name, options):
        i = self.over.get('choice:' + name, int(self.rng.randint(len(options))))
        self.inputs['choice:' + name] = i
        return options[i]
    def past(self, name, p=0.35):
        """the object under test has had an earlier life (sampled; symbolically only where the scenario asks for it)"""
        i = self.over.get('past:' + name, int(self.rng.random_sample() < p))
        self.inputs['past:' + name] = i
        return bool(i)
    def assume(self, c):
        if not bool(self.np.all(c)): raise Abort()
    def _rec(self, name, ok, detail):
        if ok: self.passed += 1
        else: self.fails.append((name, detail))
    def eq(self, name, a, b, tol=1e-8, scale=None):
        np = self.np
        tol = tol or 1e-8
        try:
            a = np.asarray(a); b = np.asarray(b)
            if a.shape != b.shape and a.ndim and b.ndim:
                self._rec(name, False, 'shapes %s vs %s' % (a.shape, b.shape)); return
            d = np.abs(a - b)
            m = max(float(np.max(np.abs(a), initial=0)), float(np.max(np.abs(b), initial=0)), 0.0 if scale is None else abs(float(scale)))
            ok = bool(np.all(d <= tol * m + 1e-300))
            w = '' if ok else 'max difference %.6g (scale %.6g): lhs=%s rhs=%s' % (float(np.max(d)) if d.size else 0, m, _sh(a), _sh(b))
        except Exception as e:
            ok = False; w = repr(e)
        self._rec(name, ok, w)
    def true(self, name, c): self._rec(name, bool(self.np.all(c)), repr(c)[:300])
    def le(self, name, a, b, tol=1e-9):
        np = self.np
        a = np.asarray(a); b = np.asarray(b)
        m = max(float(np.max(np.abs(a), initial=0)), float(np.max(np.abs(b), initial=0)))
        self._rec(name, bool(np.all(a <= b + tol * m)), 'lhs=%s rhs=%s' % (_sh(a), _sh(b)))
    def same_len(self, name, a, n): self._rec(name, len(a) == n, 'len %d expected %d' % (len(a), n))
    def check(self, name, flag, detail=''): self._rec(name, bool(flag), detail)
    def raises(self, name, excs, fn):
        try: fn()
        except excs: self._rec(name, True, ''); return
        except Exception as e: self._rec(name, False, 'raised %r' % e); return
        self._rec(name, False, 'no exception raised')
    def snapshot(self, a): return self.np.array(a, copy=True)
    def is_array(self, x): return isinstance(x, self.np.ndarray)
    def decided(self, c): return bool(c)
    def concrete_only(self): return True
    def note(self, s): pass
    def scratch(self, name):
        if self._tmp is None:
            import tempfile; self._tmp = tempfile.mkdtemp(prefix='vc_')
        return os.path.join(self._tmp, name)
    def text_file(self, name, arr, delimiter=None, header=()):
        f = self.scratch(name); self.np.savetxt(f, arr, fmt='%.17g', delimiter=delimiter or ' ', header='\n'.join(header), comments=''); return f
    def put(self, obj, name, x):
        """a module setting for the duration of the sample"""
        self._undo.append((obj, name, getattr(obj, name))); setattr(obj, name, x)
    def cleanup(self):
        while self._undo:
            o, k, x = self._undo.pop(); setattr(o, k, x)
        if self._tmp is not None:
            import shutil; shutil.rmtree(self._tmp, ignore_errors=True); self._tmp = None
    def scalar(self, x): return x

def _sh(a):
    s = repr(a.tolist() if hasattr(a, 'tolist') else a)
    return s if len(s) < 400 else s[:400] + '...'

class TimeUp(BaseException): pass
def _alarm(*a): raise TimeUp()
def arm(s):
    """give up after s seconds of processor time (and, whatever the load, after 5 s seconds on the clock)"""
    signal.signal(signal.SIGALRM, _alarm); signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, float(s)); signal.alarm(int(5 * s))
def disarm(): signal.setitimer(signal.ITIMER_PROF, 0.0); signal.alarm(0)

class Watch:
    """counts which contract obligations were exercised"""

def run_one(scen, seed, over=None):
    import numpy as np
    rng = np.random.RandomState(seed % (2 ** 32))
    np.random.seed((seed * 7 + 1) % (2 ** 32))
    cv = CV(rng, np, over); cv.opts = scen.opts
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            arm(scen.opts.get('alarm', 40))
            scen.fn(cv)
            disarm()
        except Abort:
            disarm(); cv.cleanup()
            return None
        except TimeUp:
            disarm()
            cv.fails.append(('terminates', 'the call did not return in %ds' % int(scen.opts.get('alarm', 40))))
        except Exception as e:
            disarm()
            cv.fails.append(('no exception', traceback.format_exc()[-1500:]))
    cv.cleanup()
    return cv

def sseed(base, name, i):
    return int(hashlib.sha1(('%s/%s/%s' % (base, name, i)).encode()).hexdigest()[:8], 16)

def main():
    req = json.loads(sys.stdin.read()) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
    if not req.get('fftw', False):
        sys.modules['pyfftw'] = None
    try:
        import matplotlib; matplotlib.use('Agg')
    except Exception: pass
    out = {}
    from vc import registry
    for prop in req['props']:
        try: registry.load(prop)
        except Exception: print(traceback.format_exc(), file=sys.stderr); raise
    for job in req['jobs']:
        scen = [s for s in registry.SCEN[job['prop']] if s.name == job['name']][0]
        res = {'runs': 0, 'skipped': 0, 'passed': 0, 'fail': None, 'wall': 0}
        t0 = time.time()
        for i in job['samples']:
            cv = run_one(scen, sseed(req['seed'], scen.name, i), job.get('over'))
            if cv is None: res['skipped'] += 1; continue
            res['runs'] += 1; res['passed'] += cv.passed
            if cv.fails:
                want = job.get('want')
                res['fail'] = {'sample': i, 'fails': cv.fails[:5], 'inputs': {k: v for k, v in cv.inputs.items() if isinstance(v, (int, float, str))}}
                break
            if time.time() - t0 > job.get('limit', 120): break
        res['wall'] = time.time() - t0
        out[job['prop'] + '/' + job['name']] = res
        sys.stdout.write('@@' + json.dumps({'k': job['prop'] + '/' + job['name'], 'r': res}) + '\n'); sys.stdout.flush()
if __name__ == '__main__':
    main()
