from vc.registry import contract
ST = 'pynlo.util.ode_solve.steppers'

def filled(v, o, n, cplx, count='c', room=True):
    """storage after any history: K places, c of them used"""
    K = v.int('K', 1, s=(1, 8)); c = v.index(count, K) if room else K
    o.init(n, 0.0, 1.0, dtype=complex if cplx else float)
    X = v.carr('X', K) if cplx else v.rarr('X', K)
    Y = v.carr2('Y', K, n) if cplx else v.np.real(v.carr2('Y', K, n))
    o.kmax = K; o.count = c; o.xsave = v.np.array(X); o.ysave = v.np.array(Y); o.dtype = v.np.dtype(complex if cplx else float)
    return K, c, X, Y

@contract('C16', 'storing one point', under=['Output.__init__', 'Output.init', 'Output.save', 'Output.save_dense', 'Output.resize'], samples=150)
def store(v):
    np = v.np; m = v.load(ST); n = v.int('n', 1, s=(1, 5)); cplx = v.choice('complex', [False, True])
    dense = v.choice('interpolated', [False, True]); room = v.choice('room', [True, False]); nsave = v.choice('nsaves', [0, 5])
    o = m.Output(nsave)
    K, c, X, Y = filled(v, o, n, cplx, room=room)
    x = v.real('x'); h = v.real('h'); y = v.carr('y', n) if cplx else v.rarr('y', n)
    wrong = v.choice('wrong type', [False, True])
    if wrong: y = np.real(y) if cplx else v.carr('z', n)
    yk = v.snapshot(y); calls = []
    class S:
        _vc_ghost = True
        def dense_out(self, *a): calls.append(a); return y
    act = (lambda: o.save_dense(S(), x, h)) if dense else (lambda: o.save(x, y))
    if wrong:
        v.raises('other data type', TypeError, act); v.eq('nothing stored', o.count, c)
        v.eq('positions kept', o.xsave[:K], X); v.eq('values kept', o.ysave[:K], Y); return
    act()
    if dense: v.check('interpolated once', len(calls) == 1); v.eq('interpolated at the position', calls[0][0], x); v.eq('interpolated with the step', calls[0][1], h)
    v.eq('number of entries', o.count, c + 1)
    v.eq('entry: position', o.xsave[c], x); v.eq('entry: value', o.ysave[c], y)
    if room:
        v.check('same room', v.decided((o.kmax >= K) & (o.kmax <= K)))
        j = v.index('j', K)
        if not v.decided((j >= c) & (j <= c)): v.eq('other entries: position', o.xsave[j], X[j]); v.eq('other entries: value', o.ysave[j], Y[j])
    else:
        v.true('more room', o.kmax > K); v.eq('earlier entries: positions', o.xsave[:K], X); v.eq('earlier entries: values', o.ysave[:K], Y)
    v.same_len('room for positions', o.xsave, o.kmax); v.same_len('room for values', o.ysave, o.kmax)
    y[0] = y[0] + 1.0
    v.eq('a copy is stored', o.ysave[c], yk)

@contract('C16', 'saving modes', under=['Output.__init__', 'Output.init', 'Output.save', 'Output.out'], samples=80)
def modes(v):
    np = v.np; m = v.load(ST); n = v.int('n', 1, s=(1, 5)); cplx = v.choice('complex', [False, True]); dt = complex if cplx else float
    d = v.choice('dir', [1, -1]); x1 = v.real('x1', s=(-2.0, 2.0)); x2 = x1 + d * v.pos('len', s=(0.1, 5.0))
    y = v.carr('y', n) if cplx else v.rarr('y', n)
    mode = v.choice('mode', ['none', 'step', 'dense'])
    N = v.int('N', 1, s=(1, 700))
    o = m.Output(None if mode == 'none' else 0 if mode == 'step' else N)
    o.init(n, x1, x2, dtype=dt)
    v.eq('no entries', o.count, 0)
    if mode == 'none':
        o.save(x1, y); o.save(x2, y)
        v.eq('nothing is stored', o.count, 0); v.check('driver stores nothing', o.kmax <= 0); v.check('no storage', o.ysave is None)
        v.raises('dense output refused', AttributeError, lambda: o.out(-1, x1, y, None, 0.1)); return
    if mode == 'step':
        v.raises('dense output refused', AttributeError, lambda: o.out(-1, x1, y, None, 0.1))
        xm = v.real('xm'); o.save(x1, y); o.save(xm, 2.0 * y)
        v.eq('two entries', o.count, 2); v.eq('positions', o.xsave[:2], np.array([x1, xm])); v.eq('first value', o.ysave[0], y); v.eq('second value', o.ysave[1], 2.0 * y); return
    v.check('type of the storage', o.ysave.dtype == np.dtype(dt))
    o.out(-1, x1, y, None, 0.1)
    v.eq('start stored', o.count, 1); v.eq('start: position', o.xsave[0], x1); v.eq('start: value', o.ysave[0], y)
    v.eq('next position', o.xout, x1 + (x2 - x1) / N)
    # the class is not shared between instances
    p = m.Output(None); v.check('instances are independent', p.kmax <= 0 and p.count == 0 and not p.dense)

@contract('C16', 'dense output after any history', under=['Output.out'], samples=200)
def dense(v):
    """the first J grid points have been stored; the step ended at x.  save_dense through its contract."""
    np = v.np; m = v.load(ST); n = v.int('n', 1, s=(1, 4)); d = v.choice('dir', [1, -1])
    x1 = v.real('x1', s=(-2.0, 2.0)); ln = v.pos('len', s=(0.1, 5.0)); x2 = x1 + d * ln
    N = v.int('N', 1, s=(1, 60)); o = m.Output(N); o.init(n, x1, x2, dtype=float)
    o.kmax = N + 1
    done = v.any('done', s=(0.0, 1.0), pos=True); v.assume(done < 1.0) if v.symbolic else None
    at_end = v.choice('at the end', [True, False])
    x = x2 if at_end else x1 + d * ln * done
    J = v.int('J', 1, s=(1, 60))
    if v.symbolic: v.assume(J <= N)
    else: J = min(J, N)
    dx = (x2 - x1) / N
    o.xout = x1 + J * dx; o.count = J
    h = v.real('h'); S = object(); y = v.rarr('y', n)
    got = {'n': 0, 'base': 0}
    lim = 1e-9 * ln if not v.symbolic else 0.0
    def save_dense(s, xo, hh):
        v.check('stepper', s is S); v.eq('step size', hh, h)
        k = got['base'] + got['n']
        v.eq('position on the grid', xo, x1 + (J + k) * dx, tol=1e-9, scale=1.0)
        v.true('position not after the step', (x - xo) * d >= -lim); v.true('before the end', (x2 - xo) * d > 0.0); v.true('end of the grid not passed', J + k < N)
        got['n'] += 1
    o.save_dense = save_dense
    def setup(L):
        L['self'].xout = x1 + (J + L.k) * dx; got.update(n=0, base=L.k)
        v.assume(J + L.k <= N)
    def check(L, when):
        if when != 'entry': v.eq(when + ': one entry per position', got['n'], 1)
        v.eq(when + ': next position', L['self'].xout, x1 + (J + L.k) * dx); v.true(when + ': inside the grid', J + L.k <= N)
    v.loop('out', setup, check)
    o.out(3, x, y, S, h)
    cnt = got['base'] + got['n']; q = J + cnt
    v.eq('next position', o.xout, x1 + q * dx, tol=1e-9, scale=1.0)
    if at_end: v.eq('all positions but the end are stored', q, N)
    elif v.decided(q < N): v.true('no position before the step is left out', (x - (x1 + q * dx)) * d <= lim)

class Fake:
    """stepper with a known solution and arbitrary steps"""
    _vc_ghost = True
    def __init__(self, y, dydx, x, at, rt, dens): self.y = y; self.x = x; self.neqn = len(y)
    def step(self, h, r):
        u, g = r.next()
        self.xold = self.x; self.hdid = h * u; self.x = self.x + self.hdid; self.hnext = self.hdid * g
        self.y = r.sol(self.x)
    def dense_out(self, x, h):
        assert h == self.hdid and min(self.xold, self.x) <= x <= max(self.xold, self.x)
        return self.rhs.sol(x)

@contract('C16', 'whole trajectories', under=['Output.out', 'Output.save', 'Output.resize', 'ODEint.integrate'], samples=200, sym=False, bounded='sampled step histories')
def whole(v):
    np = v.np; m = v.load(ST); n = v.int('n', 1, s=(1, 3)); d = v.choice('dir', [1, -1])
    zero = v.choice('end', ['any', 'zero', 'far'])
    ln = v.pos('len', s=(0.01, 5.0), log=True); x2 = {'zero': 0.0, 'any': v.real('x2', s=(-2.0, 2.0)), 'far': v.choice('far', [-1e5, 1e5])}[zero]; x1 = x2 - d * ln; far = 1.0 + abs(x2)
    mode = v.choice('mode', ['none', 'step', 'dense', 'dense long']); N = v.int('N', 1, s=(1, 80)) * (15 if mode == 'dense long' else 1)
    r = np.random.RandomState(v.int('seed', 0, s=(0, 10 ** 6))); small = v.choice('steps', [0.001, 0.05, 3.0])
    cplx = v.choice('complex', [False, True]); w = v.rarr('w', n, s=(0.5, 3.0))
    steps = []
    class R:
        def deriv(self, x, y, dydx): dydx[:] = 0
        def next(self): return r.uniform(0.3, 1.0) if r.rand() < 0.5 else 1.0, r.uniform(0.4, 1.0) / small ** 0.0 * (1.6 if r.rand() < 0.5 else 1.0)
        def sol(self, x): return np.exp(1j * w * (x - x1)) if cplx else np.cos(w * (x - x1))
    rhs = R()
    class F(Fake):
        def __init__(self, *a): Fake.__init__(self, *a); self.rhs = rhs
        def step(self, h, q): Fake.step(self, h, q); self.hnext = d * small * r.uniform(0.2, 3.0); steps.append((self.x, self.y))
    ys = rhs.sol(x1); o = m.Output(None if mode == 'none' else 0 if mode == 'step' else N)
    I = m.ODEint(ys, x1, x2, 1, 1, small, 0.0, o, F, rhs, dense=mode.startswith('dense'))
    I.integrate()
    v.eq('result handed back', ys, rhs.sol(x2), tol=1e-9)
    if mode == 'none': v.eq('nothing stored', o.count, 0); return
    c = o.count; X = o.xsave[:c]; Y = o.ysave[:c]
    v.check('room', len(o.xsave) >= c and len(o.ysave) >= c)
    v.check('real positions', np.all(np.imag(X) == 0)); X = np.real(X)
    if mode == 'step': P = np.array([x1] + [s[0] for s in steps])
    else: P = x1 + (x2 - x1) * np.arange(N + 1) / N
    v.eq('number of entries', c, len(P)); v.eq('positions', X, P, tol=1e-10, scale=far)
    v.check('in order', np.all(np.diff(X) * d > 0)); v.eq('values', Y, np.array([rhs.sol(x) for x in X]), tol=1e-9, scale=1.0)
    v.eq('first is the start', X[0], x1); v.eq('last is the end', X[-1], x2, tol=1e-12, scale=1.0)
    v.check('storage beyond the entries is unused', not np.any(o.ysave[c:]))
