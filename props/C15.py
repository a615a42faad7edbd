from vc.registry import contract
ST = 'pynlo.util.ode_solve.steppers'
DP = 'pynlo.util.ode_solve.dopr853'

def power8(v, name):
    """every error > 0 is the eighth power of a positive number"""
    return v.pos(name, s=(0.3, 2.6), log=True)
def factor(v, q): return 0.9 / q

def clip(v, x, lo, hi):
    if v.decided(x < lo): return lo
    if v.decided(x > hi): return hi
    return x

def accept(v, con, h, q, limited, name):
    """an attempt with error q**8 <= 1"""
    ok, hd = con.success(q ** 8, h)
    v.check(name + ': accepted', bool(ok)); v.eq(name + ': step unchanged', hd, h)
    f = clip(v, factor(v, q), 0.333, 6.0)
    if limited and v.decided(f > 1.0): f = 1.0
    v.eq(name + ': next step', con.hnext, h * f)
def reject(v, con, h, q, name):
    ok, hd = con.success(q ** 8, h)
    v.check(name + ': rejected', not ok)
    f = factor(v, q)
    v.eq(name + ': step reduced', hd, h * (0.333 if v.decided(f < 0.333) else f))
    v.true(name + ': step is smaller', abs(hd) < abs(h)); v.true(name + ': not to zero and not reversed', hd * h > 0.0)
    return hd

@contract('C15', 'step size controller', under=['Controller.__init__', 'Controller.success'], samples=200)
def controller(v):
    """any history: the controller's state is whether the latest attempt was rejected"""
    c = v.load('pynlo.util.ode_solve.dopr853_controller').Controller()
    h = v.pos('h', s=(1e-6, 10.0), log=True) * v.choice('dir', [1, -1])
    before = v.choice('before', ['nothing', 'reject', 'reject, accept'] + ([] if v.symbolic else ['accept', 'reject twice', 'reject, accept, accept']))
    if before != 'nothing':
        for i, w in enumerate(before.split(', ')):
            for j in range(2 if 'twice' in w else 1):
                q = power8(v, 'p%d%d' % (i, j))
                if not v.symbolic: q = (1.0 + q) if 'reject' in w else min(q, 1.0)
                v.assume(q > 1.0 if 'reject' in w else q <= 1.0)
                c.success(q ** 8, v.pos('hp%d%d' % (i, j)))
    lim = before.startswith('reject') and not before.endswith('accept')
    kind = v.choice('error', ['some', 'none'])
    if kind == 'none':
        ok, hd = c.success(0.0, h)
        v.check('no error: accepted', bool(ok)); v.eq('no error: step unchanged', hd, h)
        v.eq('no error: next step', c.hnext, h * (1.0 if lim else 6.0)); return
    q = power8(v, 'q')
    if v.decided(q <= 1.0): accept(v, c, h, q, lim, 'attempt')
    else:
        hd = reject(v, c, h, q, 'attempt')
        q2 = power8(v, 'q2')
        if v.decided(q2 <= 1.0): accept(v, c, hd, q2, True, 'retry')
        else: reject(v, c, hd, q2, 'retry')

@contract('C15', 'no answer for an undefined error or step', under=['Controller.success', 'StepperDopr853.step', 'StepperDopr853.error'], samples=40, sym=False, bounded='sampled problems that produce NaN or an infinite error')
def undefined(v):
    np = v.np; m = v.load(DP); o = v.load(ST); n = v.int('n', 1, s=(1, 4))
    bad = v.choice('bad', ['nan', 'late nan', 'pole', 'discontinuous noise'])
    r = np.random.RandomState(v.int('seed', 0, s=(0, 10 ** 6)))
    x1 = v.real('x1', s=(-1.0, 1.0)); d = v.choice('dir', [1, -1]); x2 = x1 + d * v.pos('len', s=(0.5, 2.0))
    class R:
        calls = 0
        def deriv(self, x, y, dydx):
            R.calls += 1
            if R.calls > 400000: raise MemoryError('runs on')
            if bad == 'nan' or bad == 'late nan' and (x - x1) * d > 0.4: dydx[:] = np.nan
            elif bad == 'pole': dydx[:] = d * (y * y + 1.0) * 20.0
            elif bad == 'discontinuous noise': dydx[:] = 1e6 * r.standard_normal(len(dydx))
            else: dydx[:] = -y
    for dense in (True, False):
        y = np.ones(n); out = o.Output(4 if dense else None)
        R.calls = 0
        I = o.ODEint(y, x1, x2, 1e-6, 1e-6, 0.1, 1e-9, out, m.StepperDopr853, R(), dense=dense)
        with np.errstate(all='ignore'):
            v.raises('documented error (%s)' % bad, (AssertionError, OverflowError, RuntimeError), I.integrate)

LEARNED = {}
@contract('C15', 'one step is repeated until its error is at most one', under=['StepperDopr853.step', 'StepperDopr853.__init__', 'StepperBase.__init__', 'Controller.success', 'Controller.__init__'], samples=150)
def step(v):
    """estimates used through their contracts: dy(h) leaves a proposal that depends on h, error(h) is any non-negative number"""
    np = v.np; m = v.load(DP); n = v.int('n', 1, s=(1, 5)); dense = v.choice('dense', [False, True])
    d = v.choice('dir', [1, -1]); htry = d * v.pos('h', s=(1e-3, 2.0), log=True)
    x0 = v.real('x0', s=(-2.0, 2.0))
    y0 = v.carr('y', n); f0 = v.carr('f', n)
    y = np.array(y0)
    s = m.StepperDopr853(y, np.array(f0), x0, 1e-6, 1e-6, dense)
    base = v.carr('p', n); slope = v.carr('q', n); fend = v.carr('fe', n)
    st = {'n': 0, 'dy': None, 'err': None, 'dens': []}
    qs = [power8(v, 'q%d' % i) for i in range(60)] if not v.symbolic else []
    if not v.symbolic:
        a = v.int('rejections', 0, s=(0, 5))
        qs = [1.0 + x for x in qs[:a]] + [min(x, 1.0) for x in qs[a:]]
    Q = v.fun('err', pos=True) if v.symbolic else None
    def dy(h, rhs): st['dy'] = h; s.yout = base + h * slope
    def error(h):
        v.eq('error is that of the attempted step', h, st['dy'])
        q = Q(h) if v.symbolic else qs[st['n']]
        st['n'] += 1; st['err'] = (h, q); return q ** 8
    s.dy = dy; s.error = error
    class R:
        _vc_ghost = True
        def deriv(self, x, yy, out):
            h = st['err'][0]
            v.eq('slope taken at the end of the step', x, x0 + h); v.eq('slope taken at the new state', yy, base + h * slope)
            v.eq('position of the stepper still at the start', s.x, x0)
            out[:] = fend
    rhs = R()
    def prep(h, new, r):
        st['dens'].append(h); v.eq('dense output: slope at the end', new, fend); v.eq('dense output: slope at the start', s.dydx, f0); v.eq('dense output: state at the start', s.y, y0)
        v.check('dense output: right-hand side', r is rhs)
    s.prepare_dense = prep
    def setup(L):
        """at the head of the loop: nothing tried yet, or the last attempt was rejected, or (only when the loop's own condition ends it) accepted"""
        case = v.choice('attempts so far', ['none', 'rejected', 'accepted']); st['case'] = case
        if case == 'none':
            v.assume((L.k <= 0) & (L.k >= 0)); L['h'] = htry; s.con.reject = False
            if v.symbolic:
                for b, x in st['flags'].items(): L[b] = x
        else:
            v.assume(L.k >= 1)
            if case == 'accepted' and 'accepted' not in learned: learned['none accepted'] = {}; v.assume(L.k < 1)
            for b, x in learned.get(case, {}).items():
                if b in L.vars: L[b] = x
            L['h'] = h = d * L.fresh('tried', pos=True); v.assume((abs(h) < abs(htry)) | ((abs(h) <= abs(htry)) if case == 'accepted' else (L.k < 1)))
            s.con.reject = case == 'rejected'
            if case == 'accepted':
                q = Q(h); v.assume(q <= 1.0); dy(h, rhs); st['err'] = (h, q); s.con.hnext = L.fresh('next')
                st['again'] = v.decided(abs(h) < abs(htry)); check(L, 'assumed')
        st['first'] = case == 'none'
    learned = LEARNED
    def flags(vs): return {b: v.decided(x) for b, x in vs.items() if isinstance(x, bool) or type(x).__name__ == 'SB'}
    def check(L, when):
        h = L['h']
        be = v.assume if when == 'assumed' else (lambda *c: v.true(when + ': ' + c[0], c[1]))
        if when == 'entry':
            st['flags'] = flags(L.vars)
            v.true(when + ': same direction', h * d > 0.0); v.eq('entry: the requested step is tried first', h, htry); v.check('entry: no rejection pending', not s.con.reject); return
        t, q = st['err']
        if when == 'assumed' or v.decided(q <= 1.0):
            if when != 'assumed':
                learn('accepted', L); v.eq('accepted: the step tried', h, t); v.check('accepted: rejection forgotten', not s.con.reject)
            again = st['again'] if when == 'assumed' else not st['first']
            N = abs(s.con.hnext); C = [('next step has the same direction', s.con.hnext * d > 0.0), ('growth is bounded', N <= 6.0 * abs(h)), ('reduction is bounded', 0.333 * abs(h) <= N)]
            if again: C += [('no growth after a rejection', N <= abs(h)), ('shortened', abs(h) < abs(htry))]
            for n, c in C:
                if when == 'assumed': v.assume(c)
                else: v.true('accepted: ' + n, c)
            return
        learn('rejected', L)
        v.true(when + ': same direction', h * d > 0.0)
        v.true(when + ': the next try is smaller', abs(h) < abs(t)); v.true(when + ': and smaller than requested', abs(h) < abs(htry)); v.check(when + ': rejection remembered', bool(s.con.reject))
        v.true(when + ': not below the resolution', abs(h) > abs(x0) * s.EPS)
    def learn(case, L):
        """values of the function's own flags after an attempt: assumed at the head of the loop, re-established by every iteration"""
        f = flags(L.vars)
        if case not in learned:
            if case == 'accepted' and 'none accepted' in learned: raise TypeError('accepted steps reach the head of the loop')
            learned[case] = f
        if f != learned[case]: raise TypeError('the flags %s of the loop do not tell how the last attempt went' % sorted(f))
    v.loop('step', setup, check)
    try: s.step(htry, rhs)
    except OverflowError:
        h, q = st['err']; 
        v.true('underflow only after a rejection', q > 1.0)
        f = factor(v, q); f = 0.333 if v.decided(f < 0.333) else f
        v.true('underflow only below the resolution', abs(h * f) <= abs(x0) * s.EPS * (1 + 1e-9)); return
    h, q = st['err']
    v.true('error of the accepted step', q <= 1.0)
    v.eq('step done', s.hdid, h); v.eq('new position', s.x, x0 + h); v.eq('previous position', s.xold, x0)
    v.eq('new state', s.y, base + h * slope); v.eq('slope for the next step', s.dydx, fend)
    v.le('not longer than requested', abs(h), abs(htry)); v.true('forward', h * d > 0.0)
    v.check('rejection forgotten', not s.con.reject)
    v.true('next step has the same direction', s.hnext * d > 0.0); v.le('growth is bounded', abs(s.hnext), 6.0 * abs(h)); v.le('reduction is bounded', 0.333 * abs(h), abs(s.hnext))
    again = (st['again'] if st['case'] == 'accepted' else not st['first']) if v.symbolic else st['n'] > 1
    if again: v.le('no growth after a rejection', abs(s.hnext), abs(h))
    v.check('dense output prepared for the accepted step', len(st['dens']) == (1 if dense else 0))
    if dense: v.eq('dense output: step', st['dens'][0], h)

class Row:
    """ghost of the saved positions: only the latest is looked at"""
    __slots__ = ('o',)
    _vc_ghost = True
    def __init__(self, o): self.o = o
    def __getitem__(self, i): return self.o.last

class Rec:
    """storage that records what it is given (its own behaviour is property C16)"""
    __slots__ = ('v', 'kmax', 'count', 'log', 'last', 'xsave', 'snap', 'gap')
    _vc_ghost = True
    def __init__(self, v, kmax): self.v = v; self.kmax = kmax; self.count = 1; self.log = []; self.last = None; self.xsave = Row(self); self.snap = v.snapshot
    def init(self, neqn, x1, x2, dtype=None): self.log.append(('init', neqn, x1, x2, dtype))
    def save(self, x, y): self.log.append(('save', x, self.snap(y))); self.last = x
    def out(self, nstp, x, y, s, h): self.log.append(('out', nstp, x, self.snap(y), s, h)); self.last = x if nstp == -1 else self.dlast(x)
    def dlast(self, x): return x - self.gap
    def reset(self): self.log.clear()

@contract('C15', 'driver, for any stepper that honours the step contract', under=['ODEint.__init__', 'ODEint.integrate'], samples=200)
def driver(v):
    np = v.np; m = v.load(ST)
    n = v.int('n', 1, s=(1, 4)); dense = v.choice('dense', [False, True]); kmax = v.choice('kmax', [-1, 500])
    d = v.choice('dir', [1, -1]); x1 = v.real('x1', s=(-2.0, 2.0)); x2 = x1 + d * v.pos('len', s=(0.1, 5.0), log=True)
    h1 = v.pos('h1', s=(1e-3, 10.0), log=True); hmin = v.real('hmin', nonneg=True, s=(0.0, 0.02)); sgn1 = v.choice('h1 sign', [1, -1])
    cplx = v.choice('complex', [False, True])
    arr = (lambda nm: v.carr(nm, n)) if cplx else (lambda nm: v.rarr(nm, n))
    y0 = arr('y0'); f0 = arr('f0'); F = v.fun('F', cplx=cplx); ystart = np.array(y0)
    atol, rtol = v.pos('atol', s=(1e-8, 1e-3)), v.pos('rtol', s=(1e-8, 1e-3))
    N = v.int('MAXSTP', 1, s=(1, 60))
    state = {}
    tail = v.carr('tail', n) if cplx else v.rarr('tail', n)
    rnd = [(v.pos('u%d' % i, s=(0.05, 0.95)), v.pos('g%d' % i, s=(0.3, 6.0))) for i in range(60)] if not v.symbolic else None
    class Rhs:
        _vc_ghost = True
        def deriv(self, x, y, out):
            v.check('slope at the start is evaluated before the first step', state['steps'] == 0 and 'f' not in state)
            v.eq('slope at the start: position', x, x1); v.eq('slope at the start: state', y, y0)
            state['f'] = True; out[:] = f0
    rhs = Rhs()
    class Step:
        """contract of the stepper"""
        _vc_ghost = True
        def __init__(self, y, dydx, x, at, rt, dens):
            self.y = y; self.dydx = dydx; self.x = x; self.neqn = n; self.hdid = 0.0; self.hnext = 0.0
            v.eq('absolute tolerance', at, atol); v.eq('relative tolerance', rt, rtol); v.check('dense output', dens == dense)
        def step(self, h, r):
            v.check('right-hand side', r is rhs)
            v.true('step goes forward', h * d > 0.0); v.true('step does not pass the end', (self.x + h - x2) * d <= (0.0 if v.symbolic else 1e-12))
            if 'want' in state:
                w = state['want']
                over = (self.x + w * 1.0001 - x2) * d > 0.0
                v.eq('suggested step, or the rest of the interval', h, x2 - self.x if v.decided(over) else w)
            if state['steps'] == 0 and not state.get('later'): v.eq('slope at the start is handed over', self.dydx, f0); v.eq('state at the start is handed over', self.y, y0)
            full = v.choice('full%s' % state['steps'], [True, False]); i = state['steps'] % 60
            u, g = (v.pos('u'), v.pos('g')) if v.symbolic else rnd[i]
            if v.symbolic and not full: v.assume(u < 1.0)
            state['full'] = full; state['steps'] += 1
            self.hdid = h if full else h * u
            self.x = self.x + self.hdid; self.y = (1.0 + self.x) * tail
            self.hnext = self.hdid * g; state['want'] = self.hnext
            if not v.symbolic: state['hist'].append(full)
    state.update(steps=0, hist=[], x=x1)
    out = Rec(v, kmax); out.gap = v.any('gap', s=(0.0, 0.3))
    I = m.ODEint(ystart, x1, x2, atol, rtol, h1 * sgn1, hmin, out, Step, rhs, dense=dense)
    v.check('storage prepared once', len(out.log) == 1 and out.log[0][0] == 'init')
    _, ne, a, b, dt = out.log[0]
    v.eq('storage: equations', ne, n); v.eq('storage: start', a, x1); v.eq('storage: end', b, x2); v.check('storage: type', np.dtype(dt) == ystart.dtype)
    I.MAXSTP = N
    out.reset()
    def start_saved(when):
        ev = out.log
        v.check(when + ': start saved once', len(ev) == 1)
        e = ev[0]
        if dense: v.check(when + ': as dense start', e[0] == 'out' and e[1] == -1); v.eq(when + ': start position', e[2], x1); v.eq(when + ': start state', e[3], y0)
        else: v.check(when + ': as a point', e[0] == 'save'); v.eq(when + ': start position', e[1], x1); v.eq(when + ': start state', e[2], y0)
    def setup(L):
        o = L['self']; s = o.s
        rest = L.fresh('rest', pos=True); s.x = x2 - d * rest; v.assume(rest <= abs(x2 - x1))
        o.h = d * L.fresh('h', pos=True); state['want'] = o.h; state['later'] = True
        s.y = L.fresh_arr('y', n, kind='c' if cplx else 'f'); s.hdid = L.fresh('hdid'); s.hnext = L.fresh('hnext')
        good = L.fresh('good', kind='i', nonneg=True); o.nok = good; o.nbad = L.k - good; state['nok'] = good; state['k'] = L.k
        out.last = L.fresh('last'); out.reset(); state['phase'] = L.phase; state['steps'] = 0
    def check(L, when):
        o = L['self']; s = o.s
        v.true(when + ': before the end', (x2 - s.x) * d > 0.0); v.true(when + ': not before the start', (s.x - x1) * d >= 0.0); v.true(when + ': forward', o.h * d > 0.0)
        if when == 'entry':
            v.eq('entry: at the start', s.x, x1); v.eq('entry: first step', o.h, h1 * d); v.check('entry: nothing counted', o.nok == 0 and o.nbad == 0); start_saved('entry')
        else:
            v.eq(when + ': next step as suggested', o.h, s.hnext); v.true(when + ': above the minimum', abs(s.hnext) > hmin)
            after(o, s, when, state['nok'], state['k'], False)
    def after(o, s, when, nok, k, last):
        """one step has been done and recorded"""
        v.eq(when + ': good steps', o.nok, nok + (1 if state['full'] else 0)); v.eq(when + ': all steps', o.nok + o.nbad, k + 1)
        ev = out.log
        v.check(when + ': step recorded', len(ev) >= 1 and ev[0][0] == ('out' if dense else 'save'))
        e = ev[0]
        if dense: v.eq(when + ': recorded step number', e[1], k); v.eq(when + ': recorded position', e[2], s.x); v.eq(when + ': recorded state', e[3], s.y); v.check(when + ': recorded stepper', e[4] is s); v.eq(when + ': recorded step size', e[5], s.hdid)
        else: v.eq(when + ': recorded position', e[1], s.x); v.eq(when + ': recorded state', e[2], s.y)
        if not last: v.check(when + ': recorded once', len(ev) == 1)
    v.loop('integrate', setup, check)
    try: I.integrate()
    except RuntimeError:
        if v.symbolic:
            if state.get('phase') == 'x': v.check('step limit', True)
            else: v.le('minimum step', abs(I.s.hnext), hmin); v.true('only before the end', (x2 - I.s.x) * d > 0.0)
        else:
            v.check('documented reason', abs(I.s.hnext) <= hmin or state['steps'] == N)
            v.check('steps bounded', state['steps'] <= N)
        return
    s = I.s
    if v.symbolic: v.check('only after a step', state.get('phase') == 'b'); after(I, s, 'end', state['nok'], state['k'], True)
    else:
        v.check('counted steps', I.nok + I.nbad == state['steps'] and I.nok == sum(state['hist']))
        v.check('steps bounded', state['steps'] <= N)
        ev = [e for e in out.log if e[0] == ('out' if dense else 'save')]
        v.check('every step recorded', len(ev) >= state['steps'] + 1)
    if v.symbolic: v.eq('ends at the requested position', s.x, x2)
    else: v.eq('ends at the requested position', s.x, x2, tol=1e-12, scale=1.0)
    v.eq('result handed back', ystart, s.y)
    # last point is stored when the storage does not have it yet
    ev = out.log
    if v.symbolic:
        before = ev[0][2] - out.gap if dense else ev[0][1]
        if kmax > 0 and v.decided(abs(before - x2) > 100.0 * abs(x2) * I.EPS):
            v.check('last point stored', len(ev) == 2 and ev[1][0] == 'save'); v.eq('last point stored: position', ev[1][1], s.x); v.eq('last point stored: state', ev[1][2], s.y)
        else: v.check('last point not stored twice', len(ev) == 1)
    else:
        extra = len([e for e in ev if e[0] == 'save']) - (0 if dense else state['steps'] + 1)
        v.check('last point stored once', extra == (1 if kmax > 0 and dense and out.gap > 1e-10 else 0))
        if extra: v.eq('last point stored: position', ev[-1][1], s.x); v.eq('last point stored: state', ev[-1][2], s.y)

@contract('C15', 'whole integrations', under=['ODEint.integrate', 'StepperDopr853.step', 'StepperDopr853.error', 'Controller.success'], samples=40, sym=False, bounded='sampled problems')
def whole(v):
    np = v.np; m = v.load(DP); o = v.load(ST)
    d = v.choice('dir', [1, -1]); x1 = v.real('x1', s=(-2.0, 2.0)); x2 = x1 + d * v.pos('len', s=(0.5, 6.0))
    w = v.pos('w', s=(0.5, 8.0)); h1 = v.pos('h1', s=(1e-3, 10.0), log=True); tol = v.pos('tol', s=(1e-10, 1e-4), log=True)
    kick = v.choice('kick', [0.0, 1.0]); xk = x1 + 0.4 * (x2 - x1)
    xs = []; acc = []
    class R:
        def deriv(self, x, y, dydx):
            xs.append(x); dydx[:] = [1j * w * y[0], (np.cos(3.0 * x) * y[1] + kick * 40.0 * np.exp(-((x - xk) * 30.0) ** 2))]
    class S(m.StepperDopr853):
        def step(self, h, r):
            es = []
            old = self.error
            def err(hh):
                sk = tol + tol * np.maximum(np.abs(self.y), np.abs(self.yout)); E5, E3 = [np.sum((np.abs(e) / sk) ** 2) for e in (self.yerr2, self.yerr)]
                es.append((hh, type(self).error(self, hh))); v.eq('scaled error of an attempt', es[-1][1], abs(hh) * E5 / np.sqrt((E5 + 0.01 * E3) * len(y)) if E5 + E3 > 0 else 0.0, tol=1e-6, scale=1e-8); return es[-1][1]
            self.error = err
            k0 = len(xs); a = self.x
            m.StepperDopr853.step(self, h, r)
            acc.append((h, self.hdid, self.hnext, es, a, self.x))
            v.check('step stays inside', all((x - a) * d >= -1e-9 and (a + h - x) * d >= -1e-9 for x in xs[k0:]))
    y = np.array([1.0 + 0j, 0.3 + 0j]); y0 = y.copy()
    dense = v.choice('dense', [False, True])
    I = o.ODEint(y, x1, x2, tol, tol, h1, 0.0, o.Output(7 if dense else None), S, R(), dense=dense)
    I.integrate()
    eps = 1e-12 * (1 + abs(x1) + abs(x2))
    v.check('never evaluates outside the interval', all((x - x1) * d >= -eps and (x2 - x) * d >= -eps for x in xs))
    v.eq('ends at the requested position', I.s.x, x2, tol=1e-12, scale=1.0)
    v.check('accepted errors', all(e[3][-1][1] <= 1.0 and e[3][-1][0] == e[1] for e in acc)); v.check('rejected errors', all(q > 1.0 for e in acc for _, q in e[3][:-1]))
    v.check('shrinks after rejection', all(abs(e[3][i + 1][0]) < abs(e[3][i][0]) for e in acc for i in range(len(e[3]) - 1)))
    v.check('growth bounded', all(0.332 * abs(e[1]) <= abs(e[2]) <= (6.0001 if len(e[3]) == 1 else 1.0000001) * abs(e[1]) for e in acc))
    v.check('good steps', I.nok == sum(1 for e in acc if e[0] == e[1])); v.check('bad steps', I.nbad == sum(1 for e in acc if e[0] != e[1]))
    v.check('bad steps are those with a rejection', I.nbad == sum(1 for e in acc if len(e[3]) > 1))
    v.check('steps are contiguous', all(abs(acc[i][5] - acc[i + 1][4]) < eps for i in range(len(acc) - 1)))
    v.eq('oscillator', y[0], np.exp(1j * w * (x2 - x1)), tol=max(1e4 * tol, 1e-9))
    if not kick: v.eq('growth', y[1], y0[1] * np.exp((np.sin(3 * x2) - np.sin(3 * x1)) / 3.0), tol=max(1e4 * tol, 1e-9))

from . import C14 as _c14
contract('C15', 'scaled error', under=['StepperDopr853.error'], samples=40)(_c14.error)
