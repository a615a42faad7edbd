from vc.registry import contract
from decimal import Decimal as D, getcontext
from functools import lru_cache
getcontext().prec = 40
U = ['StepperDopr853.dy', 'StepperDopr853.prepare_dense', 'StepperDopr853.dense_out', 'StepperDopr853.step']
NS = 16                # f at the start, 11 further stages, f at the end, 3 stages for dense output

# ------------------------------------------------- rooted trees and order conditions (Butcher)
@lru_cache(None)
def forests(n, largest):
    """multisets of trees with n nodes in total, trees not larger (in the fixed order) than `largest`"""
    if n == 0: return ((),)
    out = []
    for m in range(min(n, n if largest is None else len_(largest)), 0, -1):
        for t in trees(m):
            if largest is not None and (len_(t), t) > (len_(largest), largest): continue
            for f in forests(n - m, t): out.append((t,) + f)
    return tuple(out)
@lru_cache(None)
def trees(n): return tuple(sorted(set(forests(n - 1, None)))) if n > 1 else ((),)
@lru_cache(None)
def len_(t): return 1 + sum(len_(c) for c in t)
@lru_cache(None)
def gamma(t):
    r = len_(t)
    for c in t: r *= gamma(c)
    return r
def phi(A):
    """stage weights of every tree for the matrix A"""
    N = len(A); memo = {}
    def f(t):
        if t not in memo:
            r = [D(1)] * N
            for c in t:
                x = f(c)
                r = [r[i] * sum(A[i][j] * x[j] for j in range(N) if A[i][j]) for i in range(N)]
            memo[t] = r
        return memo[t]
    return f
def dot(a, b): return sum(x * y for x, y in zip(a, b))

class Unit:
    """right-hand side that hands out unit vectors and records where it is evaluated"""
    _vc_ghost = True
    def __init__(self, v): self.v = v; self.calls = []
    def deriv(self, x, y, dydx):
        self.calls.append((x, self.v.snapshot(y)))
        dydx[:] = unit(self.v, len(self.calls))
def unit(v, j): return v.np.array([1.0 if i == j else 0.0 for i in range(NS)])

def dec(v, x):
    if v.symbolic:
        from vc.symval import lift, const_val
        c = const_val(lift(x)[0]); return D(c.numerator) / D(c.denominator)
    return D(float(x))
def vec(v, a): return [dec(v, a[i]) for i in range(len(a))]

def probe(v):
    """the coefficients the code applies, from one step on a right-hand side of unit vectors"""
    m = v.load('pynlo.util.ode_solve.dopr853')
    y = v.np.zeros((NS,)); f0 = unit(v, 0)
    s = m.StepperDopr853(y, f0, 0.0, 1e-6, 1e-6, True)
    s.error = lambda h: 0.5
    rhs = Unit(v)
    s.step(1.0, rhs)
    return s, rhs

@contract('C14', 'order conditions of the tableau the code applies', under=U, samples=1)
def order(v):
    s, rhs = probe(v)
    tol = D('1e-10') if v.symbolic else D('1e-12')
    v.check('number of stages', len(rhs.calls) == NS - 1)
    A = [[D(0)] * NS] + [vec(v, y) for x, y in rhs.calls]
    c = [D(0)] + [dec(v, x) for x, y in rhs.calls]
    b = vec(v, s.y)
    def small(name, x): v.check(name, all(abs(z) < tol for z in x), repr([float(z) for z in x if abs(z) >= tol][:3]))
    v.check('explicit stages', all(A[i][j] == 0 for i in range(NS) for j in range(i, NS)))
    small('stage positions', [sum(A[i]) - c[i] for i in range(NS)])
    v.check('stages inside the step', all(0 <= x <= 1 for x in c))
    f = phi(A)
    for p in range(1, 9): small('step, order %d' % p, [dot(b, f(t)) - D(1) / gamma(t) for t in trees(p)])
    e5 = vec(v, s.yerr2); e3 = vec(v, s.yerr)
    for p in range(1, 6): small('fifth-order error estimate, order %d' % p, [dot(e5, f(t)) for t in trees(p)])
    for p in range(1, 4): small('third-order error estimate, order %d' % p, [dot(e3, f(t)) for t in trees(p)])
    v.check('error estimates are not void', max(abs(dot(e5, f(t))) for t in trees(6)) > D('1e-6') and max(abs(dot(e3, f(t))) for t in trees(4)) > D('1e-6'))
    v.eq('slope for the next step', s.dydx, unit(v, 12)); v.check('last stage of the step is at its end', c[12] == 1 and A[12] == b)
    # dense output: a polynomial of degree at most 7 in the position, so 9 positions decide it
    w = [vec(v, s.dense_out(k / 8.0, 1.0)) for k in range(9)]
    for p in range(1, 8): small('dense output, order %d' % p, [dot(w[k], f(t)) - (D(k) / 8) ** p / gamma(t) for t in trees(p) for k in range(9)])
    small('dense output at the start', w[0]); small('dense output at the end', [x - y for x, y in zip(w[8], b)])

def near(v, name, a, b, tol=1e-10):
    """equal up to the accuracy of the tabulated coefficients"""
    if not v.symbolic: v.eq(name, a, b, tol=1e-9); return
    from vc.terms import sub
    from vc.symval import lift, from_atom, idx
    ix = tuple(from_atom(idx(k, d)) for d, k in enumerate(a.shapeT))
    t = v.cx.rw(sub(a.elem(ix), b.elem(ix) if hasattr(b, 'elem') else lift(b)[0]))
    v.check(name, all(abs(c) <= tol for c in t.p.values()), repr(t)[:400])

@contract('C14', 'every step applies that tableau', under=U + ['StepperDopr853.__init__', 'StepperBase.__init__'], samples=30)
def applied(v):
    """arbitrary right-hand side values, dimension, position, step size and data type"""
    np = v.np
    s0, rhs0 = probe(v)
    n = v.int('n', 1, s=(1, 6)); cplx = v.choice('complex', [False, True])
    arr = (lambda nm: v.carr(nm, n)) if cplx else (lambda nm: v.rarr(nm, n))
    m = v.load('pynlo.util.ode_solve.dopr853')
    x0 = v.real('x0'); h = v.real('h', s=(0.01, 0.5)); y0 = arr('y')
    if not v.symbolic and v.choice('backwards', [False, True]): h = -h
    K = [arr('K%d' % j) for j in range(NS)]
    class Rhs:
        _vc_ghost = True
        def __init__(self): self.j = 0
        def deriv(self, x, y, dydx):
            self.j += 1
            if self.j >= NS: return
            cx, cy = rhs0.calls[self.j - 1]
            near(v, 'evaluation %d: position' % self.j, np.array([x]), np.array([x0 + cx * h])); near(v, 'evaluation %d: state' % self.j, y, lin(y0, cy))
            dydx[:] = K[self.j]
    def lin(base, w):
        for i in range(NS): base = base + h * (w[i] * K[i])
        return base
    y = np.array(y0); f0 = np.array(K[0])
    s = m.StepperDopr853(y, f0, x0, 1e-6, 1e-6, True)
    s.error = lambda hh: 0.5
    rhs = Rhs()
    s.step(h, rhs)
    v.check('number of evaluations', rhs.j == NS - 1)
    near(v, 'new state', s.y, lin(y0, s0.y))
    near(v, 'third-order error', s.yerr, sum((s0.yerr[i] * K[i] for i in range(NS)), 0.0 * K[0])); near(v, 'fifth-order error', s.yerr2, sum((s0.yerr2[i] * K[i] for i in range(NS)), 0.0 * K[0]))
    v.eq('slope for the next step', s.dydx, K[12])
    v.eq('new position', s.x, x0 + h); v.eq('previous position', s.xold, x0); v.eq('step done', s.hdid, h)
    th = v.real('theta', s=(0.0, 1.0))
    near(v, 'dense output', s.dense_out(x0 + th * h, h), lin(y0, s0.dense_out(th, 1.0)))
    v.eq('dense output at the start', s.dense_out(x0, h), y0); v.eq('dense output at the end', s.dense_out(x0 + h, h), s.y)
    D_ = lambda t: (s.dense_out(x0 + (t + 1e-6) * h, h) - s.dense_out(x0 + (t - 1e-6) * h, h)) / (2e-6 * h)
    if not v.symbolic:
        v.eq('slope of the dense output at the start', D_(0.0), K[0], tol=1e-4, scale=20.0); v.eq('slope of the dense output at the end', D_(1.0), K[12], tol=1e-4, scale=20.0)

@contract('C14', 'error norm', under=['StepperDopr853.error'], samples=40)
def error(v):
    np = v.np; n = v.int('n', 1, s=(1, 8)); cplx = v.choice('complex', [False, True])
    arr = (lambda nm: v.carr(nm, n)) if cplx else (lambda nm: v.rarr(nm, n))
    m = v.load('pynlo.util.ode_solve.dopr853')
    at = v.pos('atol', s=(1e-8, 1e-3)); rt = v.pos('rtol', s=(1e-8, 1e-3)); h = v.real('h', s=(-1.0, 1.0))
    y = arr('y'); yo = arr('yo'); e3 = arr('e3'); e5 = arr('e5')
    s = m.StepperDopr853(y, arr('f'), 0.0, at, rt, False)
    s.yout = yo; s.yerr[:] = e3; s.yerr2[:] = e5
    sk = at + rt * np.maximum(np.abs(y), np.abs(yo))
    E5 = np.sum((np.abs(e5) / sk) ** 2); E3 = np.sum((np.abs(e3) / sk) ** 2)
    den = E5 + 0.01 * E3
    got = s.error(h)
    if v.decided(den > 0.0): v.eq('scaled error', got, abs(h) * E5 * np.sqrt(1.0 / (den * n)))
    else: v.eq('no error', got, 0.0)

@contract('C14', 'eighth order in practice', under=U + ['StepperDopr853.error', 'Controller.success'], samples=10, sym=False, bounded='sampled linear and nonlinear problems')
def practice(v):
    np = v.np; m = v.load('pynlo.util.ode_solve.dopr853')
    lam = v.cplx('lam'); a = v.real('a', s=(0.5, 1.5))
    class R:
        def deriv(self, x, y, dydx): dydx[:] = [lam * y[0], -a * y[1] * y[1] * np.cos(x)]
    def exact(x, x0, y): return np.array([y[0] * np.exp(lam * (x - x0)), 1.0 / (1.0 / y[1] + a * (np.sin(x) - np.sin(x0)))])
    x0 = v.real('x0', s=(0.0, 0.5)); y0 = np.array([1.0 + 0.5j, v.real('y1', s=(0.3, 0.8)) + 0j])
    err = []; mid = []
    for h in (0.4, 0.2):
        f = np.zeros(2, complex); R().deriv(x0, y0, f)
        s = m.StepperDopr853(y0.copy(), f, x0, 1e-6, 1e-6, True); s.error = lambda hh: 0.5
        s.step(h, R())
        err.append(np.max(np.abs(s.y - exact(x0 + h, x0, y0)))); mid.append(np.max(np.abs(s.dense_out(x0 + 0.37 * h, h) - exact(x0 + 0.37 * h, x0, y0))))
    v.true('step error falls with the ninth power', err[1] <= err[0] / 2 ** 7 + 1e-13); v.true('step error is small', err[0] < 1e-5)
    v.true('dense error falls with the eighth power', mid[1] <= mid[0] / 2 ** 6.5 + 1e-15); v.true('dense error is small', mid[0] < 1e-5)
