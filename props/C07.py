from vc.registry import contract
from .common import *
import math
F = ['FiberInstance.generate_fiber', 'FiberInstance.get_betas', 'FiberInstance.set_dispersion_function']

def fib(v): return any_fibre(v)
def betas_in(v, k, tag=''):
    """arbitrary dispersion coefficients; the samples include tables padded with zeros at either end"""
    bs = [v.real('b%s%d' % (tag, i + 2), s=(-0.02 / 10 ** i, 0.02 / 10 ** i)) for i in range(k)]
    if not v.symbolic:
        u = v.rng.random_sample()
        if u < 0.15: bs[:1] = [0.0]
        elif u < 0.25: bs[-1:] = [0.0]
        elif u < 0.3: bs = [0.0] * k
    return bs
def taylor(v, bs, x):
    B = 0.0 * x
    for i, b in enumerate(bs): B = B + b / math.factorial(i + 2) * x ** (i + 2)
    return B
def framed(v, B, g):
    """beta with value and central slope removed at the grid centre"""
    c = g.n // 2
    s = (B[c + 1] - B[c - 1]) / (2.0 * TWO_PI / g.Tw)
    return B - s * g.V - B[c]

@contract('C07', 'Taylor-coefficient fibre: documented propagation constant', under=F, samples=60)
def gvd(v):
    f = fib(v)
    p, g = new_pulse(v, hmin=2)
    bs = betas_in(v, v.choice('order', [1, 2, 3, 4, 5]))
    wl = wl_in(v, 'wlf'); L = v.pos('L'); gam = v.real('gamma')
    km = v.choice('units', ['ps^n/m', 'ps^n/km'])
    f.generate_fiber(L, wl, bs, gam, gvd_units=km)
    k = 1e-3 if km == 'ps^n/km' else 1.0
    B = f.get_betas(p)
    E = framed(v, taylor(v, [b * k for b in bs], g.W - TWO_PI * C_NMPS / wl), g)
    v.eq('propagation constant', B, E)
    v.eq('zero at the pulse centre', B[g.n // 2], 0.0, scale=1.0)
    v.eq('zero slope at the pulse centre', B[g.n // 2 + 1] - B[g.n // 2 - 1], 0.0, scale=v.np.max(v.np.abs(B)) if not v.symbolic else None, tol=1e-7)
    v.eq('asking again gives the same', f.get_betas(p), E)
    same_pulse(v, p, g, g.A, 'pulse: ')
    v.eq('length', f.length, L); v.eq('gamma', f.get_gamma(), gam)

@contract('C07', 'Taylor fibre centred on the pulse: even orders act alone', under=F, samples=40, past='fibre')
def gvd_centred(v):
    f = fib(v)
    p, g = new_pulse(v, hmin=2)
    b2 = v.real('b2', s=(-0.02, 0.02)); b4 = v.real('b4', s=(-1e-4, 1e-4))
    f.generate_fiber(1.0, g.wl0, (b2, 0.0, b4), 0.0)
    v.eq('propagation constant', f.get_betas(p), b2 / 2.0 * g.V ** 2 + b4 / 24.0 * g.V ** 4)

@contract('C07', 'the caller\'s coefficients are copied', under=F, samples=20)
def gvd_copy(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    bs = betas_in(v, 3); arr = np.array(bs)
    f.generate_fiber(1.0, g.wl0, arr, 0.0)
    B = f.get_betas(p)
    arr[:] = 0.0
    v.eq('propagation constant unaffected', f.get_betas(p), B)
    B[:] = 1.0
    v.eq('results are private', f.get_betas(p), framed(v, taylor(v, bs, g.V), g))

@contract('C07', 'result depends on the pulse grid only, in any query order', under=F, samples=30)
def gvd_history(v):
    f = fib(v); p, g = new_pulse(v, 'a', hmin=2); q, h = new_pulse(v, 'b', hmin=2)
    bs = betas_in(v, 2); wl = wl_in(v, 'wlf')
    f.generate_fiber(1.0, wl, bs, 0.0)
    w = TWO_PI * C_NMPS / wl
    for j in range(2):
        if v.choice('who%d' % j, [True, False]): v.eq('first pulse, call %d' % j, f.get_betas(p), framed(v, taylor(v, bs, g.W - w), g))
        else: v.eq('second pulse, call %d' % j, f.get_betas(q), framed(v, taylor(v, bs, h.W - w), h))
    bs2 = betas_in(v, 3, 'n'); f.generate_fiber(2.0, wl, bs2, 0.0)
    v.eq('after regenerating', f.get_betas(p), framed(v, taylor(v, bs2, g.W - w), g))

@contract('C07', 'fibre instances are independent', under=F, samples=20)
def instances(v):
    a, b = fib(v), fib(v); p, g = new_pulse(v, hmin=2)
    b1 = betas_in(v, 2, 'a'); b2 = betas_in(v, 3, 'b')
    a.generate_fiber(1.0, g.wl0, b1, 1.0); b.generate_fiber(2.0, g.wl0, b2, 2.0, gain=v.pos('gain'))
    v.eq('first', a.get_betas(p), framed(v, taylor(v, b1, g.V), g)); v.eq('second', b.get_betas(p), framed(v, taylor(v, b2, g.V), g))
    v.eq('gain of the first', a.get_gain(p), v.arr(g.n, lambda k: 0.0), scale=1.0)
    v.eq('gamma', a.get_gamma(), 1.0)

@contract('C07', 'dispersion as a function of position: each query uses the function at that position', under=F, samples=40, past='pulse')
def zdep(v):
    f = fib(v); p, g = new_pulse(v, hmin=2)
    fs = [v.fun('beta%d' % i) for i in range(3)]
    wl = wl_in(v, 'wlf'); w = TWO_PI * C_NMPS / wl
    f.generate_fiber(1.0, wl, [0.0, 0.0, 0.0], 0.0, gvd_units=v.choice('units of the coefficients before', ['ps^n/m', 'ps^n/km']))      # a function is in ps^n/m always
    f.set_dispersion_function(lambda z: tuple(h(z) for h in fs), 'GVD')
    z1 = v.real('z1', s=(0.0, 1.0)); z2 = v.near(z1, v.real('z2', s=(0.0, 1.0)))
    for z in (z1, z2, z1):
        E = framed(v, taylor(v, [h(z) for h in fs], g.W - w), g)
        v.eq('propagation constant at z', f.get_betas(p, z=z), E, tol=3e-9)
    # another function, and a function whose outcome depends on what its owner has set meanwhile
    k = [v.real('k0')]
    def coeff(z): return tuple(h(z) + k[0] for h in fs)
    for j in range(3):
        if j: k[0] = v.real('k%d' % j)
        if j < 2: f.set_dispersion_function(coeff if j == 0 else lambda z: coeff(z), 'GVD')
        v.eq('propagation constant with function %d' % j, f.get_betas(p, z=z2), framed(v, taylor(v, [h(z2) + k[0] for h in fs], g.W - w), g))
    bs = betas_in(v, 2)
    f.generate_fiber(1.0, wl, bs, 0.0)
    v.eq('a regenerated fibre is uniform again', f.get_betas(p, z=v.real('z3')), framed(v, taylor(v, bs, g.W - w), g))

def table(v, k):
    wl = [v.pos('x%d' % i, s=(900.0 + 100.0 * i, 980.0 + 100.0 * i)) for i in range(k)]
    y = [v.real('y%d' % i, s=(-50.0, 50.0)) for i in range(k)]
    return v.array(wl), v.array(y)

def d_to_beta2(v, x, y, wl0):
    """group-velocity dispersion [ps^2/m] and offset angular frequency [rad/ps] of a D table [ps/nm/km]"""
    om = TWO_PI * C_NMPS / x - TWO_PI * C_NMPS / wl0
    b2 = -y * 1e-6 * (x * 1e-9) ** 2 / (TWO_PI * C_MKS) * 1e24
    return om, b2

@contract('C07', 'tabulated D: least-squares coefficients integrated twice', under=F + ['DTabulationToBetas'], samples=40)
def dtab(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    x, y = table(v, 7); kx, ky = v.snapshot(x), v.snapshot(y)
    order = v.choice('order', [1, 2, 3])
    f.generate_fiber(1.0, g.wl0, [0.0], 0.0)
    f.set_dispersion_function(lambda z: (x, y), 'D')
    f.poly_order = order
    om, b2 = d_to_beta2(v, kx, ky, g.wl0)
    co = np.polyfit(om, b2, order)
    E = 0.0 * g.V
    for i in range(order + 1): E = E + co[order - i] / ((i + 1) * (i + 2)) * g.V ** (i + 2)
    v.eq('propagation constant', f.get_betas(p), E, tol=1e-6)
    v.eq('again', f.get_betas(p), E, tol=1e-6)
    v.eq('table kept: wavelengths', x, kx); v.eq('table kept: D', y, ky)

@contract('C07', 'tabulated D that changes along the fibre, for any pulse', under=F + ['DTabulationToBetas'], samples=40)
def dtab_z(v):
    f = fib(v); p, g = new_pulse(v, 'a', hmin=2); q, h = new_pulse(v, 'b', hmin=2); np = v.np
    x, y = table(v, 6); kx, ky = v.snapshot(x), v.snapshot(y); order = v.choice('order', [1, 2])
    own = v.choice('axis', ['same objects', 'filled in place']); buf = v.snapshot(y)
    def D_of(z):
        if own == 'filled in place': buf[:] = y * (1.0 + z); return x, buf
        return x, y * (1.0 + z)
    f.generate_fiber(1.0, g.wl0, [0.0], 0.0); f.set_dispersion_function(D_of, 'D'); f.poly_order = order
    for t, (P, G, z) in enumerate(((p, g, 0.0), (p, g, 0.5), (q, h, 0.5), (p, g, 0.5))):
        om, b2 = d_to_beta2(v, kx, ky * (1.0 + z), G.wl0); co = np.polyfit(om, b2, order)
        E = 0.0 * G.V
        for i in range(order + 1): E = E + co[order - i] / ((i + 1) * (i + 2)) * G.V ** (i + 2)
        v.eq('propagation constant, query %d' % t, f.get_betas(P, z=z), E, tol=1e-6)

@contract('C07', 'tabulated D: coefficients of the fit', under=['DTabulationToBetas'], samples=40)
def dfit(v):
    m = v.load('pynlo.media.fibers.calculators'); np = v.np
    x, y = table(v, 6); D = np.transpose(np.vstack((x, y))); keep = v.snapshot(D)
    wl0 = wl_in(v, 'wl0')
    om, b2 = d_to_beta2(v, x, y, wl0)
    order = v.choice('order', [1, 2, 3])
    co = np.polyfit(om, b2, order)
    E = v.array([co[order - i] * math.factorial(i) for i in range(order + 1)])
    v.eq('betas', m.DTabulationToBetas(wl0, D, order, DDataIsFile=False), E, tol=1e-6)
    v.eq('data kept', D, keep)
    B, a, b, c = m.DTabulationToBetas(wl0, D, order, DDataIsFile=False, return_diagnostics=True)
    v.eq('diagnostics: betas', B, E, tol=1e-6); v.eq('diagnostics: axis', a, om); v.eq('diagnostics: data', b, b2)
    fit = 0.0 * om
    for i in range(order + 1): fit = fit + co[order - i] * om ** i
    v.eq('diagnostics: fit', c, fit, tol=1e-6)

@contract('C07', 'tabulated D recovers a polynomial dispersion exactly', under=['DTabulationToBetas'] + F, samples=40)
def dfit_exact(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    order = v.choice('order', [1, 2, 3])
    bs = betas_in(v, order + 1)
    x = v.array([v.pos('x%d' % i) for i in range(6)]) if v.symbolic else np.linspace(g.wl0 * 0.8, g.wl0 * 1.25, 12)
    om = TWO_PI * C_NMPS / x - TWO_PI * C_NMPS / g.wl0
    b2 = sum(b / math.factorial(i) * om ** i for i, b in enumerate(bs))
    y = -b2 * 1e-24 * TWO_PI * C_MKS / (x * 1e-9) ** 2 * 1e6
    f.generate_fiber(1.0, g.wl0, [0.0], 0.0); f.set_dispersion_function(lambda z: (x, y), 'D'); f.poly_order = order
    v.eq('propagation constant', f.get_betas(p), taylor(v, bs, g.V), tol=1e-5)

@contract('C07', 'effective index table: beta = n omega / c through the spline, framed on the pulse', under=F, samples=40)
def index(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    k = 8
    x = v.array([v.pos('x%d' % i, s=(300.0 + 400.0 * i, 500.0 + 400.0 * i)) for i in range(k)])
    y = v.array([v.pos('n%d' % i, s=(1.4, 1.5)) for i in range(k)])
    kx, ky = v.snapshot(x), v.snapshot(y)
    f.generate_fiber(1.0, g.wl0, [0.0], 0.0)
    f.set_dispersion_function(lambda z: (x, y), 'n')
    import importlib
    if v.symbolic: S = v.load('pynlo.media.fibers.fiber').scipy.interpolate.InterpolatedUnivariateSpline
    else: S = importlib.import_module('scipy.interpolate').InterpolatedUnivariateSpline
    w = TWO_PI * 1e-12 * C_MKS / (kx * 1e-9); b = ky * TWO_PI / (kx * 1e-9)
    E = framed(v, S(w[::-1], b[::-1])(g.W), g)
    v.eq('propagation constant', f.get_betas(p), E, tol=1e-6)
    v.eq('again', f.get_betas(p), E, tol=1e-6)
    v.eq('table kept', x, kx); v.eq('table kept: index', y, ky)

@contract('C07', 'effective index that changes along the fibre, queried at several positions', under=F, samples=40)
def index_z(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    k = 8
    x = v.array([v.pos('x%d' % i, s=(300.0 + 400.0 * i, 500.0 + 400.0 * i)) for i in range(k)])
    ys = [v.array([v.pos('n%d_%d' % (j, i), s=(1.4, 1.5)) for i in range(k)]) for j in range(2)]
    zs = [0.25, 0.5]; kx = v.snapshot(x); ky = [v.snapshot(y) for y in ys]
    own = v.choice('axis', ['same object', 'new object', 'filled in place'])
    buf = v.snapshot(ys[0])
    def n_of(z):
        j = 0 if z == zs[0] else 1
        if own == 'filled in place': buf[:] = ys[j]; return x, buf
        return (x if own == 'same object' else v.snapshot(x)), ys[j]
    f.generate_fiber(1.0, g.wl0, [0.0], 0.0)
    f.set_dispersion_function(n_of, 'n')
    import importlib
    if v.symbolic: S = v.load('pynlo.media.fibers.fiber').scipy.interpolate.InterpolatedUnivariateSpline
    else: S = importlib.import_module('scipy.interpolate').InterpolatedUnivariateSpline
    w = TWO_PI * 1e-12 * C_MKS / (kx * 1e-9)
    for t, j in enumerate((0, 1, 0)):
        b = ky[j] * TWO_PI / (kx * 1e-9)
        v.eq('propagation constant, query %d' % t, f.get_betas(p, z=zs[j]), framed(v, S(w[::-1], b[::-1])(g.W), g), tol=1e-6)

@contract('C07', 'second derivative and D of a quadratic fibre', under=['FiberInstance.Beta2', 'FiberInstance.Beta2_to_D'], samples=30)
def beta2(v):
    f = fib(v); p, g = new_pulse(v, hmin=3)
    b2 = v.real('b2', s=(-0.02, 0.02))
    f.generate_fiber(1.0, g.wl0, (b2,), 0.0)
    v.eq('beta2', f.Beta2(p), v.arr(g.n, lambda k: b2), tol=1e-6)
    v.eq('D', f.Beta2_to_D(p), -TWO_PI * C_NMPS / g.wl ** 2 * b2 * 1000.0, tol=1e-6)

@contract('C07', 'second derivative of a Taylor fibre is the central second difference', under=['FiberInstance.Beta2', 'FiberInstance.Beta2_to_D'], samples=30)
def beta2_general(v):
    f = fib(v); p, g = new_pulse(v, hmin=3)
    bs = betas_in(v, 3)
    f.generate_fiber(1.0, g.wl0, bs, 0.0)
    B = taylor(v, bs, g.V); d = TWO_PI / g.Tw
    j = v.int('j', 1, s=(1, 6)); v.assume(j < g.n - 1)
    E = (B[j + 1] - 2.0 * B[j] + B[j - 1]) / d ** 2
    v.eq('inner sample', f.Beta2(p)[j], E, tol=1e-5, scale=1e-2 if not v.symbolic else None)
    v.eq('first sample repeats the second', f.Beta2(p)[0], f.Beta2(p)[1]); v.same_len('length', f.Beta2(p), g.n)
    v.eq('last sample repeats the one before', f.Beta2(p)[-1], f.Beta2(p)[-2])

@contract('C07', 'database fibres: units, sharing, reload', under=['FiberInstance.load_from_db', 'FiberInstance.load_dispersion', 'JSONFiberLoader.get_fiber', 'FiberInstance.get_betas'], samples=30)
def database(v):
    m = v.load('pynlo.media.fibers.fiber'); np = v.np
    import json
    f = m.FiberInstance(); p, g = new_pulse(v, hmin=2)
    names = sorted(f.fiberloader.fibers.keys())
    nm = v.choice('fibre', names)
    sp = dict(m.FiberInstance().fiberloader.fibers[nm]); sp0 = json.dumps(sp, default=str, sort_keys=True)
    f.load_from_db(1.5, nm)
    B = f.get_betas(p)
    if sp['dispersion_format'] == 'GVD':
        k = 1e-3 if sp['dispersion_gvd_units'] == 'ps^n/km' else 1.0
        E = framed(v, taylor(v, [b * k for b in sp['dispersion_data']], g.W - TWO_PI * C_NMPS / sp['dispersion_gvd_center_wavelength']), g)
    else:
        x = np.array(sp['dispersion_x_data'], float); y = np.array(sp['dispersion_y_data'], float)
        om, b2 = d_to_beta2(v, x, y, g.wl0); co = np.polyfit(om, b2, 2)
        E = sum(co[2 - i] / ((i + 1) * (i + 2)) * g.V ** (i + 2) for i in range(3))
    v.eq('propagation constant', B, E, tol=1e-5)
    v.eq('asking again', f.get_betas(p), E, tol=1e-5)
    v.eq('gamma', f.get_gamma(), sp['gamma']); v.eq('length', f.length, 1.5)
    f.generate_fiber(1.0, g.wl0, (0.01,), 0.3, gain=0.5)
    h = m.FiberInstance(); h.load_from_db(1.5, nm)
    v.eq('a second load', h.get_betas(p), E, tol=1e-5)
    f.load_from_db(2.0, nm)
    v.eq('reload after generating another fibre', f.get_betas(p), E, tol=1e-5)
    v.check('database entry unchanged', json.dumps(h.fiberloader.fibers[nm], default=str, sort_keys=True) == sp0, '')

@contract('C07', 'dispersion table read from a file', under=['FiberInstance.load_from_file', 'FiberInstance.get_betas', 'DTabulationToBetas'], samples=40)
def from_file(v):
    f = fib(v); p, g = new_pulse(v, hmin=2); np = v.np
    x, y = table(v, 6)
    order = v.choice('order', [1, 2, 3]); head = v.choice('header', [0, 2]); dl = v.choice('delimiter', [',', ';'])
    fn = v.text_file('fibre.txt', np.transpose(np.vstack((x, y))), delimiter=dl, header=['wavelength'] * head)
    before = v.choice('before', ['fresh', 'uniform', 'D(z)', 'n(z)', 'GVD(z)'])
    if before != 'fresh':
        f.generate_fiber(1.0, wl_in(v, 'wlf'), (0.01, 1e-4), 0.1, gain=0.3); f.get_betas(p)
        if before == 'D(z)': f.set_dispersion_function(lambda z: (x, 2.0 * y + 1.0), 'D')
        if before == 'n(z)': f.set_dispersion_function(lambda z: (x, 1.4 + 0.0 * y), 'n')
        if before == 'GVD(z)': f.set_dispersion_function(lambda z: (0.5, 0.1), 'GVD')
    kw = dict(delimiter=dl) if dl != ',' else {}
    if head: kw['skiprows'] = head
    L = v.pos('L'); gam = v.real('gamma')
    f.load_from_file(fn, length=L, gamma_W_m=gam, poly_order=order, **kw)
    om, b2 = d_to_beta2(v, x, y, g.wl0); co = np.polyfit(om, b2, order)
    E = 0.0 * g.V
    for i in range(order + 1): E = E + co[order - i] / ((i + 1) * (i + 2)) * g.V ** (i + 2)
    v.eq('propagation constant', f.get_betas(p), E, tol=1e-6)
    v.eq('at another position', f.get_betas(p, z=v.real('z', s=(0.0, 1.0))), E, tol=1e-6)
    v.eq('length', f.length, L); v.eq('gamma', f.get_gamma(), gam)
    bs = betas_in(v, 2); f.generate_fiber(1.0, g.wl0, bs, 0.0)
    v.eq('a fibre generated afterwards', f.get_betas(p), framed(v, taylor(v, bs, g.V), g))

@contract('C07', 'dispersion table: file argument of the fit', under=['DTabulationToBetas'], samples=20)
def fit_file(v):
    m = v.load('pynlo.media.fibers.calculators'); np = v.np
    x, y = table(v, 6); wl0 = wl_in(v, 'wl0'); order = v.choice('order', [1, 3])
    fn = v.text_file('fibre.csv', np.transpose(np.vstack((x, y))), delimiter=',', header=['nm,D'])
    om, b2 = d_to_beta2(v, x, y, wl0); co = np.polyfit(om, b2, order)
    v.eq('betas', m.DTabulationToBetas(wl0, fn, order), v.array([co[order - i] * math.factorial(i) for i in range(order + 1)]), tol=1e-6)

def database_entry(v, fmt, tag=''):
    """a database entry as the file format describes it, and the numbers it stands for"""
    e = dict(name='entry' + tag, gamma=v.real('dbgamma' + tag), is_gain=False, dispersion_format=fmt)
    if fmt == 'GVD':
        bs = betas_in(v, v.choice('dborder' + tag, [1, 3]), 'db' + tag); wl = wl_in(v, 'dbwl' + tag); un = v.choice('dbunits' + tag, ['ps^n/m', 'ps^n/km'])
        e.update(dispersion_data=list(bs), dispersion_gvd_center_wavelength=wl, dispersion_gvd_units=un)
        k = 1e-3 if un == 'ps^n/km' else 1.0
        return e, (lambda g, order=2: framed(v, taylor(v, [b * k for b in bs], g.W - TWO_PI * C_NMPS / wl), g))
    x, y = table(v, 6)
    e.update(dispersion_x_units='nm', dispersion_y_units='ps/nm/km', dispersion_x_data=x if v.symbolic else x.tolist(), dispersion_y_data=y if v.symbolic else y.tolist())
    def spec(g, order=2):
        om, b2 = d_to_beta2(v, x, y, g.wl0); co = v.np.polyfit(om, b2, order); E = 0.0 * g.V
        for i in range(order + 1): E = E + co[order - i] / ((i + 1) * (i + 2)) * g.V ** (i + 2)
        return E
    return e, spec

def database_fibre(v, entries):
    """a fibre object on a database of the user's own"""
    m = v.load('pynlo.media.fibers.fiber')
    if v.symbolic: f = m.FiberInstance(); f.fiberloader.fibers = entries; return f
    import json, os
    fn = v.scratch('own.txt')
    with open(fn, 'w') as h: json.dump(entries, h)
    return m.FiberInstance('own', os.path.dirname(fn))

@contract('C07', 'fibres of a user database: coefficients or table, switched between at will', under=['FiberInstance.__init__', 'FiberInstance.load_from_db', 'FiberInstance.load_dispersion', 'JSONFiberLoader.__init__', 'JSONFiberLoader.get_fiber', 'FiberInstance.get_betas', 'DTabulationToBetas'], samples=60)
def own_database(v):
    e1, s1 = database_entry(v, 'GVD', 'a'); e2, s2 = database_entry(v, v.choice('format', ['GVD', 'D']), 'b')
    f = database_fibre(v, {'a': e1, 'b': e2}); p, g = new_pulse(v, hmin=2)
    order = 2
    for j in range(2):
        L = v.pos('L%d' % j)
        which = v.choice('which%d' % j, ['a', 'b', 'own', 'own(z)'] if not v.symbolic else [['b', 'own(z)'], ['a', 'b']][j])
        if which in ('own', 'own(z)'):
            f.generate_fiber(L, g.wl0, (0.01, 1e-4), v.real('g%d' % j), gain=0.5)
            if which == 'own(z)': f.set_dispersion_function(lambda z: (0.3 + z, 0.1), 'GVD'); f.set_gamma_function(lambda z: 7.0 + z)
            f.get_betas(p, z=0.25)
            continue
        e, s = (e1, s1) if which == 'a' else (e2, s2)
        if e['dispersion_format'] == 'D' and v.choice('poly_order%d' % j, [False, True]): order = 1; f.load_from_db(L, which, poly_order=1)
        else: order = 2; f.load_from_db(L, which)
        E = s(g, order)
        v.eq('propagation constant, load %d' % j, f.get_betas(p), E, tol=1e-6); v.eq('asked again, load %d' % j, f.get_betas(p, z=v.real('z%d' % j, s=(0.0, 1.0))), E, tol=1e-6)
        v.eq('gamma, load %d' % j, f.get_gamma(), e['gamma']); v.eq('length, load %d' % j, f.length, L)
        v.eq('no gain, load %d' % j, f.get_gain(p), v.arr(g.n, lambda k: 0.0), scale=1.0)
    # what is done to the fibre does not reach the entry it was loaded from
    f.load_from_db(1.0, 'b'); f.set_dispersion_function(lambda z: (0.2 + z, 0.1), 'n'); f.load_from_db(1.0, 'b')
    v.eq('entry after a function was set on the loaded fibre', f.get_betas(p), s2(g), tol=1e-6)
    h = database_fibre(v, {'a': e1, 'b': e2}); L = v.pos('L'); h.load_from_db(L, 'a')
    f.load_from_db(L, 'a')
    v.eq('history of the object is irrelevant', f.get_betas(p), h.get_betas(p)); v.eq('propagation constant of a new object', h.get_betas(p), s1(g))
    same_pulse(v, p, g, g.A, 'pulse: ')
