from vc.registry import contract
from .common import *
F = ['FiberInstance.get_gain', 'FiberInstance.get_gamma', 'FiberInstance.set_gamma_function', 'FiberInstance.generate_fiber']

def fib(v): return any_fibre(v)

@contract('C08', 'passive and flat-gain fibres', under=F, samples=30, past='fibre')
def flat(v):
    f = fib(v); p, g = new_pulse(v)
    gain = v.real('gain', s=(-3.0, 3.0)); passive = v.choice('passive', [True, False])
    if passive: gain = 0
    f.generate_fiber(v.pos('L'), wl_in(v, 'wlf'), (v.real('b2'),), v.real('gamma'), gain=gain)
    v.eq('gain spectrum', f.get_gain(p), v.arr(g.n, lambda k: gain * 1.0), scale=1.0)
    v.eq('gain spectrum whatever the output power', f.get_gain(p, output_power=v.pos('P')), v.arr(g.n, lambda k: gain * 1.0), scale=1.0)
    x = f.get_gain(p); x[:] = 9.0
    v.eq('results are private', f.get_gain(p), v.arr(g.n, lambda k: gain * 1.0), scale=1.0)
    same_pulse(v, p, g, g.A, 'pulse: ')

@contract('C08', 'switching a fibre between gain and passive', under=F, samples=20, past='fibre')
def switch(v):
    f = fib(v); p, g = new_pulse(v)
    gain = v.pos('gain')
    f.generate_fiber(1.0, g.wl0, (0.01,), 0.0, gain=gain)
    v.eq('gain', f.get_gain(p), v.arr(g.n, lambda k: gain))
    f.generate_fiber(1.0, g.wl0, (0.01,), 0.0)
    v.eq('passive again', f.get_gain(p), v.arr(g.n, lambda k: 0.0), scale=1.0)

@contract('C08', 'fibre read from a file: flat gain and nonlinearity, no trace of the previous fibre', under=['FiberInstance.load_from_file'] + F, samples=30)
def from_file(v):
    f = fib(v); p, g = new_pulse(v); np = v.np
    fn = v.text_file('fibre.txt', v.array([[1000.0 + 100.0 * i, v.real('y%d' % i, s=(-9.0, 9.0))] for i in range(5)]), delimiter=',')
    before = v.choice('before', ['fresh', 'gain', 'gamma(z)', 'spectrum'])
    if before != 'fresh':
        f.generate_fiber(1.0, g.wl0, (0.01,), 0.2, gain=v.pos('old'))
        if before == 'gamma(z)': f.set_gamma_function(v.fun('g'))
        if before == 'spectrum': f.fiberspecs.update(gain_x_data=[1e-6, 2e-6], gain_y_data=[1.0, 2.0], gain_x_units='m')
    gain = v.real('gain', s=(-2.0, 2.0)); gam = v.real('gamma'); passive = v.choice('passive', [True, False])
    if passive: f.load_from_file(fn, gamma_W_m=gam); gain = 0.0
    else: f.load_from_file(fn, gamma_W_m=gam, gain=gain)
    v.eq('gain', f.get_gain(p), v.arr(g.n, lambda k: gain * 1.0), scale=1.0)
    v.eq('gain whatever the output power', f.get_gain(p, output_power=v.pos('P')), v.arr(g.n, lambda k: gain * 1.0), scale=1.0)
    v.eq('gamma', f.get_gamma(v.real('z', s=(0.0, 1.0))), gam); v.eq('gamma by default', f.get_gamma(), gam)

@contract('C08', 'nonlinearity: constant or a function of position', under=F, samples=30, past='fibre')
def gamma(v):
    f = fib(v); h = fib(v)
    c = v.real('gamma'); fn = v.fun('g')
    f.generate_fiber(1.0, wl_in(v), (v.real('b2'),), c); h.generate_fiber(1.0, wl_in(v), (v.real('b2'),), c)
    z = v.real('z', s=(0.0, 1.0)); y = v.real('y', s=(0.0, 1.0))
    v.eq('constant', f.get_gamma(z), c); v.eq('default position', f.get_gamma(), c)
    f.set_gamma_function(fn)
    v.eq('function', f.get_gamma(z), fn(z)); v.eq('function elsewhere', f.get_gamma(y), fn(y)); v.eq('function by keyword', f.get_gamma(z=y), fn(y))
    z1 = v.near(z, v.real('z1', s=(0.0, 1.0))); v.eq('function at another position', f.get_gamma(z1), fn(z1)); v.eq('function at the first position again', f.get_gamma(z), fn(z))
    # functions defined one after the other, and a function whose outcome depends on what its owner has set meanwhile
    k = [v.real('k0')]; probe = v.choice('queried meanwhile', [True, False])
    for j in range(3):
        kj = v.real('j%d' % j)
        f.set_gamma_function(lambda x, kj=kj: fn(x) * kj)
        if probe or j != 1: v.eq('function %d' % j, f.get_gamma(z), fn(z) * kj)
    f.set_gamma_function(lambda x: fn(x) + k[0])
    v.eq('function with a parameter', f.get_gamma(z), fn(z) + k[0])
    k[0] = v.real('k1'); v.eq('function with the parameter changed', f.get_gamma(z), fn(z) + k[0])
    v.eq('other fibres keep theirs', h.get_gamma(z), c)
    c2 = v.real('gamma2'); f.generate_fiber(1.0, wl_in(v), (v.real('b2'),), c2)
    v.eq('a regenerated fibre is uniform again', f.get_gamma(z), c2)

def synthetic(v, m, L, p, g):
    np = v.np
    f = fib(v)
    f.generate_fiber(L, g.wl0, (0.01,), 0.0, gain=1.0)
    x = np.sort(g.wl * 1e-9)
    lo, hi = x[0] * 0.9, x[-1] * 1.1
    if v.choice('table', ['wider than the grid', 'narrower than the grid']) != 'wider than the grid': lo, hi = 0.5 * (x[0] + g.wl0 * 1e-9), 0.5 * (x[-1] + g.wl0 * 1e-9)
    xs = np.linspace(lo, hi, 12)
    ys = np.array([v.real('gs%d' % i, s=(0.5, 2.0)) for i in range(12)])
    f.fiberspecs.update(gain_x_data=list(xs), gain_y_data=list(ys), gain_x_units='m')
    return f, xs, ys

@contract('C08', 'spectral gain is scaled so that the amplified pulse carries the requested power', under=F, samples=25, sym=False, bounded='sampled pulses and gain spectra; scipy.optimize.minimize and interp1d are external')
def spectrum(v):
    np = v.np
    p, g = new_pulse(v)
    L = v.pos('L', s=(0.3, 2.0))
    f, xs, ys = synthetic(v, None, L, p, g)
    if abs(p.AW[g.n // 2]) < 0.1 * abs(p.AW).max(): A = p.AW; A[g.n // 2] = abs(A).max(); p.set_AW(A); g.A = p.AW
    P0 = g.frep * 1e6 * p.calc_epp()
    P = P0 * v.pos('ratio', s=(0.3, 8.0), log=True)
    if v.past('gain'):
        # the same fibre has amplified another pulse (possibly to the same power), or this one to another power
        if v.choice('before', [True, False]): q, h = new_pulse(v, 'other'); f.get_gain(q, output_power=P)
        else: f.get_gain(p, output_power=P * 1.7)
        if v.choice('length before', [True, False]): f.length = 2.0 * L; f.get_gain(p, output_power=P); f.length = L
    a = f.get_gain(p, output_power=P)
    q = p.create_cloned_pulse(); q.set_AW(g.A * np.exp(a * L / 2.0))
    if xs[0] < g.wl.min() * 1e-9: v.eq('power after the fibre', g.frep * 1e6 * q.calc_epp(), P, tol=1e-3)
    v.assume(bool(np.all(np.isfinite(a))))
    from scipy.interpolate import interp1d
    shape = interp1d(C_MKS / xs[::-1], ys[::-1], kind='cubic', bounds_error=False, fill_value=0)(g.W * 1e12 / TWO_PI)
    k = a[g.n // 2] / shape[g.n // 2]
    v.eq('shape of the gain spectrum', a, k * shape, tol=1e-6)
    v.eq('no gain outside the gain spectrum', np.where((g.wl * 1e-9 < xs[0] * (1 - 1e-9)) | (g.wl * 1e-9 > xs[-1] * (1 + 1e-9)), a, 0.0), np.zeros(g.n), scale=1.0)
    same_pulse(v, p, g, g.A, 'pulse: ')

@contract('C08', 'spectral gain: table, objective and result', under=F, samples=10)
def spectrum_parts(v):
    """interp1d through its contract (a function given by the table, zero outside), minimize through its contract (the smallest value of its first argument)"""
    np = v.np
    if not v.symbolic:
        p, g = new_pulse(v); f, xs, ys = synthetic(v, None, v.pos('L'), p, g); kx, ky = v.snapshot(xs), v.snapshot(ys)
        f.fiberspecs.update(gain_x_data=xs, gain_y_data=ys); f.get_gain(p, output_power=v.pos('P'))
        v.eq('table kept', xs, kx); v.eq('table values kept', ys, ky); same_pulse(v, p, g, g.A, 'pulse: '); return
    p, g = new_pulse(v); L = v.pos('L'); P = v.pos('P'); m = v.int('table', 4)
    f = fib(v); f.generate_fiber(L, wl_in(v), (v.real('b2'),), v.real('gamma'), gain=v.pos('gain'))
    xs = v.rarr('xs', m, pos=True); ys = v.rarr('ys', m); kx, ky = v.snapshot(xs), v.snapshot(ys)
    f.fiberspecs.update(gain_x_data=xs, gain_y_data=ys, gain_x_units='m')
    mod = v.load('pynlo.media.fibers.fiber'); shape = v.fun('gain spectrum'); calls = []
    def interp1d(x, y, kind='linear', bounds_error=None, fill_value=None, **kw):
        given(v, 'interp1d', (x, C_MKS / xs[::-1]), (y, ys[::-1]), (kind, 'cubic'), (bounds_error, False), (fill_value, 0))
        return lambda w: shape(w)
    G = shape(g.W * 1e12 / TWO_PI)
    def power(k): return g.frep * 1e6 * g.dT * 1e-12 * np.trapz(np.abs(to_time(v, g.A * np.exp(k * G * L / 2.0))) ** 2)
    def minimize(fun, x0, method=None, **kw):
        k = v.any('scale'); calls.append(1)
        v.eq('objective: distance from the requested power', fun(k), np.abs(P - power(k)))
        class R: _vc_ghost = True
        r = R(); r.x = v.any('best'); calls.append(r.x); return r
    keep = mod.minimize, mod.scipy
    lib = only(); lib.interpolate = only(interp1d=interp1d)
    mod.minimize, mod.scipy = minimize, lib
    try: a = f.get_gain(p, output_power=P)
    finally: mod.minimize, mod.scipy = keep
    if not calls: given(v, 'minimize', (True, False))
    v.eq('gain spectrum scaled by the result', a, G * calls[1])
    # the power can be reached, so the smallest distance from it is zero
    v.assume(power(calls[1]) == P)
    q = p.create_cloned_pulse(); q.set_AW(g.A * np.exp(a * L / 2.0))
    v.eq('power after the fibre', g.frep * 1e6 * q.calc_epp(), P)
    v.eq('table kept', xs, kx); v.eq('table values kept', ys, ky)
    same_pulse(v, p, g, g.A, 'pulse: ')

@contract('C08', 'database fibres: no trace of the gain or nonlinearity of the previous fibre', under=['FiberInstance.load_from_db'] + F, samples=40)
def database_gain(v):
    from .C07 import database_entry, database_fibre
    e, s = database_entry(v, v.choice('format', ['GVD', 'D']))
    f = database_fibre(v, {'a': e}); p, g = new_pulse(v, hmin=2)
    gain = v.pos('gain'); gam = v.real('gamma'); z = v.real('z', s=(0.0, 1.0)); fn = v.fun('g')
    zero = v.arr(g.n, lambda k: 0.0)
    for j in range(3):
        k = v.choice('kind%d' % j, ['database', 'gain', 'gamma(z)'])
        if k == 'database':
            f.load_from_db(v.pos('L%d' % j), 'a')
            v.eq('database fibre is passive, %d' % j, f.get_gain(p), zero, scale=1.0); v.eq('at any power, %d' % j, f.get_gain(p, output_power=v.pos('P')), zero, scale=1.0)
            v.eq('its nonlinearity, %d' % j, f.get_gamma(z), e['gamma'])
        else:
            f.generate_fiber(v.pos('L%d' % j), g.wl0, (0.01,), gam, gain=gain)
            if k == 'gamma(z)': f.set_gamma_function(fn)
            v.eq('gain, %d' % j, f.get_gain(p), v.arr(g.n, lambda i: gain)); v.eq('nonlinearity, %d' % j, f.get_gamma(z), fn(z) if k == 'gamma(z)' else gam)
    f.load_from_db(v.pos('L'), 'a')
    v.eq('database fibre is passive', f.get_gain(p), zero, scale=1.0); v.eq('its nonlinearity', f.get_gamma(z), e['gamma'])
    same_pulse(v, p, g, g.A, 'pulse: ')

@contract('C08', 'database fibres with a gain spectrum use it; a generated fibre afterwards does not', under=['FiberInstance.load_from_db'] + F, samples=30, sym=False, bounded='sampled gain spectra; scipy.optimize.minimize and interp1d are external (their contracts are used in "spectral gain: table, objective and result")')
def database_spectrum(v):
    from .C07 import database_entry, database_fibre
    np = v.np; e, s = database_entry(v, 'GVD'); p, g = new_pulse(v)
    if abs(p.AW[g.n // 2]) < 0.1 * abs(p.AW).max(): A = p.AW; A[g.n // 2] = abs(A).max(); p.set_AW(A); g.A = p.AW
    x = np.sort(g.wl * 1e-9); xs = np.linspace(x[0] * 0.9, x[-1] * 1.1, 12); ys = np.array([v.real('gs%d' % i, s=(0.5, 2.0)) for i in range(12)])
    e.update(is_gain=True, gain_x_units='m', gain_x_data=xs.tolist(), gain_y_data=ys.tolist())
    f = database_fibre(v, {'a': e}); L = v.pos('L', s=(0.3, 2.0))
    gain = v.pos('gain'); f.generate_fiber(1.0, g.wl0, (0.01,), 0.1, gain=gain)
    f.load_from_db(L, 'a')
    P0 = g.frep * 1e6 * p.calc_epp(); P = P0 * v.pos('ratio', s=(0.3, 8.0), log=True)
    a = f.get_gain(p, output_power=P)
    q = p.create_cloned_pulse(); q.set_AW(g.A * np.exp(a * L / 2.0))
    v.eq('power after the fibre', g.frep * 1e6 * q.calc_epp(), P, tol=1e-3)
    f.generate_fiber(1.0, g.wl0, (0.01,), 0.1, gain=gain)
    v.eq('flat again', f.get_gain(p), v.arr(g.n, lambda k: gain))
    f.load_from_db(L, 'a'); v.eq('spectral again', f.get_gain(p, output_power=P), a, tol=1e-6)
    fn = v.text_file('flat.txt', np.array([[1000.0 + 100.0 * i, 1.0 * i] for i in range(5)]), delimiter=',')
    f.load_from_file(fn, gamma_W_m=0.2, gain=0.0 if v.choice('passive file', [True, False]) else gain)
    f.load_from_db(L, 'a'); v.eq('spectral after a file was read', f.get_gain(p, output_power=P), a, tol=1e-6)
