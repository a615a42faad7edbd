from vc.registry import contract
from .ssfm import *
U = ['SSFM.setup_fftw', 'SSFM.load_fiber_parameters', 'SSFM.Advance', 'SSFM.LinearStep', 'SSFM.Calculate_expD', 'SSFM.RK4IP', 'SSFM.NonlinearOperator', 'SSFM.FFT_t', 'SSFM.IFFT_t', 'SSFM.FFT_t_2', 'SSFM.IFFT_t_2']

@contract('C09', 'one step without nonlinearity is the exact linear flow', under=U, fftw=(False, True), layout=True, samples=40)
def step(v):
    n = v.even('n'); meth = v.choice('method', ['RK4IP', 'SSFM'])
    s, p, g, beta, gain = prepared(v, n)
    s.method = getattr(type(s), 'METHOD_' + meth)
    s.disable_self_steepening = not v.choice('steepening', [False, True])
    A = v.carr('X', n); keep = v.snapshot(A)
    B = v.np.array(A)
    h0 = v.pos('h0', s=(0.01, 1.0)); d = v.choice('dir', [1, -1])
    out = s.Advance(B, h0, d)
    v.eq('field after the first step', out, flow(v, A, beta, gain, d * h0))
    A = v.np.array(out); B = v.np.array(out)
    h = h0 if v.choice('same step', [True, False]) else v.pos('h1', s=(0.01, 1.0))
    v.eq('field after the second step', s.Advance(B, h, 1), flow(v, A, beta, gain, h))

@contract('C09', 'the linear step itself', under=['SSFM.LinearStep', 'SSFM.Calculate_expD'], fftw=(False, True), layout=True, samples=40)
def linear(v):
    n = v.even('n')
    s, p, g, beta, gain = prepared(v, n)
    A = v.carr('X', n); keep = v.snapshot(A)
    hs = [v.pos('h0', s=(0.01, 1.0)), v.pos('h1', s=(0.01, 1.0))]
    for j in range(3):
        h = hs[0] if v.choice('which%d' % j, [True, False]) else hs[1]
        d = v.choice('dir%d' % j, [1, -1])
        v.eq('call %d: half a step' % j, s.LinearStep(A, h, d), flow(v, A, beta, gain, d * h / 2.0))
    v.eq('argument unchanged', A, keep)

@contract('C09', 'integration over a distance: every history of accepted and rejected steps', under=['SSFM.integrate_over_dz'], fftw=(False, True), samples=40)
def integrate(v):
    """the single step is used through its contract (the exact linear flow, proved above)"""
    n = v.even('n'); L = v.pos('L', s=(0.1, 3.0))
    s, p, g, beta, gain = prepared(v, n)
    s.dz = v.pos('dz', s=(0.003, 2.0)); s.local_error = v.pos('tol', s=(1e-6, 1e-1))
    s.method = getattr(type(s), 'METHOD_' + (v.choice('method', ['RK4IP', 'SSFM']) if not v.symbolic else 'RK4IP'))
    s.CalculateLocalError = lambda: any_error(v) * s.local_error
    if v.symbolic: s.Advance = lambda A, h, d: flow(v, A, beta, gain, d * h)
    A0 = v.carr('X', n); s.A[:] = A0
    linear_invariant(v, s, beta, gain)
    s.integrate_over_dz(L)
    v.eq('field', s.A, flow(v, A0, beta, gain, L))
    v.true('step for the next call', s.dz > 0.0)

def linear_invariant(v, s, beta, gain):
    """remaining distance and field of the adaptive loop: the field is the flow over the distance covered"""
    if not v.symbolic: return
    mem = {}
    def setup(L):
        tot = L['delta_z']
        if L.phase == 'b': dist = L.fresh('dist', pos=True)
        else: dist = L.fresh('rest', pos=True) if v.choice('left', [True, False]) else 0.0
        L['dist'] = dist; L['dz'] = dz = L.fresh('dz', pos=True)
        if L.phase == 'b': v.assume(2.0 * dz <= dist)
        L['force_last_dz'] = forced = v.choice('shortened', [True, False])
        if forced: L.put('return_dz', L.fresh('kept', pos=True))
        L['self'].A[:] = flow(v, mem['A'], beta, gain, tot - dist)
    def check(L, when):
        o = L['self']
        if when == 'entry': mem['A'] = v.snapshot(o.A)
        v.true('%s: remaining distance' % when, L['dist'] >= 0.0)
        v.true('%s: step' % when, L['dz'] > 0.0)
        if when != 'entry' and L['force_last_dz']: v.true('%s: step kept for later' % when, L['return_dz'] > 0.0)
        v.true('%s: next step fits' % when, (2.0 * L['dz'] <= L['dist']) | (L['dist'] <= 0.0))
        v.eq('%s: field' % when, o.A, flow(v, mem['A'], beta, gain, L['delta_z'] - L['dist']))
    v.loop('integrate_over_dz', setup, check)

@contract('C09', 'a fibre changed between two integrations takes effect', under=['SSFM.integrate_over_dz', 'SSFM.LinearStep', 'SSFM.RK4IP', 'SSFM.load_fiber_parameters'], fftw=(False, True), layout=True, samples=20)
def reload_(v):
    n = v.even('n'); L = v.pos('L', s=(0.1, 1.0))
    s, p, g, beta, gain = prepared(v, n)
    s.dz = L                                     # a single pair of steps spans the distance
    s.method = getattr(type(s), 'METHOD_' + v.choice('method', ['RK4IP', 'SSFM']))
    s.CalculateLocalError = lambda: s.local_error * 0.75
    A0 = v.carr('X', n); s.A[:] = A0
    s.integrate_over_dz(L)
    A1 = v.np.array(s.A)
    v.eq('first fibre', A1, flow(v, A0, beta, gain, L))
    b2 = v.rarr('beta2', n, s=(-3.0, 3.0))
    f2 = fiber(v, L, 0.0, b2, gain)
    s.load_fiber_parameters(p, f2, 1.0)
    s.dz = L
    s.integrate_over_dz(L)
    v.eq('second fibre', s.A, flow(v, A1, b2, gain, L))
    # whatever step was prepared last, under whatever fibre
    s.dz = L * (0.5 + v.choice('kept step', [0.0, 0.25])); s.last_h = L * v.choice('prepared', [0.5, 1.0, 2.0]); s.exp_D[:] = v.carr('prepared', n)
    A1 = v.np.array(s.A); b3 = v.rarr('beta3', n, s=(-3.0, 3.0))
    s.load_fiber_parameters(p, fiber(v, L, 0.0, b3, gain), 1.0)
    s.integrate_over_dz(L)
    v.eq('third fibre', s.A, flow(v, A1, b3, gain, L))

@contract('C09', 'propagation in any number of steps is the exact linear flow',
          under=['SSFM.propagate', 'SSFM.setup_fftw', 'SSFM.load_fiber_parameters', 'SSFM.FFT_t_2', 'SSFM.conditional_ifftshift'], fftw=(False, True), layout=True, samples=60)
def propagate(v):
    """the integration over one output step is used through its contract (proved above)"""
    n = v.even('n'); np = v.np
    p, g = new_pulse(v, n=n)
    beta = v.rarr('beta', n, s=(-3.0, 3.0)); gain = v.rarr('gain', n, s=(-0.5, 0.5))
    L = v.pos('L', s=(0.1, 3.0))
    f = fiber(v, L, 0.0, beta, gain)
    s = solver(v, dz=v.pos('dz', s=(0.003, 2.0)), local_error=v.pos('tol', s=(1e-6, 1e-1)))
    N = v.int('N', 1, s=(1, 6))
    if v.symbolic:
        def contract_(dz, direction=1): s.A[:] = flow(v, s.A, beta, gain, direction * dz)
        s.integrate_over_dz = contract_
    else:
        s.method = getattr(type(s), 'METHOD_' + v.choice('method', ['RK4IP', 'SSFM']))
        s.CalculateLocalError = lambda: any_error(v) * s.local_error
    A0 = shifted(v, to_time(v, g.A))
    d = L / N
    def setup(Lp): s.A[:] = flow(v, A0, beta, gain, Lp.k * d)
    def check(Lp, when): v.eq('%s: field' % when, s.A, flow(v, A0, beta, gain, Lp.k * d))
    v.loop('propagate', setup, check)
    z, AW, AT, q = s.propagate(p, f, N)
    v.same_len('number of positions', z, N + 1)
    v.eq('first position', z[0], 0.0, scale=L); v.eq('last position', z[-1], L)
    v.eq('positions', z, v.arr(N + 1, lambda k: k * d))
    H = 1j * beta + gain / 2.0
    v.eq('output spectrum', q.AW, g.A * np.exp(L * H))
    v.eq('output field in time', q.AT, to_time(v, g.A * np.exp(L * H)))
    j = v.index('j', N)
    v.eq('spectrum at a position', AW[:, j], g.A * np.exp(z[j + 1] * H))
    v.eq('field at a position', AT[:, j], to_time(v, g.A * np.exp(z[j + 1] * H)))
    same_pulse(v, p, g, g.A, 'input pulse: ')
    same_grid(v, 'output pulse: ', q, p)
    x = q.AW; x[:] = 0.0
    v.eq('input pulse shares nothing', p.AW, g.A)

@contract('C09', 'dispersion that changes along the fibre, reloaded at every output step', under=['SSFM.propagate', 'SSFM.load_fiber_parameters'], fftw=(False, True), samples=40)
def reloaded(v):
    """beta(z) linear in z with arbitrary coefficients on the grid; output step i uses the fibre at its start"""
    n = v.even('n'); np = v.np
    p, g = new_pulse(v, n=n)
    beta = v.rarr('beta', n, s=(-3.0, 3.0)); slope = v.rarr('slope', n, s=(-3.0, 3.0)); gain = v.rarr('gain', n, s=(-0.5, 0.5))
    L = v.pos('L', s=(0.1, 3.0)); N = v.int('N', 1, s=(1, 6)); d = L / N
    f = fiber(v, L, 0.0, beta, gain)
    f.get_betas = lambda pulse, z=0: beta + z * slope
    s = solver(v, dz=v.pos('dz', s=(0.003, 2.0)), local_error=v.pos('tol', s=(1e-6, 1e-1)))
    if v.symbolic:
        def contract_(dz, direction=1): s.A[:] = field(v, np.exp(direction * dz * (1j * s.betas - s.alpha / 2.0)) * spectrum(v, s.A))
        s.integrate_over_dz = contract_
    else: s.method = getattr(type(s), 'METHOD_' + v.choice('method', ['RK4IP', 'SSFM']))
    A0 = shifted(v, to_time(v, g.A))
    def after(k): return k * d * (1j * beta + gain / 2.0) + 1j * slope * (d * d * k * (k - 1) / 2.0)
    def fld(k): return field(v, shifted(v, np.exp(after(k))) * spectrum(v, A0))
    def setup(Lp): s.A[:] = fld(Lp.k)
    def check(Lp, when): v.eq('%s: field' % when, s.A, fld(Lp.k))
    v.loop('propagate', setup, check)
    z, AW, AT, q = s.propagate(p, f, N, reload_fiber_each_step=True)
    v.eq('output spectrum', q.AW, g.A * np.exp(after(N)))
    j = v.index('j', N)
    v.eq('spectrum at a position', AW[:, j], g.A * np.exp(after(j + 1)))

@contract('C09', 'method, back end and step sizes end to end', under=['SSFM.propagate'], fftw=(False, True), layout=True, samples=60, sym=False, bounded='sampled composition of the contracts above')
def end_to_end(v):
    n = v.even('n'); np = v.np
    p, g = new_pulse(v, n=n)
    f = v.load('pynlo.media.fibers.fiber').FiberInstance()
    L = v.pos('L', s=(0.1, 3.0)); b = (v.real('b2', s=(-0.05, 0.05)), v.real('b3', s=(-0.002, 0.002)))
    # the fibre's own gain and a physical field
    gain = v.choice('gain', [0, 0.7, -0.4])
    f.generate_fiber(L, g.wl0, b, 0.0, gain=gain)
    s = solver(v, dz=v.pos('dz', s=(0.003, 2.0)), local_error=v.pos('tol', s=(1e-6, 1e-1)), disable_Raman=v.choice('raman', [True, False]), disable_self_steepening=v.choice('ss', [True, False]))
    s.method = getattr(type(s), 'METHOD_' + v.choice('method', ['RK4IP', 'SSFM']))
    if v.choice('errors', [True, False]): s.CalculateLocalError = lambda: any_error(v) * s.local_error
    reload = v.choice('reload', [False, True])
    beta = f.get_betas(p)
    for rep in range(2):
        z, AW, AT, q = s.propagate(p, f, v.int('N%d' % rep, 1, s=(1, 6)), reload_fiber_each_step=reload)
        H = 1j * beta + gain / 2.0
        v.eq('run %d: output' % rep, q.AW, g.A * np.exp(L * H)); v.eq('run %d: end' % rep, z[-1], L); v.true('run %d: increasing' % rep, np.diff(z) > 0)
        for i in range(AW.shape[1]):
            v.eq('run %d: spectrum %d' % (rep, i), AW[:, i], g.A * np.exp(z[i + 1] * H)); v.eq('run %d: field %d' % (rep, i), AT[:, i], to_time(v, AW[:, i]))
        same_pulse(v, p, g, g.A, 'input pulse: ')
