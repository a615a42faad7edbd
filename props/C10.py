from vc.registry import contract
from .ssfm import *
F = ['SSFM.FFT_t', 'SSFM.IFFT_t', 'SSFM.FFT_t_2', 'SSFM.IFFT_t_2']

def operator(v, A, R, gamma, w0, om, steep):
    """nonlinear operator N of dA/dz = N(A) A for a field A and Raman spectrum R, product rule for the shock term"""
    np = v.np
    I = np.abs(A) ** 2
    RI = field(v, R * spectrum(v, I))
    N = 1j * gamma * RI
    if not steep: return N
    D = lambda X: field(v, -1j * om * spectrum(v, X))
    return N - gamma / w0 * (field(v, R * spectrum(v, D(I))) + np.where(np.abs(A) > 1e-15, D(A) * RI / (1e-20 + A), 0.0))

@contract('C10', 'nonlinear operator', under=['SSFM.NonlinearOperator', 'SSFM.Deriv', 'SSFM.setup_fftw', 'SSFM.load_fiber_parameters'] + F, fftw=(False, True), layout=True, samples=60)
def nonlinear_operator(v):
    n = v.even('n'); np = v.np
    gamma = v.real('gamma', s=(0.0, 3.0))
    s, p, g, beta, gain = prepared(v, n, gamma=gamma)
    steep = v.choice('steepening', [False, True]); s.disable_self_steepening = not steep
    R = v.carr('R', n); s.R[:] = R
    om = shifted(v, g.V); w0 = TWO_PI * g.f0
    A = v.carr('X', n)
    if not v.symbolic and v.choice('dark', [False, True]): A[n // 3] = 0.0
    keep = v.snapshot(A)
    v.eq('operator', s.NonlinearOperator(A), operator(v, A, R, gamma, w0, om, steep))
    v.eq('field untouched', A, keep)
    B = v.carr('Y', n)
    v.eq('operator for another field', s.NonlinearOperator(B), operator(v, B, R, gamma, w0, om, steep))
    v.eq('Raman spectrum kept', s.R, R)

@contract('C10', 'RK4IP step for any nonlinear operator', under=['SSFM.RK4IP', 'SSFM.Advance', 'SSFM.LinearStep', 'SSFM.Calculate_expD'] + F, fftw=(False, True), layout=True, samples=60)
def rk4ip(v):
    """Hult, J. Lightwave Technol. 25, 3770 (2007), eqs. (6)-(12)"""
    n = v.even('n')
    s, p, g, beta, gain = prepared(v, n)
    s.method = type(s).METHOD_RK4IP
    N = v.op('N'); s.NonlinearOperator = N
    A0 = v.carr('X', n); A = v.np.array(A0)
    h = v.pos('h', s=(0.01, 0.5)); d = v.choice('dir', [1, -1]); H = d * h
    E = lambda X: flow(v, X, beta, gain, H / 2.0)
    rhs = lambda X: H * (N(X) * X)
    AI = E(A0)
    k1 = E(rhs(A0)); k2 = rhs(AI + k1 / 2.0); k3 = rhs(AI + k2 / 2.0); k4 = rhs(E(AI + k3))
    v.eq('step', s.Advance(A, h, d), E(AI + k1 / 6.0 + k2 / 3.0 + k3 / 3.0) + k4 / 6.0)
    v.eq('field untouched', A, A0)

@contract('C10', 'split step for any nonlinear operator', under=['SSFM.Advance', 'SSFM.LinearStep', 'SSFM.Calculate_expD'] + F, fftw=(False, True), layout=True, samples=60)
def split(v):
    n = v.even('n'); np = v.np
    s, p, g, beta, gain = prepared(v, n)
    s.method = type(s).METHOD_SSFM
    N = v.op('N'); s.NonlinearOperator = N
    A0 = v.carr('X', n, s=0.3); h = v.pos('h', s=(0.01, 0.5))
    if v.choice('forward', [True, False]):
        B = flow(v, A0, beta, gain, h)
        v.eq('forward: linear step, then nonlinear phase', s.Advance(np.array(A0), h, 1), np.exp(h * N(B)) * B)
    else:
        v.eq('backward: nonlinear phase, then linear step', s.Advance(np.array(A0), h, -1), flow(v, np.exp(-h * N(A0)) * A0, beta, gain, -h))

@contract('C10', 'self-phase modulation alone keeps the intensity', under=['SSFM.Advance', 'SSFM.NonlinearOperator', 'SSFM.CalculateRamanResponseFT', 'SSFM.setup_fftw'] + F, fftw=(False, True), layout=True, samples=60)
def intensity(v):
    n = v.even('n'); np = v.np
    p, g = new_pulse(v, n=n)
    gamma = v.real('gamma', s=(0.0, 3.0))
    zero = v.arr(n, lambda k: 0.0)
    f = fiber(v, v.pos('L'), gamma, zero, zero)
    s = solver(v); s.method = type(s).METHOD_SSFM
    s.setup_fftw(p, f, 1.0); s.load_fiber_parameters(p, f, 1.0)
    A = v.carr('X', n); h = v.pos('h', s=(0.01, 0.5)); d = v.choice('dir', [1, -1])
    out = s.Advance(np.array(A), h, d)
    v.eq('field', out, A * np.exp(1j * d * gamma * h * np.abs(A) ** 2))
    v.eq('intensity', np.abs(out) ** 2, np.abs(A) ** 2)

def raman_time(v, T, t1, t2, simple):
    """delayed response on the time grid (Blow & Wood, or Lin & Agrawal 2006), before normalisation"""
    np = v.np
    if simple: return (t1 ** 2 + t2 ** 2) / (t1 * t2 ** 2) * np.exp(-T / t2) * np.sin(T / t1)
    tb = 0.096
    return (0.75 + 0.04) * (t1 / (t1 ** 2 + t2 ** 2) * np.exp(-T / t2) * np.sin(T / t1)) + 0.21 * ((2.0 * tb - T) / tb ** 2 * np.exp(-T / tb))

@contract('C10', 'Raman response', under=['SSFM.CalculateRamanResponseFT', 'SSFM.FFT_t_shift', 'SSFM.setup_fftw', 'SSFM.conditional_fftshift'], fftw=(False, True), layout=True, samples=60)
def raman(v):
    np = v.np; n = v.even('n', hmin=2)
    p, g = new_pulse(v, n=n, Tw=tw_in(v) if v.symbolic else n * v.pos('dT', s=(0.005, 0.1)))
    f = fiber(v, v.pos('L'), v.real('gamma'), v.rarr('beta', n), v.rarr('gain', n))
    fR = v.pos('fR', s=(0.1, 0.3)); t1 = v.pos('t1', s=(0.01, 0.02)); t2 = v.pos('t2', s=(0.02, 0.05))
    kind = v.choice('kind', ['none', 'simple', 'lin-agrawal'])
    s = solver(v, disable_Raman=kind == 'none', USE_SIMPLE_RAMAN=kind == 'simple', f_R=fR, tau_1=t1, tau_2=t2)
    gv = v.load('pynlo.interactions.FourWaveMixing.global_variables')
    analytic = v.choice('analytic', [False, True])
    v.put(gv, 'USE_FREQUENCY_DOMAIN_RAMAN', analytic)
    s.setup_fftw(p, f, 1.0)
    if v.choice('set up again', [False, True]): s.setup_fftw(p, f, 1.0)
    v.eq('Raman fraction kept', s.f_R, fR); v.eq('response times kept', v.array([s.tau_1, s.tau_2]), v.array([t1, t2]))
    if kind == 'none':
        v.eq('no delayed response', s.R, v.arr(n, lambda k: 1.0)); return
    RT = raman_time(v, g.T, t1, t2, kind == 'simple')
    w = v.arr(n, lambda k: 0.0 if k < n // 2 else 1.0) if not v.symbolic else np.where(v.arr(n, lambda k: k * 1.0) < n // 2, 0.0, 1.0)
    RT = RT * w                                    # causal
    area = np.trapz(RT, g.T)
    x = fR if kind == 'simple' else 0.245
    if v.symbolic: v.assume((area > 0.0) | (area < 0.0))
    R0 = shifted(v, (1.0 - fR) + fR * (t1 ** 2 + t2 ** 2) / (t1 ** 2 + t2 ** 2 - 2j * g.V * t1 ** 2 * t2 - t1 ** 2 * t2 ** 2 * g.V ** 2))
    if analytic: v.eq('response', s.R, R0)
    else: v.eq('response', s.R, shifted(v, (1.0 - x) + g.Tw * to_freq(v, x * (RT / area))), tol=1e-7)
    v.eq('analytic response', s.R0, R0)
    v.eq('field loaded', s.A, shifted(v, to_time(v, g.A)))

@contract('C10', 'a propagation step is the composition of these parts', under=['SSFM.propagate'], fftw=(False, True), layout=True, samples=40, sym=False, bounded='sampled composition; one accepted pair of steps with local extrapolation')
def composition(v):
    np = v.np; n = v.even('n', s=(16, 48))
    p, g = new_pulse(v, n=n, Tw=n * v.pos('dT', s=(0.02, 0.1)))
    L = v.pos('L', s=(0.05, 0.3)); gamma = v.pos('gamma', s=(0.001, 0.05))
    beta = v.rarr('beta', n); gain = v.rarr('gain', n, s=(-0.3, 0.3))
    f = fiber(v, L, gamma, beta, gain)
    steep = v.choice('ss', [False, True]); kind = v.choice('kind', ['none', 'simple', 'lin-agrawal'])
    s = solver(v, dz=L, local_error=1e12, disable_Raman=kind == 'none', USE_SIMPLE_RAMAN=kind == 'simple', disable_self_steepening=not steep)
    meth = v.choice('method', ['RK4IP', 'SSFM']); s.method = getattr(type(s), 'METHOD_' + meth)
    z, AW, AT, q = s.propagate(p, f, 1)
    if kind == 'none': R = np.ones(n)
    else:
        RT = raman_time(v, g.T, 0.0122, 0.0320, kind == 'simple'); RT[:n // 2] = 0
        x = 0.18 if kind == 'simple' else 0.245
        R = shifted(v, (1 - x) + g.Tw * to_freq(v, x * RT / (g.dT * (RT.sum() - (RT[0] + RT[-1]) / 2))))
    N = lambda X: operator(v, X, R, gamma, TWO_PI * g.f0, shifted(v, g.V), steep)
    def step(A, h):
        E = lambda X, y: flow(v, X, beta, gain, y)
        if meth == 'SSFM':
            B = E(A, h); return np.exp(h * N(B)) * B
        rhs = lambda X: h * (N(X) * X)
        AI = E(A, h / 2); k1 = E(rhs(A), h / 2); k2 = rhs(AI + k1 / 2); k3 = rhs(AI + k2 / 2); k4 = rhs(E(AI + k3, h / 2))
        return E(AI + k1 / 6 + k2 / 3 + k3 / 3, h / 2) + k4 / 6
    A = shifted(v, to_time(v, g.A))
    fine = step(step(A, L / 2), L / 2); coarse = step(A, L)
    v.assume(bool(np.all(np.isfinite(coarse + fine))))
    v.eq('field after one pair of steps', shifted(v, q.AT), (16.0 * fine - coarse) / 15.0, tol=1e-6)

from . import C11
contract('C10', 'fibre in force during every output step', under=['SSFM.propagate', 'SSFM.load_fiber_parameters', 'SSFM.setup_fftw'], fftw=(False, True), samples=40)(C11.records)
