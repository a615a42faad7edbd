from vc.registry import contract
from .common import *
CT = ['SechPulse.__init__', 'GaussianPulse.__init__', 'SincPulse.__init__']

def params(v):
    n = v.even('n', s=(16, 256)); wl = wl_in(v); Tw = tw_in(v); v.assume(Tw > 1.0); v.assume(wl > 1.0)
    P = v.pos('P', s=(0.01, 100.0)); T0 = v.pos('T0', s=(0.05, 0.6)); fr = v.pos('frep', s=(1.0, 1000.0))
    if v.symbolic: v.assume(fr <= 1.0e6)
    return n, wl, Tw, P, T0, fr

def profile(v, which, t, P, T0):
    np = v.np
    if which == 'SechPulse': return np.sqrt(P) / np.cosh(t / T0)
    if which == 'GaussianPulse': return np.sqrt(P) * np.exp(-0.5 * 2.77 * (t / T0) ** 2)
    x = t / (T0 / 3.7909885)
    return np.sqrt(P) * np.sinc(x / v.pi)
SHAPES = ['SechPulse', 'GaussianPulse', 'SincPulse']

@contract('C04', 'peak-power pulses have the documented envelope on the requested grid', under=CT, samples=60)
def envelope(v):
    M = v.load('pynlo.light.DerivedPulses')
    n, wl, Tw, P, T0, fr = params(v)
    which = v.choice('shape', SHAPES)
    p = getattr(M, which)(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n)
    g = GridSpec(v, C_NMPS / wl, n, Tw)
    v.eq('envelope', p.AT, profile(v, which, g.T, P, T0))
    v.eq('repetition rate', p.frep_MHz, fr)
    check_grid(v, p, g)

@contract('C04', 'peak power sits at time zero', under=CT, samples=30)
def peak(v):
    M = v.load('pynlo.light.DerivedPulses')
    n, wl, Tw, P, T0, fr = params(v)
    which = v.choice('shape', SHAPES)
    p = getattr(M, which)(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n)
    v.eq('power at t=0', abs2(v, p.AT)[n // 2], P)
    v.eq('t=0 is the centre sample', p.T_ps[n // 2], 0.0, scale=1.0)

@contract('C04', 'chirped pulses: spectral phase first, then temporal phase, on the same envelope', under=CT + ['Pulse.chirp_pulse_W', 'Pulse.chirp_pulse_T'], samples=60)
def chirped(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n, wl, Tw, P, T0, fr = params(v)
    which = v.choice('shape', SHAPES)
    GDD = v.real('GDD', s=(-0.02, 0.02)); TOD = v.real('TOD', s=(-0.002, 0.002)); c2 = v.real('c2', s=(-2.0, 2.0)); c3 = v.real('c3', s=(-0.5, 0.5))
    p = getattr(M, which)(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n, GDD=GDD, TOD=TOD, chirp2=c2, chirp3=c3)
    g = GridSpec(v, C_NMPS / wl, n, Tw)
    Te = T0 / 3.7909885 if which == 'SincPulse' else T0
    A = to_freq(v, profile(v, which, g.T, P, T0) + 0j) * np.exp(1j * (GDD / 2.0 * g.V ** 2 + TOD / 6.0 * g.V ** 3))
    x = g.T / Te
    v.eq('field', p.AT, to_time(v, A) * np.exp(-1j * (c2 / 2.0 * x ** 2 + c3 / 3.0 * x ** 3)))

@contract('C04', 'average-power pulses: same shape, peak scaled', under=CT + ['Pulse.calc_epp'], samples=40)
def average(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n, wl, Tw, P, T0, fr = params(v)
    which = v.choice('shape', SHAPES)
    p = getattr(M, which)(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n, power_is_avg=True)
    g = GridSpec(v, C_NMPS / wl, n, Tw)
    s = profile(v, which, g.T, 1.0, T0)
    q = getattr(M, which)(1.0, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n)
    v.eq('unit-peak pulse', q.AT, s)
    E1 = q.calc_epp()         # the trapezoid energy of the unit-peak envelope (contract of calc_epp: C03)
    v.eq('envelope', p.AT, s * np.sqrt(P / (fr * 1e6 * E1)), tol=1e-7)

@contract('C04', 'wavelengths and windows given in the wrong unit are refused', under=CT + ['CWPulse.__init__', 'FROGPulse.__init__'], samples=20)
def units(v):
    M = v.load('pynlo.light.DerivedPulses')
    wl = v.pos('wl', s=(0.1, 0.9)); v.assume(wl <= 1.0)
    Tw = v.pos('Tw', s=(0.1, 0.9)); v.assume(Tw <= 1.0)
    n = v.even('n', s=(16, 32)); good = wl_in(v, 'good'); v.assume(good > 1.0); tw = tw_in(v, 'tw'); v.assume(tw > 1.0)
    for which in SHAPES:
        v.raises(which + ' wavelength', (AssertionError,), lambda: getattr(M, which)(1.0, 0.1, wl, time_window_ps=tw, NPTS=n))
        v.raises(which + ' window', (AssertionError,), lambda: getattr(M, which)(1.0, 0.1, good, time_window_ps=Tw, NPTS=n))
    v.raises('CW wavelength', (AssertionError,), lambda: M.CWPulse(1.0, wl, time_window_ps=tw, NPTS=n))
    v.raises('CW window', (AssertionError,), lambda: M.CWPulse(1.0, good, time_window_ps=Tw, NPTS=n))

@contract('C04', 'constructors share nothing between pulses', under=CT, samples=20)
def independent(v):
    M = v.load('pynlo.light.DerivedPulses')
    n, wl, Tw, P, T0, fr = params(v)
    a = M.SechPulse(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n)
    fa = a.AT
    n2 = v.even('n2', s=(16, 64)); wl2 = wl_in(v, 'wl2'); v.assume(wl2 > 1.0)
    b = M.GaussianPulse(P, T0, wl2, time_window_ps=Tw, frep_MHz=fr, NPTS=n2)
    b.set_AW(0.0); b.set_frep_MHz(v.pos('fr2'))
    v.eq('field', a.AT, fa); v.eq('grid', a.W_THz, GridSpec(v, C_NMPS / wl, n, Tw).W); v.eq('repetition rate', a.frep_MHz, fr)

@contract('C04', 'measured pulses: spectrum from file at the nodes, requested energy', under=['FROGPulse.__init__', 'Pulse.write_frog', 'Pulse.set_AT', 'Pulse.calc_epp'], samples=30)
def frog(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    p, g = new_pulse(v)
    v.assume(g.Tw > 1.0); v.assume(g.wl0 > 1.0); v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)
    E0 = p.calc_epp(); v.assume(E0 > 0)
    flip = v.choice('flip', [True, False])
    f = v.scratch('pulse.dat')
    p.write_frog(fileloc=f, flip_phase=flip)
    v.eq('field kept', p.AW, g.A)
    avg = v.choice('avg', [True, False])
    P = v.pos('P', s=(1e-3, 1.0), log=True)
    q = M.FROGPulse(g.Tw, g.wl0, P, frep_MHz=g.frep, NPTS=g.n, power_is_avg=avg, fileloc=f, flip_phase=flip)
    E = P / (g.frep * 1e6) if avg else P
    v.eq('energy', q.calc_epp(), E, tol=1e-6)
    v.eq('spectrum is reproduced up to its energy', q.AW, g.A * np.sqrt(E / E0), tol=1e-6)
    check_grid(v, q, g)

@contract('C04', 'measured pulses: between the rows of the file amplitude and phase are interpolated linearly in wavelength', under=['FROGPulse.__init__'], samples=40, sym=False,
          bounded='sampled files of 3 to 60 rows in either order of wavelength')
def frog_between(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    wl = v.pos('wl', s=(700.0, 2500.0)); n = v.even('n', s=(8, 128)); Tw = v.pos('Tw', s=(2.0, 20.0)); fr = v.pos('frep', s=(10.0, 1000.0))
    g = GridSpec(v, C_NMPS / wl, n, Tw); v.assume(C_NMPS / wl - 1.0 * (n // 2) / Tw > 50.0)
    r = np.random.RandomState(v.int('seed', 0, s=(0, 10 ** 6)))
    lo, hi = float(np.min(g.wl)), float(np.max(g.wl)); m = v.int('rows', 3, s=(3, 60)); d = hi - lo
    a, b = (lo - 0.1 * d, hi + 0.1 * d) if v.choice('covers the grid', [True, False]) else (lo + 0.2 * d, hi - 0.3 * d)
    x = np.sort(np.concatenate(([a, b], r.uniform(a, b, m - 2)))); y = r.uniform(0.2, 1.0, m); ph = r.uniform(-3.0, 3.0, m)
    f = v.scratch('measured.dat'); o = slice(None, None, -1) if v.choice('descending', [True, False]) else slice(None)
    np.savetxt(f, np.vstack((x[o], y[o], ph[o])).T)
    flip = v.choice('flip', [True, False]); P = v.pos('P', s=(1e-3, 1.0), log=True)
    q = M.FROGPulse(Tw, wl, P, frep_MHz=fr, NPTS=n, power_is_avg=True, fileloc=f, flip_phase=flip)
    A = np.interp(g.wl, x, y, left=0.0, right=0.0) * np.exp((-1j if flip else 1j) * np.interp(g.wl, x, ph))
    B = q.AW; k = int(np.argmax(np.abs(A))); s = abs(B[k]) / abs(A[k])
    v.eq('spectrum between the rows', B, A * s, tol=1e-5)
    v.eq('energy', q.calc_epp(), P / (fr * 1e6), tol=1e-6)

from . import C03
contract('C04', 'continuous wave: one line of the requested power', under=['CWPulse.__init__'], samples=30)(C03.cw)
contract('C04', 'continuous wave off the grid centre', under=['CWPulse.__init__'], samples=40)(C03.cw_offset)

@contract('C04', 'noise pulses: documented grid, negligible magnitude, random phase', under=['NoisePulse.__init__'], samples=30)
def noise_pulse(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n = v.even('n', s=(8, 256)); wl = wl_in(v); Tw = tw_in(v); fr = v.pos('frep', s=(1.0, 1000.0))
    rep = v.choice('repetition rate', [True, False])
    if not v.symbolic: np.random.seed(v.int('seed', 0, s=(0, 10 ** 6)))
    make = lambda: M.NoisePulse(wl, time_window_ps=Tw, NPTS=n, frep_MHz=fr) if rep else M.NoisePulse(wl, Tw, n)
    p = make(); g = GridSpec(v, C_NMPS / wl, n, Tw)
    check_grid(v, p, g)
    if rep: v.eq('repetition rate', p.frep_MHz, fr); v.eq('repetition rate in Hz', p.frep_mks, fr * 1e6)
    else: v.eq('default repetition rate', p.frep_MHz, 100.0)
    A = p.AW
    v.eq('magnitude of every line', np.abs(A) * 1e30, v.arr(n, lambda k: 1.0))
    if not v.symbolic:
        ph = np.angle(A); B = make().AW
        v.check('the phases are random', float(np.std(ph)) > 0.3 and float(np.max(np.abs(A - B))) > 1e-31)
