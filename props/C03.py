from vc.registry import contract
from .common import *
FE = ['Pulse.calc_epp', 'Pulse.set_epp']
CTOR = ['SechPulse.__init__', 'GaussianPulse.__init__', 'SincPulse.__init__']

def epp(v, p_dT_s, AT):
    """energy of the sampled envelope, trapezoid rule"""
    np = v.np
    I = abs2(v, AT)
    return p_dT_s * (np.sum(I) - (I[0] + I[-1]) / 2.0)

@contract('C03', 'energy per pulse is the time integral of the envelope', under=FE, samples=30, past='pulse')
def energy(v):
    p, g = new_pulse(v)
    keep = p.AW
    v.eq('energy', p.calc_epp(), epp(v, g.dT * 1e-12, to_time(v, g.A)))
    v.eq('field kept', p.AW, keep)

@contract('C03', 'setting the energy rescales the field and nothing else', under=FE, samples=30, past='pulse')
def set_energy(v):
    p, g = new_pulse(v)
    E0 = p.calc_epp()
    v.assume(E0 > 0)
    E = v.pos('E', s=(1e-12, 1e-8), log=True)
    p.set_epp(E)
    v.eq('energy is the requested one', p.calc_epp(), E)
    v.eq('shape kept: AW', p.AW, g.A * v.np.sqrt(E / E0))
    v.eq('grid kept', p.W_THz, g.W)
    E2 = v.pos('E2', s=(1e-12, 1e-8), log=True)
    p.set_epp(E2)
    v.eq('second request wins', p.calc_epp(), E2)

def _make(v, which, avg, **kw):
    M = v.load('pynlo.light.DerivedPulses')
    n = v.even('n', s=(16, 256)); wl = wl_in(v); Tw = tw_in(v); v.assume(Tw > 1.0); v.assume(wl > 1.0)
    P = v.pos('P', s=(0.01, 100.0)); T0 = v.pos('T0', s=(0.05, 0.6)); fr = v.pos('frep', s=(1.0, 1000.0)); 
    if v.symbolic: v.assume(fr <= 1.0e6)
    cls = getattr(M, which)
    p = cls(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n, power_is_avg=avg, **kw)
    return p, P, T0, fr, n, wl, Tw

@contract('C03', 'average-power pulses carry power/repetition rate', under=CTOR + FE, samples=40)
def avg_power(v):
    which = v.choice('shape', ['SechPulse', 'GaussianPulse', 'SincPulse'])
    p, P, T0, fr, n, wl, Tw = _make(v, which, True)
    v.eq('energy per pulse * repetition rate = average power', p.calc_epp() * fr * 1e6, P, tol=1e-7)
    v.eq('repetition rate', p.frep_mks, fr * 1e6)

@contract('C03', 'spectral chirp does not change the energy', under=CTOR + ['Pulse.chirp_pulse_W'], samples=20)
def avg_power_chirped(v):
    p, g = new_pulse(v)
    np = v.np
    GDD = v.real('GDD', s=(-0.01, 0.01)); TOD = v.real('TOD', s=(-0.001, 0.001)); FOD = v.real('FOD', s=(-1e-4, 1e-4))
    s0 = np.sum(abs2(v, p.AT))
    p.chirp_pulse_W(GDD, TOD, FOD)
    v.eq('sum |AT|^2 kept', np.sum(abs2(v, p.AT)), s0)

@contract('C03', 'continuous wave: power sits on one grid line', under=['CWPulse.__init__'], samples=30)
def cw(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n = v.even('n', s=(16, 128)); wl = wl_in(v); Tw = tw_in(v); v.assume(Tw > 1.0); v.assume(wl > 1.0)
    P = v.pos('P', s=(0.01, 100.0))
    p = M.CWPulse(P, wl, time_window_ps=Tw, NPTS=n)
    A = p.AW
    v.eq('total spectral power', np.sum(abs2(v, A)), P)
    v.eq('only the centre line is lit', abs2(v, A), v.arr(n, lambda k: _pick(v, k, n // 2, P)), tol=1e-7)
    v.eq('centre wavelength', p.center_wavelength_nm, wl)
    v.eq('grid', p.W_THz, GridSpec(v, C_NMPS / wl, n, Tw).W)
    v.eq('time-domain power is constant', abs2(v, p.AT), v.arr(n, lambda k: P))

def _pick(v, k, c, P):
    if v.symbolic: return v.np.where(v.np.equal(k, c), P, 0.0)
    return P if k == c else 0.0

@contract('C03', 'continuous wave off the grid centre', under=['CWPulse.__init__'], samples=30)
def cw_offset(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n = v.even('n', s=(16, 128)); wl = wl_in(v); Tw = tw_in(v); v.assume(Tw > 1.0); v.assume(wl > 1.0)
    P = v.pos('P', s=(0.01, 100.0))
    m = v.int('m', -3, s=(-3, 3)); v.assume(m <= 3); v.assume(n > 8)
    frac = v.real('frac', s=(-0.49, 0.49)) if v.choice('between lines', [False, True]) else 0.0
    v.assume(frac < 0.5); v.assume(frac > -0.5)
    req = (m + frac) / Tw; off = m / Tw             # the line nearest to the requested offset
    v.assume(C_NMPS / wl - off > 0)
    p = M.CWPulse(P, wl, time_window_ps=Tw, NPTS=n, offset_from_center_THz=req)
    A = p.AW
    v.eq('one line', abs2(v, A), v.arr(n, lambda k: _pick(v, k, n // 2 + m, P)))
    v.eq('grid is displaced so that the line is at the requested wavelength', p.center_frequency_THz + off, C_NMPS / wl)
    v.eq('line frequency', p.F_THz[n // 2 + m], C_NMPS / wl)
    v.eq('total spectral power', np.sum(abs2(v, A)), P)

@contract('C03', 'weighted average frequency and wavelength', under=['Pulse.calculate_weighted_avg_frequency_mks', 'Pulse.calculate_weighted_avg_wavelength_nm'], samples=20, past='pulse')
def weighted(v):
    p, g = new_pulse(v); np = v.np
    I = abs2(v, g.A)
    S = np.sum(I)
    v.assume(S > 0)
    fm = np.sum(I * g.W) * 1e12 / TWO_PI / S
    v.assume(fm > 0)
    v.eq('frequency', p.calculate_weighted_avg_frequency_mks(), fm)
    v.eq('wavelength', p.calculate_weighted_avg_wavelength_nm(), C_MKS * 1e9 / fm)
    v.eq('field kept', p.AW, g.A)
