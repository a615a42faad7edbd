from vc.registry import contract
from .common import *
F = ['Pulse.chirp_pulse_W', 'Pulse.apply_phase_W', 'Pulse.chirp_pulse_T', 'Pulse.add_time_offset', 'Pulse.dechirp_pulse', 'Pulse.remove_time_delay']

def disp(v, tag=''):
    return v.real('GDD' + tag, s=(-0.01, 0.01)), v.real('TOD' + tag, s=(-0.001, 0.001)), v.real('FOD' + tag, s=(-1e-4, 1e-4))

@contract('C05', 'spectral chirp multiplies the spectrum by the documented phase', under=F, samples=40, past='pulse')
def chirp(v):
    p, g = new_pulse(v); np = v.np
    G, T, Q = disp(v)
    how = v.choice('reference', ['centre', 'own', 'zero', 'TOD only', 'GDD only'])
    if how == 'centre': p.chirp_pulse_W(G, T, Q); x = g.V
    elif how == 'own':
        w0 = TWO_PI * v.pos('f0', s=(150.0, 400.0)); p.chirp_pulse_W(G, T, Q, w0_THz=w0); x = g.W - w0
    elif how == 'zero': G, T, Q = G * 1e-2, T * 1e-4, Q * 1e-6; p.chirp_pulse_W(G, T, Q, w0_THz=0.0); x = g.W
    elif how == 'TOD only': p.chirp_pulse_W(G, T); x = g.V; Q = 0.0
    else: p.chirp_pulse_W(G); x = g.V; Q = T = 0.0
    v.eq('spectrum', p.AW, g.A * np.exp(1j * (G / 2.0 * x ** 2 + T / 6.0 * x ** 3 + Q / 24.0 * x ** 4)))
    v.eq('power spectrum kept', abs2(v, p.AW), abs2(v, g.A))
    v.eq('grid kept', p.W_THz, g.W); v.eq('time grid kept', p.T_ps, g.T)

@contract('C05', 'spectral chirps compose additively and the opposite chirp undoes them', under=F, samples=30)
def chirp_compose(v):
    p, g = new_pulse(v); q, h = new_pulse(v, '', n=g.n, wl=g.wl0, Tw=g.Tw); q.set_AW(g.A)
    G1, T1, Q1 = disp(v, '1'); G2, T2, Q2 = disp(v, '2')
    p.chirp_pulse_W(G1, T1, Q1); p.chirp_pulse_W(G2, T2, Q2)
    q.chirp_pulse_W(G1 + G2, T1 + T2, Q1 + Q2)
    v.eq('composition', p.AW, q.AW)
    q.chirp_pulse_W(-(G1 + G2), -(T1 + T2), -(Q1 + Q2))
    v.eq('undone', q.AW, g.A)

@contract('C05', 'an arbitrary spectral phase', under=F, samples=30)
def phase(v):
    p, g = new_pulse(v); np = v.np
    ph = v.rarr('phase', g.n, s=(-3.0, 3.0)); k = v.snapshot(ph)
    p.apply_phase_W(ph)
    v.eq('spectrum', p.AW, g.A * np.exp(1j * k))
    v.eq('phase array kept', ph, k)
    v.eq('power spectrum kept', abs2(v, p.AW), abs2(v, g.A))
    p.apply_phase_W(-ph)
    v.eq('undone', p.AW, g.A)
    c = v.real('c', s=(-3.0, 3.0)); p.apply_phase_W(c)
    v.eq('constant phase', p.AW, g.A * np.exp(1j * c))

@contract('C05', 'temporal chirp keeps the temporal power', under=F, samples=30, past='pulse')
def chirp_t(v):
    p, g = new_pulse(v); np = v.np
    c2 = v.real('c2', s=(-3.0, 3.0)); c3 = v.real('c3', s=(-1.0, 1.0)); T0 = v.pos('T0', s=(0.1, 2.0))
    B = p.AT
    p.chirp_pulse_T(c2, c3, T0)
    x = g.T / T0
    v.eq('field', p.AT, B * np.exp(-1j * (c2 / 2.0 * x ** 2 + c3 / 3.0 * x ** 3)))
    v.eq('temporal power kept', abs2(v, p.AT), abs2(v, B))
    p.chirp_pulse_T(-c2, -c3, T0)
    v.eq('undone', p.AT, B)

@contract('C05', 'a time offset is a linear spectral phase', under=F, samples=30, past='pulse')
def offset(v):
    p, g = new_pulse(v); np = v.np
    d = v.real('d', s=(-1.0, 1.0)); e = v.real('e', s=(-1.0, 1.0))
    p.add_time_offset(d)
    v.eq('spectrum', p.AW, g.A * np.exp(-1j * g.W * d))
    v.eq('power spectrum kept', abs2(v, p.AW), abs2(v, g.A))
    v.eq('time grid kept', p.T_ps, g.T)
    p.add_time_offset(e)
    v.eq('offsets add', p.AW, g.A * np.exp(-1j * g.W * (d + e)))
    p.add_time_offset(-(d + e))
    v.eq('undone', p.AW, g.A)

@contract('C05', 'an offset by whole samples moves the envelope rigidly by that many samples', under=F, samples=30)
def offset_samples(v):
    p, g = new_pulse(v); np = v.np
    m = v.int('m', -50, s=(-8, 8)); v.assume(m <= 50)
    B = p.AT
    p.add_time_offset(m * g.dT)
    v.eq('temporal power displaced', abs2(v, p.AT), abs2(v, np.roll(B, -m)), tol=1e-7)

@contract('C05', 'removing chirp or delay only changes the spectral phase', under=F, samples=30)
def dechirp(v):
    p, g = new_pulse(v); np = v.np
    thr = v.pos('thr', s=(0.001, 0.1))
    which = v.choice('op', ['dechirp', 'delay'])
    if which == 'dechirp': p.dechirp_pulse(intensity_threshold=thr)
    else: p.remove_time_delay(intensity_threshold=thr)
    v.eq('power spectrum kept', abs2(v, p.AW), abs2(v, g.A))
    v.eq('grid kept', p.W_THz, g.W)

def _smooth(v, g):
    """a transform-limited spectrum with a smooth phase (sampled densely)"""
    np = v.np
    x = g.V / np.max(np.abs(g.V)) * 4.0
    return np.exp(-x ** 2 / 2.0)
def _weak(v, p, g, thr):
    """arbitrary phases where the spectrum is weaker than the threshold: they do not count"""
    np = v.np; weak = _smooth(v, g) ** 2 < 0.999 * thr
    if v.choice('weak', ['smooth', 'arbitrary']) == 'arbitrary': p.set_AW(p.AW * np.where(weak, np.exp(1j * v.rarr('noise', g.n, s=(-3.0, 3.0))), 1.0))
    return _smooth(v, g) ** 2 > max(1e-3, 1.001 * thr)

@contract('C05', 'removing the chirp cancels a quadratic spectral phase', under=F, samples=40)
def dechirp_exact(v):
    if v.symbolic:
        p, g = new_pulse(v); np = v.np; v.smooth_phase()
        A = v.rarr('S', g.n, pos=True); p.set_AW(A + 0j)
        if v.choice('chirp', ['about the centre', 'about any frequency']) == 'about the centre': p.chirp_pulse_W(v.real('gdd'))
        else: p.chirp_pulse_W(v.real('gdd'), w0_THz=v.pos('w0'))
        p.add_time_offset(v.real('delay')); p.apply_phase_W(v.real('phase'))
        p.dechirp_pulse(intensity_threshold=v.pos('thr'))
        v.eq('residual phase is flat', p.AW, A + 0j)
        return
    p, g = new_pulse(v, n=v.even('n', s=(64, 256))); np = v.np
    A = _smooth(v, g) + 0j
    vm = np.max(np.abs(g.V))
    p.set_AW(A)
    p.chirp_pulse_W(v.real('gdd', s=(-60.0, 60.0)) / vm ** 2)
    p.add_time_offset(v.real('delay', s=(-0.4, 0.4)) * g.Tw / 2.0)
    thr = v.pos('thr', s=(1e-4, 1e-1)); m = _weak(v, p, g, thr)
    p.dechirp_pulse(intensity_threshold=thr)
    ph = np.angle(p.AW[m])
    ref = ph[len(ph) // 2]
    v.eq('residual phase is flat', np.exp(1j * (ph - ref)), np.ones(len(ph)), tol=1e-5)

@contract('C05', 'removing the delay cancels a linear spectral phase and keeps the chirp', under=F, samples=40)
def delay_exact(v):
    if v.symbolic:
        p, g = new_pulse(v); np = v.np; v.smooth_phase()
        A = v.rarr('S', g.n, pos=True); p.set_AW(A + 0j)
        p.add_time_offset(v.real('delay')); p.apply_phase_W(v.real('phase'))
        p.remove_time_delay(intensity_threshold=v.pos('thr'))
        v.eq('residual phase is flat', p.AW, A + 0j)
        return
    p, g = new_pulse(v, n=v.even('n', s=(64, 256))); np = v.np
    A = _smooth(v, g) + 0j
    p.set_AW(A)
    p.add_time_offset(v.real('delay', s=(-0.4, 0.4)) * g.Tw / 2.0)
    thr = v.pos('thr', s=(1e-4, 1e-1)); B = to_time(v, A); shot = p.AW; m = _weak(v, p, g, thr); clean = bool(np.all(p.AW == shot))
    p.remove_time_delay(intensity_threshold=thr)
    ph = np.angle(p.AW[m]); ref = ph[len(ph) // 2]
    v.eq('residual phase is flat', np.exp(1j * (ph - ref)), np.ones(len(ph)), tol=1e-5)
    if clean: v.eq('envelope recovered', abs2(v, p.AT), abs2(v, B), tol=1e-6)
