"""Shared fixtures for the split-step contracts."""
from .common import *

def fiber(v, L, gamma, beta, gain):
    """a fibre with an arbitrary propagation constant and gain on the pulse grid"""
    f = v.load('pynlo.media.fibers.fiber').FiberInstance()
    f.generate_fiber(L, 1550.0, [0.0], gamma)
    f.get_betas = lambda pulse, z=0: beta.copy()
    f.get_gain = lambda pulse, output_power=1: gain.copy()
    return f

def solver(v, **kw):
    m = v.load('pynlo.interactions.FourWaveMixing.SSFM')
    kw.setdefault('disable_Raman', True); kw.setdefault('disable_self_steepening', True)
    s = m.SSFM(**kw)
    # working representation: fields shifted once (default) or at every transform
    pre = True
    if v.opts.get('layout') or not v.symbolic: pre = v.choice('PRE_FFTSHIFT', [True, False] if v.symbolic or v.opts.get('layout') else [True, True, True, False])
    v.put(v.load('pynlo.interactions.FourWaveMixing.global_variables'), 'PRE_FFTSHIFT', pre); v.centred = not pre
    if not v.symbolic and v.past('solver', 0.25):
        # the solver has propagated another pulse through another fibre
        p = earlier_pulse(v, v.load('pynlo.light.PulseBase').Pulse, 'sol'); p.set_AW(p.AW / max(abs(p.AT)))
        f = v.load('pynlo.media.fibers.fiber').FiberInstance(); f.generate_fiber(1e-3, p.center_wavelength_nm, (0.01,), 1.0, gain=0.3)
        dz, err, s.dz, s.local_error = s.dz, s.local_error, 1e-4, 1.0
        s.propagate(p, f, 2)
        s.dz, s.local_error = dz, err
    return s

def prepared(v, n, method=None, gamma=0.0, raman=False, **kw):
    """solver loaded with an arbitrary fibre and pulse, ready to step; returns (solver, pulse, grid, beta, gain)"""
    p, g = new_pulse(v, n=n)
    beta = v.rarr('beta', n, s=(-3.0, 3.0)); gain = v.rarr('gain', n, s=(-0.5, 0.5))
    f = fiber(v, v.pos('Lf'), gamma, beta, gain)
    s = solver(v, **kw)
    s.setup_fftw(p, f, 1.0); s.load_fiber_parameters(p, f, 1.0)
    if method is not None: s.method = method
    return s, p, g, beta, gain

# the solver works on shifted samples (transforms of numpy) or on centred ones (centred transforms), see PRE_FFTSHIFT
def shifted(v, a): return a * 1.0 if v.centred else v.np.fft.fftshift(a)
def unshifted(v, a): return a * 1.0 if v.centred else v.np.fft.ifftshift(a)
def spectrum(v, A): return to_freq(v, A) if v.centred else v.np.fft.ifft(A)
def field(v, B): return to_time(v, B) if v.centred else v.np.fft.fft(B)
def flow(v, A, beta, gain, h):
    """linear flow over h of a field given in the solver's (time-domain) representation"""
    np = v.np
    b = shifted(v, beta); g = shifted(v, gain)
    return field(v, np.exp(h * (1j * b + g / 2.0)) * spectrum(v, A))

def any_error(v):
    """an arbitrary local error in units of the tolerance (sampled so that the step size does not collapse)"""
    e = v.any('err', s=(0.0, 1.0), nonneg=True)
    if v.symbolic: return e
    return v.any('scale', s=(2.0, 4.0)) if e > 0.95 else v.any('scale', s=(1.0, 2.0)) if e > 0.85 else v.any('scale', s=(0.5, 1.0)) if e > 0.72 else v.any('scale', s=(0.0, 0.5))
