from vc.registry import contract
from .common import *
F = ['Pulse.__init__', 'Pulse.set_NPTS', 'Pulse.set_center_wavelength_nm', 'Pulse.set_center_wavelength_m', 'Pulse.set_time_window_ps',
     'Pulse.set_time_window_s', 'Pulse.set_frequency_window_THz', 'Pulse.set_frequency_window_mks', 'Pulse.set_frep_MHz']

@contract('C01', 'grid of a freshly configured pulse', under=F + ['Pulse.' + r for r, _ in READS])
def fresh(v):
    p, g = new_pulse(v, field=False)
    check_grid(v, p, g)
    v.eq('frep_MHz', p.frep_MHz, g.frep)
    v.eq('frep_mks', p.frep_mks, g.frep * 1e6)

def _set(v, p, g, which, tag):
    """apply one setter with an arbitrary argument; returns the new grid specification"""
    f0, n, Tw = g.f0, g.n, g.Tw
    if which == 'wl_nm': w = v.near(C_NMPS / f0, wl_in(v, 'wl' + tag)); p.set_center_wavelength_nm(w); f0 = C_NMPS / w
    elif which == 'wl_m': w = v.near(C_NMPS / f0, wl_in(v, 'wl' + tag)); p.set_center_wavelength_m(w * 1e-9); f0 = C_NMPS / w
    elif which == 'npts': n = v.even('n' + tag); p.set_NPTS(n)
    elif which == 'tw_ps': Tw = v.near(Tw, tw_in(v, 'Tw' + tag)); p.set_time_window_ps(Tw)
    elif which == 'tw_s': Tw = v.near(Tw, tw_in(v, 'Tw' + tag)); p.set_time_window_s(Tw * 1e-12)
    elif which == 'df_THz': d = v.near(n / Tw, v.pos('DF' + tag, s=(3.0, 20.0))); p.set_frequency_window_THz(d); Tw = n / d
    elif which == 'df_mks': d = v.near(n / Tw, v.pos('DF' + tag, s=(3.0, 20.0))); p.set_frequency_window_mks(d * 1e12); Tw = n / d
    elif which == 'npts at the same step': n = v.even('n' + tag); Tw = Tw * n / g.n; p.set_NPTS(n); p.set_time_window_ps(Tw)
    elif which == 'npts at the same width': n = v.even('n' + tag); d = g.n / Tw; p.set_NPTS(n); p.set_frequency_window_THz(d); Tw = n / d
    elif which == 'frep': p.set_frep_MHz(v.pos('fr' + tag, s=(1.0, 100.0)))
    return GridSpec(v, f0, n, Tw)
SETTERS = ['wl_nm', 'wl_m', 'npts', 'tw_ps', 'tw_s', 'df_THz', 'df_mks', 'frep', 'npts at the same step', 'npts at the same width']

@contract('C01', 'one setter step from any reachable state (caches filled for any earlier grid)', under=F, samples=60)
def step(v):
    # arbitrary reachable state: caches filled at grid g0, then every parameter moved to g1 without reading
    p, g0 = new_pulse(v, '0', field=False)
    read_all(p)
    if v.choice('moved', [True, False]):
        g = _set(v, p, g0, 'wl_nm', '1'); g = _set(v, p, g, 'npts', '1'); g = _set(v, p, g, 'tw_ps', '1')
        if v.choice('read', [True, False]): read_all(p)
    else: g = g0
    g = _set(v, p, g, v.choice('setter', SETTERS), '2')
    check_grid(v, p, g, 'after: ')

@contract('C01', 'every property equals its value recomputed from the current grid alone (history independence)', under=F, samples=60)
def history(v):
    p, g = new_pulse(v, '0', field=False)
    read_all(p)
    for j in range(2):
        g = _set(v, p, g, v.choice('s%d' % j, SETTERS), '_%d' % j)
        if v.choice('r%d' % j, [True, False]): read_all(p)
    check_grid(v, p, g, 'after: ')

@contract('C01', 'returned grids are private copies', under=['Pulse.' + a for a in ARRAYS])
def copies(v):
    p, g = new_pulse(v)
    for nm in ARRAYS:
        x = getattr(p, nm)
        x[:] = 0.0
    check_grid(v, p, g, 'after callers overwrote returned arrays: ')
    v.eq('field', p.AW, g.A)

@contract('C01', 'grid changes leave the field samples alone', under=F)
def frame(v):
    p, g = new_pulse(v)
    _set(v, p, g, v.choice('setter', ['wl_nm', 'wl_m', 'tw_ps', 'tw_s', 'df_THz', 'df_mks', 'frep']), '2')
    v.eq('AW', p.AW, g.A)

@contract('C01', 'instances do not share grids', under=['Pulse.__init__'])
def instances(v):
    p, g = new_pulse(v, 'a')
    q, h = new_pulse(v, 'b')
    read_all(p); read_all(q)
    check_grid(v, p, g, 'first: '); check_grid(v, q, h, 'second: ')
    v.eq('first field', p.AW, g.A); v.eq('second field', q.AW, h.A)

@contract('C01', 'every kind of pulse has the grid it was asked for, and follows later changes', under=['SechPulse.__init__', 'GaussianPulse.__init__', 'SincPulse.__init__', 'CWPulse.__init__', 'NoisePulse.__init__', 'FROGPulse.__init__'], samples=40)
def kinds(v):
    M = v.load('pynlo.light.DerivedPulses'); np = v.np
    n = v.even('n', s=(8, 128)); wl = wl_in(v); Tw = tw_in(v); v.assume(Tw > 1.0); v.assume(wl > 1.0)
    fr = v.pos('frep', s=(1.0, 1000.0)); P = v.pos('P'); T0 = v.pos('T0', s=(0.05, 0.6)); avg = v.choice('average power', [True, False])
    if v.symbolic: v.assume(fr <= 1.0e6)
    which = v.choice('kind', ['SechPulse', 'GaussianPulse', 'SincPulse', 'CWPulse', 'NoisePulse', 'FROGPulse'])
    if which == 'CWPulse': p = M.CWPulse(P, wl, time_window_ps=Tw, NPTS=n)
    elif which == 'NoisePulse': p = M.NoisePulse(wl, time_window_ps=Tw, NPTS=n, frep_MHz=fr)
    elif which == 'FROGPulse':
        g = GridSpec(v, C_NMPS / wl, n, Tw)
        if not v.symbolic: v.assume(float(np.min(g.W)) > 0)
        fn = v.text_file('frog.dat', v.array([[300.0 + 400.0 * i, 1.0 + 0.1 * i, 0.2 * i] for i in range(9)]))
        p = M.FROGPulse(Tw, wl, P, frep_MHz=fr, NPTS=n, power_is_avg=avg, fileloc=fn)
    else: p = getattr(M, which)(P, T0, wl, time_window_ps=Tw, frep_MHz=fr, NPTS=n, power_is_avg=avg)
    g = GridSpec(v, C_NMPS / wl, n, Tw)
    check_grid(v, p, g)
    if which != 'CWPulse': v.eq('repetition rate', p.frep_MHz, fr)
    g = _set(v, p, g, v.choice('setter', ['wl_nm', 'npts', 'tw_s', 'df_THz']), '2')
    check_grid(v, p, g, 'after a change: ')
