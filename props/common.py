"""Shared specification vocabulary for the contracts (works symbolically and concretely)."""
C_MKS = 299792458.0
C_NMPS = 299792458.0 * 1e9 / 1e12
TWO_PI = 2.0 * 3.141592653589793
PI = 3.141592653589793
EPS0 = 8.8541878128e-12

class GridSpec:
    """the grid a pulse with (f0, n, Tw) must expose"""
    def __init__(self, v, f0, n, Tw):
        self.v = v; self.f0 = f0; self.n = n; self.Tw = Tw
        self.T = v.arr(n, lambda k: -Tw / 2.0 + k * Tw / n)
        self.V = v.arr(n, lambda k: TWO_PI * (k - n // 2) / Tw)
        self.W = v.arr(n, lambda k: TWO_PI * (k - n // 2) / Tw + TWO_PI * f0)
        self.dT = Tw / n
        self.wl = v.arr(n, lambda k: C_NMPS / ((k - n // 2) / Tw + f0))

READS = [
    ('T_ps', lambda g: g.T), ('T_mks', lambda g: g.T * 1e-12),
    ('V_THz', lambda g: g.V), ('V_mks', lambda g: g.V * 1e12),
    ('W_THz', lambda g: g.W), ('W_mks', lambda g: g.W * 1e12),
    ('F_THz', lambda g: g.W / TWO_PI), ('F_mks', lambda g: g.W * 1e12 / TWO_PI),
    ('wl_nm', lambda g: g.wl), ('wl_mks', lambda g: g.wl * 1e-9),
    ('dT_ps', lambda g: g.dT), ('dT_mks', lambda g: g.dT * 1e-12),
    ('dF_THz', lambda g: 1.0 / g.Tw), ('dF_mks', lambda g: 1e12 / g.Tw),
    ('time_window_ps', lambda g: g.Tw), ('time_window_mks', lambda g: g.Tw * 1e-12),
    ('center_frequency_THz', lambda g: g.f0), ('center_frequency_mks', lambda g: g.f0 * 1e12),
    ('center_wavelength_nm', lambda g: C_NMPS / g.f0), ('center_wavelength_mks', lambda g: C_NMPS / g.f0 * 1e-9),
    ('NPTS', lambda g: g.n),
]
ARRAYS = ('T_ps', 'T_mks', 'V_THz', 'V_mks', 'W_THz', 'W_mks', 'F_THz', 'F_mks', 'wl_nm', 'wl_mks')

def read_all(p):
    return {nm: getattr(p, nm) for nm, _ in READS}

def check_grid(v, p, g, tag=''):
    for nm, spec in READS:
        v.eq(tag + nm, getattr(p, nm), spec(g))

def wl_in(v, name='wl'): return v.pos(name, s=(600.0, 2500.0))
def tw_in(v, name='Tw'): return v.pos(name, s=(1.5, 20.0))

def use_pulse(p):
    read_all(p); p.AT; p.calc_epp()
def earlier_pulse(v, P, tag=''):
    """a pulse that has been in use on another grid, with another field"""
    n = v.even('n0' + tag); p = P(frep_MHz=v.pos('frep0' + tag, s=(1.0, 1000.0)), n=n)
    p.set_center_wavelength_nm(wl_in(v, 'wl0' + tag)); p.set_time_window_ps(tw_in(v, 'Tw0' + tag)); p.set_AW(v.carr('A0' + tag, n))
    use_pulse(p)
    return p
def any_fibre(v, tag=''):
    """a fibre object, possibly one that has described another fibre before"""
    f = v.load('pynlo.media.fibers.fiber').FiberInstance()
    if v.past('fibre' + tag):
        p = earlier_pulse(v, v.load('pynlo.light.PulseBase').Pulse, 'f' + tag)
        f.generate_fiber(v.pos('L0' + tag), wl_in(v, 'wlf0' + tag), (v.real('b20' + tag, s=(-0.02, 0.02)), v.real('b30' + tag, s=(-1e-4, 1e-4))), v.real('g0' + tag), gain=1.5 if v.symbolic else v.choice('gain0' + tag, [0, 1.5]))
        f.get_betas(p); f.get_gain(p); f.get_gamma(0.1)
        kind = v.choice('kind0' + tag, ['uniform', 'GVD(z)', 'gamma(z)'])
        if kind == 'GVD(z)': f.set_dispersion_function(lambda z: (0.01 + z, 0.2), 'GVD')
        if kind == 'gamma(z)': f.set_gamma_function(lambda z: 1.0 + z)
        f.get_betas(p, z=0.3); f.get_gain(p); f.get_gamma(0.3)
    return f

def new_pulse(v, tag='', n=None, cls=None, frep=True, field=True, hmin=1, wl=None, Tw=None):
    """a pulse in an arbitrary state: grid (f0,n,Tw), repetition rate, arbitrary complex field"""
    P = v.load('pynlo.light.PulseBase').Pulse
    n = v.even('n' + tag, hmin=hmin) if n is None else n
    wl = wl_in(v, 'wl' + tag) if wl is None else wl
    Tw = tw_in(v, 'Tw' + tag) if Tw is None else Tw
    fr = v.pos('frep' + tag, s=(1.0, 1000.0))
    if v.symbolic: v.assume(fr <= 1.0e6)
    if field and v.past('pulse' + tag):
        p = earlier_pulse(v, P, tag)
        sets = [lambda: p.set_frep_MHz(fr), lambda: p.set_NPTS(n), lambda: p.set_center_wavelength_nm(wl), lambda: p.set_time_window_ps(Tw)]
        for i in ([0, 1, 2, 3] if v.symbolic else v.rng.permutation(4)):
            sets[i]()
            if not v.symbolic and v.rng.random_sample() < 0.3: use_pulse(p)
    else:
        p = P(frep_MHz=fr, n=n)
        p.set_center_wavelength_nm(wl)
        p.set_time_window_ps(Tw)
    A = None
    if field:
        A = v.carr('A' + tag, n)
        p.set_AW(A)
    g = GridSpec(v, C_NMPS / wl, n, Tw)
    g.frep = fr; g.wl0 = wl; g.A = A
    return p, g

# ---- independent statement of the documented transform pair (centred DFT)
def to_time(v, A):
    """field samples in time of the spectrum A:  a[k] = sum_j A[j] exp(-2 pi i (j-n/2)(k-n/2)/n)"""
    np = v.np
    if v.symbolic: return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(A)))
    A = np.asarray(A); n = len(A); k = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * np.outer(k, k) / n) @ A
def to_freq(v, B):
    """spectrum of the time samples B:  A[j] = (1/n) sum_k B[k] exp(+2 pi i (j-n/2)(k-n/2)/n)"""
    np = v.np
    if v.symbolic: return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(B)))
    B = np.asarray(B); n = len(B); k = np.arange(n) - n // 2
    return np.exp(2j * np.pi * np.outer(k, k) / n) @ B / n
def abs2(v, x): return v.np.abs(x) ** 2
def same_pulse(v, p, g, A, tag=''):
    check_grid(v, p, g, tag)
    v.eq(tag + 'field', p.AW, A)
GRID_MINI = ('W_mks', 'T_ps', 'wl_nm', 'NPTS', 'frep_MHz')
def same_grid(v, tag, p, q, names=('NPTS', 'time_window_ps', 'center_wavelength_nm', 'frep_MHz', 'W_mks', 'V_THz', 'T_ps', 'wl_nm')):
    for nm in names: v.eq(tag + nm, getattr(p, nm), getattr(q, nm))

def only(**f):
    """a library reduced to the contracts given"""
    from vc.terms import Unsupported
    class Lib:
        _vc_ghost = True
        def __getattr__(self, k): raise Unsupported('no contract for %s' % k)
    x = Lib()
    for k, g in f.items(): setattr(x, k, g)
    return x

def given(v, what, *pairs):
    """arguments of an external routine for which a contract is assumed: outside the contract nothing is known"""
    from vc.terms import Unsupported
    for a, b in pairs:
        if isinstance(b, (str, bool, int)) or b is None:
            if a != b: raise Unsupported('no contract for these arguments of ' + what)
        elif not v._eq(a, b): raise Unsupported('no contract for these arguments of ' + what)
