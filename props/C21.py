from vc.registry import contract
from .common import *
GC = 'pynlo.devices.grating_compressor'

class Geo: pass
def grating(v):
    m = v.load(GC); s = Geo(); s.lines = v.pos('lines', s=(200.0, 1400.0)); s.deg = v.real('incidence', s=(5.0, 60.0))
    s.T = m.TreacyCompressor(s.lines, s.deg); s.d = 1e-3 / s.lines; s.g = s.deg * TWO_PI / 360.0; s.G = v.real('separation', s=(-0.2, 0.2)); s.m = m
    return s
def sine(v, s, l):
    """sine of the diffraction angle for the wavelength l [m]"""
    return l / s.d - v.np.sin(s.g)
def allowed(v, s, l):
    """the wavelength is diffracted"""
    x = sine(v, s, l)
    v.assume(x < 1.0 if v.symbolic else x < 0.95); v.assume(x > -1.0 if v.symbolic else x > -0.95)
def wl_for(v, s, name='wl', lo=150.0, hi=4000.0, xm=0.93):
    if v.symbolic: wl = v.pos(name)
    else:
        u = v.real(name, s=(0.0, 1.0)); x = v.np.sin(s.g)
        lo, hi = max(lo, (x - xm) * s.d * 1e9), min(hi, (x + xm) * s.d * 1e9); v.assume(lo < hi); wl = lo + u * (hi - lo)
    allowed(v, s, wl * 1e-9); return wl
def spec_p(v, s, w):
    """path p = b (1 + cos theta), b = G / cos(gamma - theta), of the angular frequency w"""
    np = v.np; be = np.arcsin(sine(v, s, TWO_PI * C_MKS / w)); return s.G / np.cos(be) * (1.0 + np.cos(s.g - be))
def spec_gdd(v, s, w):
    """Treacy 1969, equation 5b, both passes"""
    x = sine(v, s, TWO_PI * C_MKS / w)
    return 2.0 * (-4.0 * PI ** 2 * C_MKS * s.G) / (w ** 3 * s.d ** 2 * (1.0 - x ** 2) * v.np.sqrt(1.0 - x ** 2))

@contract('C21', 'grating equation', under=['TreacyCompressor.__init__', 'TreacyCompressor.calc_theta'], samples=40)
def angle(v):
    np = v.np; s = grating(v)
    v.eq('groove spacing', s.T.d, s.d); v.eq('incidence', s.T.g, s.g)
    if v.choice('shape', ['scalar', 'array']) == 'scalar':
        wl = wl_for(v, s); th = s.T.calc_theta(wl)
        v.eq('diffracted and incident ray', np.sin(s.g - th) + np.sin(s.g), wl * 1e-9 / s.d)
        if not v.symbolic: v.true('principal angle', abs(s.g - th) <= PI / 2)
    else:
        wls = v.rarr('wls', v.int('m', 1, s=(1, 8)), pos=True, s=(200.0, 4000.0)); keep = v.snapshot(wls); th = s.T.calc_theta(wls, v.choice('display', [False, True]))
        x = wls * 1e-9 / s.d - np.sin(s.g)
        v.eq('diffracted ray, grazing where there is none', np.sin(s.g - th), np.where(x > 1.0, 1.0, np.where(x < -1.0, -1.0, x))); v.eq('query untouched', wls, keep)
        if not v.symbolic: v.true('principal angles', np.all(np.abs(s.g - th) <= PI / 2 + 1e-9))

@contract('C21', 'group delay and group delay dispersion', under=['TreacyCompressor.calc_dt_dw_singlepass', 'TreacyCompressor.calc_dphi_domega', 'TreacyCompressor.calc_compressor_gdd'], samples=40)
def gdd(v):
    np = v.np; s = grating(v); wl = wl_for(v, s); w = TWO_PI * C_MKS / (wl * 1e-9)
    v.eq('dispersion of one pass', s.T.calc_dt_dw_singlepass(wl, s.G), spec_gdd(v, s, w) / 2.0, tol=1e-7); v.eq('dispersion', s.T.calc_compressor_gdd(wl, s.G), spec_gdd(v, s, w), tol=1e-7)
    v.eq('group delay', s.T.calc_dphi_domega(w, s.G), spec_p(v, s, w) / C_MKS, tol=1e-7)
    # the dispersion is the derivative of the group delay
    v.eq('dispersion is the derivative of the group delay', v.deriv(lambda x: s.T.calc_dphi_domega(x, s.G), w, 1) if v.symbolic else v.deriv(lambda x: s.T.calc_dphi_domega(x, s.G), w, 1, rel=0.002), s.T.calc_dt_dw_singlepass(wl, s.G), tol=1e-4)

@contract('C21', 'group delay and dispersion for many colours', under=['TreacyCompressor.calc_dt_dw_singlepass', 'TreacyCompressor.calc_dphi_domega', 'TreacyCompressor.calc_compressor_gdd'], samples=30)
def many(v):
    np = v.np; s = grating(v)
    if v.symbolic:
        n = v.int('m', 1); wls = v.rarr('wls', n, pos=True); j = v.index('j', n); allowed(v, s, wls[j] * 1e-9)
    else: wls = np.array([wl_for(v, s, 'wl%d' % i) for i in range(4)]); j = slice(None)
    keep = v.snapshot(wls); ws = TWO_PI * C_MKS / (wls * 1e-9)
    v.eq('dispersion', s.T.calc_compressor_gdd(wls, s.G)[j], spec_gdd(v, s, ws[j]), tol=1e-7)
    v.eq('group delay', s.T.calc_dphi_domega(ws, s.G)[j], spec_p(v, s, ws[j]) / C_MKS, tol=1e-7)
    v.eq('query untouched', wls, keep)

@contract('C21', 'higher orders of dispersion', under=['TreacyCompressor.calc_compressor_HOD'], samples=40)
def orders(v):
    s = grating(v); wl = wl_for(v, s, lo=300.0, xm=0.8); w = TWO_PI * C_MKS / (wl * 1e-9)
    o = v.choice('order', [3, 4, 5, 6] if not v.symbolic else [3, 4, 5])
    ref = v.deriv(lambda x: spec_gdd(v, s, x), w, o - 2) if v.symbolic else treacy_deriv(v, s, w, o - 2)
    v.eq('derivative of the dispersion', s.T.calc_compressor_HOD(wl, s.G, o), ref, tol={3: 1e-5, 4: 1e-5, 5: 2e-3, 6: 2e-3}[o])
    v.raises('orders of delay and dispersion are elsewhere', ValueError, lambda: s.T.calc_compressor_HOD(wl, s.G, v.choice('low', [0, 1, 2])))

def treacy_deriv(v, s, w, n, f=None):
    """n-th derivative by Cauchy's formula on a circle in the complex frequency plane"""
    np = v.np; N = 64; r = 0.01 * w; z = np.exp(2j * np.pi * np.arange(N) / N); f = f or (lambda x: spec_gdd(v, s, x))
    return float((math.factorial(n) * np.mean(f(w + r * z) / z ** n) / r ** n).real)
import math

@contract('C21', 'dispersion from the sampled group delay', under=['TreacyCompressor.calc_compressor_dnphi_domega_n'], samples=40)
def sampled(v):
    np = v.np; s = grating(v); o = v.choice('order', [1, 2, 3])
    if not v.symbolic and v.past('known group delay', 0.4):
        # a group delay whose derivatives are resolved by the samples at every order
        wl = wl_for(v, s); w = TWO_PI * C_MKS / (wl * 1e-9); o = v.choice('any order', [1, 2, 3, 4, 5, 6]); a = v.rarr('a', 8); calls = []
        keep = s.T.calc_dphi_domega
        s.T.calc_dphi_domega = lambda x, G, verbose=False: (calls.append(1), 1e-12 * sum(a[k] * ((x - w) / 1e12) ** k for k in range(8)))[1]
        try: r = s.T.calc_compressor_dnphi_domega_n(wl, s.G, o)
        finally: s.T.calc_dphi_domega = keep
        if calls: v.eq('derivative of a known group delay', r, 1e-12 * math.factorial(o) * a[o] * 10.0 ** (15 * (1 + o) - 12 * o), tol=1e-6, scale=math.factorial(o) * 10.0 ** (3 + 3 * o))
        return
    if v.symbolic:
        wl = v.pos('wl'); w = TWO_PI * C_MKS / (wl * 1e-9); S = v.real('derivative'); dw = 0.2e12; calls = []
        phi = v.fun('group delay')
        s.T.calc_dphi_domega = lambda x, G, verbose=False: (v.eq('separation', G, s.G), v.arr(x.shape[0], lambda k: phi(x[k])))[1]
        def savgol(y, window_length, polyorder, deriv=0, delta=1.0, **k):
            calls.append(1); v.check('order of the derivative', deriv == o); v.check('polynomial resolves it', polyorder > o and window_length > polyorder and window_length % 2 == 1)
            v.eq('samples of the group delay', y, v.arr(101, lambda k: phi(w - 10e12 + k * dw)))
            return v.arr(101, lambda k: S * (dw / delta) ** o)
        keep = s.m.signal; s.m.signal = only(savgol_filter=savgol)
        try: r = s.T.calc_compressor_dnphi_domega_n(wl, s.G, o)
        finally: s.m.signal = keep
        v.check('one filter', len(calls) == 1); v.eq('derivative of the phase in fs^(order + 1)', r, S * 10.0 ** (15 * (1 + o)))
    else:
        wl = wl_for(v, s, lo=600.0, hi=2500.0, xm=0.8); w = TWO_PI * C_MKS / (wl * 1e-9)
        # rounding noise of the group delay grows with the order
        v.eq('derivative of the phase in fs^(order + 1)', s.T.calc_compressor_dnphi_domega_n(wl, s.G, o), treacy_deriv(v, s, w, o - 1) / 2.0 * 10.0 ** (15 * (1 + o)), tol={1: 1e-6, 2: 2e-3, 3: 0.1}[o])
    v.raises('no order below 1', ValueError, lambda: s.T.calc_compressor_dnphi_domega_n(wl, s.G, 0))

def closed_phase(v, s, w):
    """primitive of the group delay of one pass: w p / c - (2 pi G / d) tan(beta)"""
    np = v.np; be = np.arcsin(sine(v, s, TWO_PI * C_MKS / w))
    return w * spec_p(v, s, w) / C_MKS - TWO_PI * s.G / s.d * np.tan(be)

@contract('C21', 'the integrated group delay is the phase', under=['lemma'], samples=20)
def primitive(v):
    s = grating(v); wl = wl_for(v, s); w = TWO_PI * C_MKS / (wl * 1e-9)
    if v.symbolic: v.eq('primitive', v.deriv(lambda x: closed_phase(v, s, x), w, 1), spec_p(v, s, w) / C_MKS)
    else: v.eq('primitive', v.deriv(lambda x: closed_phase(v, s, x), w, 1, rel=0.002), spec_p(v, s, w) / C_MKS, tol=1e-5, scale=abs(s.G) / C_MKS * 10)

@contract('C21', 'applied to a pulse it changes only the phase', under=['TreacyCompressor.apply_phase_to_pulse'], samples=30)
def pulse(v):
    np = v.np; s = grating(v)
    if v.symbolic: p, g = new_pulse(v)
    else:
        wl = wl_for(v, s, lo=400.0, hi=3000.0, xm=0.8); n = v.even('n', s=(4, 16)); Tw = v.pos('Tw', s=(1.0, 4.0))
        p, g = new_pulse(v, n=n, wl=wl, Tw=Tw)
        w = g.W * 1e12; v.assume(w.min() > 0.0); x = sine(v, s, TWO_PI * C_MKS / w); v.assume(abs(x).max() < 0.97)
        s.G = s.G * 0.1
    A = v.snapshot(p.AW); W = g.W * 1e12; w0 = TWO_PI * g.f0 * 1e12
    if v.symbolic:
        # the group delay through its contract (above): a function of frequency and separation
        delay = v.fun('group delay'); s.T.calc_dphi_domega = lambda x, G, verbose=False: delay(x, G)
    s.T.apply_phase_to_pulse(s.G, p)
    v.eq('spectral power', np.abs(p.AW) ** 2, np.abs(A) ** 2)
    check_grid(v, p, g)
    v.eq('repetition rate', p.frep_MHz, g.frep)
    if v.symbolic:
        ph = v.arr(g.n, lambda k: v.integral(lambda x: 2.0 * delay(x, s.G), w0, W[k]))
        # (the code adds a term linear in the detuning, (2 a) V, from the parabola fitted to the phase; its size is far below one radian)
        a = np.polyfit(W, ph, 2)[0]
        v.eq('phase is the integrated group delay', p.AW, A * np.exp(1j * (ph + 2.0 * a * g.V * 1e12)))
    else:
        ph = 2.0 * (closed_phase(v, s, W) - closed_phase(v, s, w0))
        v.eq('phase is the integrated group delay', p.AW, A * np.exp(1j * ph), tol=1e-4)
        s.T.apply_phase_to_pulse(-s.G, p); v.eq('undone by the opposite separation', p.AW, A, tol=1e-4)
