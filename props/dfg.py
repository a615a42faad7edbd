"""three-wave mixing problems: arbitrary crystals, beams through their contracts"""
DF = 'pynlo.interactions.ThreeWaveMixing.DFG_integrand'
import numpy as _rnp
from .common import *

def crystal(v, mode, length, deff, qpm=None):
    """any crystal: the refractive index is an arbitrary positive function of wavelength and axis"""
    C = v.load('pynlo.media.crystals.CrystalContainer').Crystal
    N = {a: v.fun('index %s' % a, pos=True, s=400.0) for a in (None, 'o', 'mix')}
    class X(C):
        _vc_ghost = True
        def n(self, wl, axis=None):
            f = N[axis]
            if not v.symbolic: return 1.2 + f(wl)
            return v.arr(wl.shape[0], lambda k: f(wl[k])) if v.is_array(wl) else f(wl)
    x = X({'length': length})
    x.mode = mode; x.deff = deff
    if qpm is not None: x.pp = qpm
    return x

class Setup: pass
def setup(v, modes=('simple', 'BPM', 'wg'), gouy=True, gap=True):
    np = v.np; s = Setup(); m = v.load(DF)
    s.n = n = v.even('n', s=(4, 24)); s.Tw = Tw = v.pos('Tw', s=(2.0, 4.0))
    fs = v.pos('fs', s=(187.0, 230.0)); fi = v.pos('fi', s=(60.0, 120.0)); wls = C_NMPS / fs; wlp = C_NMPS / (fs + fi)
    s.pump, s.gp = new_pulse(v, 'p', n=n, wl=wlp, Tw=Tw); s.sgnl, s.gs = new_pulse(v, 's', n=n, wl=wls, Tw=Tw)
    s.f = [fs + fi, fs, fi]
    if gap:
        v.assume(fs - fi > n / Tw); v.assume(fi > n / Tw)
    s.mode = mode = v.choice('mode', list(modes)); s.wg = mode.startswith('wg'); s.poled = 'poled' in mode
    s.L = v.pos('L', s=(1e-3, 1e-2)); s.deff = v.pos('deff', s=(0.5, 10.0)) * 1e-12
    s.X = crystal(v, 'simple' if s.wg else mode, s.L, s.deff)
    s.gouy = gouy
    s.w0 = v.pos('w0', s=(5.0, 50.0)) * 1e-6; s.A = v.pos('Aeff', s=(5.0, 50.0))
    s.build = lambda: m.dfg_problem(s.pump, s.sgnl, s.X, disable_SPM=True, apply_gouy_phase=s.gouy, **(dict(wg_mode=True, Aeff_squm=s.A) if s.wg else dict(pump_waist=s.w0)))
    return s

class Crys:
    """crystal used through its contract: arbitrary index and wavenumber for each field"""
    _vc_ghost = True
def ghost_crystal(v, s):
    np = v.np; n = s.n
    x = Crys(); x.mode = s.X.mode; x.deff = s.deff; x.length_mks = s.L; x.n2 = 0.0
    s.nn = [v.rarr('n%d' % i, n, pos=True) for i in range(3)]; s.K = [v.rarr('k%d' % i, n) for i in range(3)]
    ax = ['mix', 'o', 'o'] if s.mode == 'BPM' else [None] * 3
    def which(pulse, axis):
        i = next(i for i in range(3) if v._eq(pulse.center_frequency_THz, s.f[i]))
        v.check('polarisation of field %d' % i, axis == ax[i]); return i
    x.get_pulse_n = lambda pulse, axis=None: np.array(s.nn[which(pulse, axis)])
    x.get_pulse_k = lambda pulse, axis=None: np.array(s.K[which(pulse, axis)])
    s.X = x

def ghost_beams(v, m, s):
    """beams used through their contracts (property C20)"""
    np = v.np; n = s.n; s.w = [v.rarr('w%d' % i, n, pos=True) for i in range(3)]; s.g = [v.rarr('g%d' % i, n) for i in range(3)]
    s.made = []
    class Beam(m.OneDBeam):
        _vc_ghost = True
        def __init__(self, waist_meters=1.0, this_pulse=None, axis=None):
            self.i = next(i for i in range(3) if v._eq(this_pulse.center_frequency_THz, s.f[i])); self.axis = axis; self._w0 = waist_meters; self._lambda0 = this_pulse.wl_mks
            s.made.append(self)
        def mine(self, p, c): v.check('own pulse', v._eq(p.center_frequency_THz, s.f[self.i]))
        def set_waist_to_match_central_waist(self, p, w0, c): self.mine(p, c); v.check('pump sets the focus', self.i == 0); v.eq('pump waist', w0, s.w0)
        def set_waist_to_match_confocal(self, p, q, b, c): self.mine(p, c); v.check('focused like the pump', self.i > 0 and b.i == 0 and v._eq(q.center_frequency_THz, s.f[0]))
        def at(self, z, n_s): v.eq('distance to the focus in the middle', z, s.z - s.L / 2.0); v.eq('own index', n_s, s.nn[self.i])
        def calculate_waist(self, z, n_s=1.0): self.at(z, n_s); return np.array(s.w[self.i])
        def calculate_R(self, z, n_s=1.0): return v.rarr('R%d' % self.i, n)
        def calculate_gouy_phase(self, z, n_s): self.at(z, n_s); return np.exp(1j * s.g[self.i])
        def rtP_to_a_2(self, p, c, z=None, waist=None):
            self.mine(p, c)
            if waist is None: v.eq('distance to the focus in the middle', z, s.z - s.L / 2.0); waist = s.w[self.i]
            return 1.0 / np.sqrt(PI * waist ** 2 * s.nn[self.i] * EPS0 * C_MKS)
        def calc_overlap_integral(self, *a, **k): return v.rarr('overlap', n, pos=True)
    return Beam

