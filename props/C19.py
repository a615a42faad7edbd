from vc.registry import contract
from .common import *
CC = 'pynlo.media.crystals.CrystalContainer'
PL = 'pynlo.media.crystals.XTAL_PPLN'
SE = 'pynlo.media.crystals.XTAL_AgGaSe2'
SU = 'pynlo.media.crystals.XTAL_AgGaS'

# ---- published Sellmeier equations, restated
def deng(v, um, T):
    """Deng et al., Opt. Comm. 268, 110 (2006)"""
    f = (T - 24.5) * (T + 570.82)
    return v.np.sqrt(5.39121 + 4.96827e-7 * f + (0.100473 + 3.862e-8 * f) / (um ** 2 - (0.20692 - 0.89e-8 * f) ** 2)
                     + (100.0 + 2.657e-5 * f) / (um ** 2 - 11.34927 ** 2) - (1.544e-2 + 9.62119e-10 * f) * um ** 2)
def gayer(v, um, T):
    """Gayer et al., Appl. Phys. B 91, 343 (2008), 5 % MgO congruent, extraordinary"""
    f = (T - 24.5) * (T + 570.82)
    return v.np.sqrt(5.756 + 2.860e-6 * f + (0.0983 + 4.700e-8 * f) / (um ** 2 - (0.2020 + 6.113e-8 * f) ** 2)
                     + (189.32 + 1.516e-4 * f) / (um ** 2 - 12.52 ** 2) - 1.32e-2 * um ** 2)
def selenide(v, um, axis):
    """AgGaSe2, Roberts (1996) form"""
    P = v.np.power
    if axis == 'o': return v.np.sqrt(6.849065 + 0.417863 / (P(um, 1.970203) - 0.178080) + 0.000442 / (P(um, 0.340086) - 0.889242) + 1.209374 / (1.0 - 915.345 / P(um, 1.921292)))
    return v.np.sqrt(6.675232 + 0.436579 / (P(um, 1.893694) - 0.229775) + 0.012063 / (P(um, 4.269152) - 0.213957) + 3.252722 / (1.0 - 3129.32 / P(um, 2.047204)))
def sulphide(v, um, axis):
    """AgGaS2, Roberts (1996) form"""
    P = v.np.power
    if axis == 'o': return v.np.sqrt(5.814100 + 0.0867547 / (P(um, 3.156983) - 0.0356502) + 0.0821721 / (P(um, 4.430430) + 0.315646) + 0.506566 / (P(um, 6.604280) + 6.582197) + 176380.0 / (1.0 - 112586195.0 / P(um, 2.225043)))
    return v.np.sqrt(5.530050 + 0.0510941 / (P(um, 2.359877) - 0.141109) + 0.195314 / (P(um, 2.566664) + 0.0910735) + 4253.78 / (1.0 - 4304924.0 / P(um, 2.383834)))
def mixed(v, no, ne, th): return 1.0 / v.np.sqrt(v.np.sin(th) ** 2 / ne ** 2 + v.np.cos(th) ** 2 / no ** 2)

def wavelengths(v, lo=600.0, hi=4000.0):
    """one wavelength or an array of them [nm]"""
    if v.choice('shape', ['scalar', 'array']) == 'scalar': return v.pos('wl', s=(lo, hi))
    return v.rarr('wls', v.int('m', 1, s=(1, 6)), pos=True, s=(lo, hi))

@contract('C19', 'lithium niobate follows the cited equations at the set temperature', under=['DengSellmeier.n', 'Gayer5PctSellmeier.n', 'DengSellmeier.set_T_degC', 'Gayer5PctSellmeier.set_T_degC', 'PPLN.load', 'PPLN.set_T', 'PPLN.__init__', 'Crystal.__init__'], samples=30)
def niobate(v):
    m = v.load(PL); T0 = v.real('T0', s=(20.0, 200.0)); T1 = v.near(T0, v.real('T1', s=(20.0, 200.0))); T2 = v.real('T2', s=(20.0, 200.0)); wl = wavelengths(v)
    um = wl * 1e-3; keep = v.snapshot(wl)
    X = m.PPLN(T0); Y = m.PPLN(T2, length=0.02)
    v.eq('default is Gayer', X.n(wl), gayer(v, um, T0))
    X.set_T(T1); v.eq('after a change of temperature', X.n(wl), gayer(v, um, T1)); v.eq('temperature', X.T, T1)
    v.eq('axis is ignored', X.n(wl, 'e'), gayer(v, um, T1))
    X.load(T2, 'Deng'); v.eq('Deng', X.n(wl), deng(v, um, T2))
    X.set_T(T0); v.eq('Deng after a change of temperature', X.n(wl), deng(v, um, T0))
    X.set_xtalT(T1); v.eq('Deng after setting the crystal temperature', X.n(wl), deng(v, um, T1)); v.eq('crystal temperature', X.T, T1)
    v.eq('another crystal is not affected', Y.n(wl), gayer(v, um, T2)); v.eq('length', Y.length_mks, 0.02); v.eq('length in nm', Y.length_nm, 0.02e9); v.eq('default length', X.length_mks, 1.0)
    v.eq('query untouched', wl, keep)
    D = m.DengSellmeier(T1); v.eq('calculator', D.n(wl), deng(v, um, T1)); v.eq('nonlinearity', X.deff, 14.9e-12); v.eq('nonlinear index', X.n2, 3e-19)
    v.eq('damage threshold', X.damage_threshold_mks, 4.0e13)
    C = v.load(CC).Crystal({}); v.eq('damage threshold of other crystals', C.damage_threshold_mks, 1.0e13)

@contract('C19', 'silver gallium crystals follow their equations along each axis', under=['AgGaSe2.n', 'AgGaSe2.set_theta', 'AgGaSe2.__init__ (both)'], samples=30)
def silver(v):
    which = v.choice('crystal', ['AgGaSe2', 'AgGaS2']); f = selenide if which == 'AgGaSe2' else sulphide
    m = v.load(SE if which == 'AgGaSe2' else SU)
    th0 = v.real('theta0', s=(0.0, 1.5)); th1 = v.real('theta1', s=(0.0, 1.5)); wl = wavelengths(v, 1000.0, 10000.0); um = wl * 1e-3; keep = v.snapshot(wl)
    X = m.AgGaSe2(th0); Y = m.AgGaSe2(th1)
    no, ne = f(v, um, 'o'), f(v, um, 'e')
    v.eq('ordinary', X.n(wl, 'o'), no); v.eq('extraordinary', X.n(wl, 'e'), ne); v.eq('mixed', X.n(wl, 'mix'), mixed(v, no, ne, th0)); v.eq('default axis', X.n(wl), mixed(v, no, ne, th0))
    X.set_theta(th1); v.eq('after turning the crystal', X.n(wl, 'mix'), mixed(v, no, ne, th1)); v.eq('ordinary after turning', X.n(wl, 'o'), no)
    X.set_theta(th0); v.eq('other crystal', Y.n(wl, 'mix'), mixed(v, no, ne, th1))
    v.raises('unknown axis', ValueError, lambda: X.n(wl, 'x'))
    v.eq('query untouched', wl, keep)
    v.eq('nonlinearity', X.deff, 28.5e-12 if which == 'AgGaSe2' else 8.69e-12); v.eq('nonlinear index', X.n2, 35e-19 if which == 'AgGaSe2' else 0.0)

def any_crystal(v, s=400.0):
    """a crystal whose index is an arbitrary smooth positive function of wavelength and axis"""
    C = v.load(CC).Crystal
    N = {a: v.fun('index %s' % a, pos=True, s=s) for a in (None, 'o')}
    idx = {a: (lambda wl, a=a: N[a](wl) + (0.0 if v.symbolic else 1.2)) for a in N}
    class X(C):
        _vc_ghost = True
        def n(self, wl, axis=None):
            if v.symbolic and v.is_array(wl): return v.arr(wl.shape[0], lambda k: idx[axis](wl[k]))
            return idx[axis](wl)
    L = v.pos('L', s=(1e-3, 2e-2))
    return X({'length': L}), idx, L

def vg_of(v, f, wl):
    """group velocity [nm/ps] from the index f"""
    return C_NMPS / (f(wl) - wl * v.deriv(f, wl, 1))

@contract('C19', 'group velocity, delay and dispersion', under=['Crystal.calculate_group_velocity_nm_ps', 'Crystal.calculate_pulse_delay_ps', 'Crystal.calculate_D_ps_nm_km', 'Crystal.calculate_D_fs_um_mm', 'Crystal.calculate_mix_phasematching_bw'], samples=30)
def velocities(v):
    X, N, L = any_crystal(v); a = v.choice('axis', [None, 'o']); wl = wavelengths(v); keep = v.snapshot(wl)
    f = (lambda x: X.n(x, a))
    v.eq('group velocity', X.calculate_group_velocity_nm_ps(wl, a), vg_of(v, f, wl), tol=1e-8)
    D = -wl / C_NMPS * v.deriv(f, wl, 2) * 1e12
    v.eq('dispersion parameter', X.calculate_D_ps_nm_km(wl, a), D, tol=3e-4); v.eq('dispersion parameter in fs/um/mm', X.calculate_D_fs_um_mm(wl, a), D, tol=3e-4)
    w1 = v.pos('w1', s=(700.0, 3000.0)); w2 = v.pos('w2', s=(700.0, 3000.0)); Lc = v.pos('Lc', s=(1e-3, 1e-2))
    v1, v2 = vg_of(v, f, w1), vg_of(v, f, w2)
    sc = L * 1e9 / v1
    v.eq('delay after the crystal', X.calculate_pulse_delay_ps(w1, w2, axis=a), L * 1e9 * (1.0 / v1 - 1.0 / v2), tol=1e-7, scale=sc)
    v.eq('no delay over no length', X.calculate_pulse_delay_ps(w1, w2, 0.0, a), 0.0, scale=1.0)
    v.eq('delay after a given length', X.calculate_pulse_delay_ps(w1, w2, Lc, a), Lc * 1e9 * (1.0 / v1 - 1.0 / v2), tol=1e-7, scale=Lc * 1e9 / v1)
    v.eq('query untouched', wl, keep)

@contract('C19', 'phase matching bandwidth of mixing', under=['Crystal.calculate_mix_phasematching_bw'], samples=30)
def bandwidth(v):
    np = v.np; X, N, L = any_crystal(v); a = v.choice('axis', [None, 'o']); f = (lambda x: X.n(x, a))
    p = v.pos('pump', s=(800.0, 1100.0)); s = wavelengths(v, 1200.0, 2000.0)
    i = 1.0 / (1.0 / p - 1.0 / s)
    ip, is_, ii = 1.0 / (vg_of(v, f, p) * 1e3), 1.0 / (vg_of(v, f, s) * 1e3), 1.0 / (vg_of(v, f, i) * 1e3)
    r = X.calculate_mix_phasematching_bw(p, s, a)
    x, y = np.abs(0.886 * PI / (is_ - ip)) / C_MKS, np.abs(0.886 * PI / (ii - ip)) / C_MKS
    v.eq('smaller of the two bandwidths', r, np.minimum(x, y), tol=1e-5)

@contract('C19', 'wavenumbers on the grid of a pulse', under=['Crystal.get_pulse_k', 'Crystal.get_pulse_n'], samples=20)
def wavenumbers(v):
    X, N, L = any_crystal(v); a = v.choice('axis', [None, 'o']); p, g = new_pulse(v, field=False)
    if v.symbolic:
        j = v.index('j', g.n)
        v.assume((j - g.n // 2) / g.Tw + g.f0 > 0.0)
        k, n = X.get_pulse_k(p, a), X.get_pulse_n(p, a)
        v.same_len('points', k, g.n); v.same_len('points of n', n, g.n)
        v.eq('index', n[j], N[a](g.wl[j])); v.eq('wavenumber', k[j], TWO_PI * N[a](g.wl[j]) / (g.wl[j] * 1e-9))
    else:
        v.eq('index', X.get_pulse_n(p, a), N[a](g.wl)); v.eq('wavenumber', X.get_pulse_k(p, a), TWO_PI * N[a](g.wl) / (g.wl * 1e-9))

def pointwise(v, f, wl):
    if v.is_array(wl): return v.arr(wl.shape[0], lambda k: f(wl[k]))
    return f(wl)
def ghost(v, m, name, spec):
    """an index calculator known by its contract only"""
    class Calc(getattr(m, name)):
        _vc_ghost = True
        def n(self, wl_nm, axis=None): return pointwise(v, spec(self.T), wl_nm)
    setattr(m, name, Calc)

def check_pulse_n(v, tag, X, q, g, f, axis):
    r = X.get_pulse_n(q, *axis)
    v.same_len(tag + ': points', r, g.n)
    if v.symbolic:
        j = v.index('j' + tag, g.n); v.eq(tag, r[j], f(g.wl[j]))
    else: v.eq(tag, r, f(g.wl))
    r *= 0.0; r += 7.0          # the caller owns what it was given

@contract('C19', 'indices on a pulse grid do not depend on earlier queries', under=['Crystal.get_pulse_n', 'Crystal.set_caching', 'PPLN.set_T', 'PPLN.load'], samples=30)
def history(v):
    m = v.load(PL); T = [v.real('T%d' % i, s=(20.0, 200.0)) for i in range(3)]; T[1] = v.near(T[0], T[1])
    cache = v.choice('caching', ['constructor', 'set_caching', 'off'])
    ga = lambda T: (lambda wl: gayer(v, wl * 1e-3, T)); de = lambda T: (lambda wl: deng(v, wl * 1e-3, T))
    if v.symbolic:
        # the calculators through their contract (first scenario): functions of wavelength and temperature
        G, D = v.fun('gayer', pos=True), v.fun('deng', pos=True)
        ga = lambda T: (lambda wl: G(wl, T)); de = lambda T: (lambda wl: D(wl, T))
        ghost(v, m, 'Gayer5PctSellmeier', ga); ghost(v, m, 'DengSellmeier', de)
    X = m.PPLN(T[0], enable_caching=True) if cache == 'constructor' else m.PPLN(T[0]); Y = m.PPLN(T[2], enable_caching=True)
    if cache == 'set_caching': X.set_caching(True)
    p, g = new_pulse(v, 'a', field=False, wl=v.pos('wla', s=(1000.0, 2500.0)), Tw=v.pos('Twa', s=(5.0, 20.0)))
    check_pulse_n(v, 'first query', X, p, g, ga(T[0]), ()); check_pulse_n(v, 'same query', X, p, g, ga(T[0]), ()); check_pulse_n(v, 'another crystal', Y, p, g, ga(T[2]), ())
    check_pulse_n(v, 'with an axis', X, p, g, ga(T[0]), ('e',))
    X.set_T(T[1]); check_pulse_n(v, 'after a change of temperature', X, p, g, ga(T[1]), ())
    wl = v.near(g.wl0, v.pos('wlb', s=(1000.0, 2500.0))); p.set_center_wavelength_nm(wl); h = GridSpec(v, C_NMPS / wl, g.n, g.Tw)
    check_pulse_n(v, 'after the pulse has moved', X, p, h, ga(T[1]), ())
    X.load(T[2], 'Deng'); check_pulse_n(v, 'after loading other data', X, p, h, de(T[2]), ())
    X.set_caching(False); X.set_T(T[0]); check_pulse_n(v, 'caching off', X, p, h, de(T[0]), ())
    X.set_caching(True); check_pulse_n(v, 'caching on again', X, p, h, de(T[0]), ()); check_pulse_n(v, 'once more', X, p, h, de(T[0]), ())
    check_pulse_n(v, 'the other crystal, again', Y, p, h, ga(T[2]), ())
    v.raises('only on or off', AssertionError, lambda: X.set_caching('maybe'))

@contract('C19', 'indices of a turned crystal do not depend on earlier queries', under=['Crystal.get_pulse_n', 'AgGaSe2.set_theta'], samples=30)
def turned(v):
    which = v.choice('crystal', ['AgGaSe2', 'AgGaS2']); sell = selenide if which == 'AgGaSe2' else sulphide
    m = v.load(SE if which == 'AgGaSe2' else SU)
    th = [v.real('th%d' % i, s=(0.0, 1.5)) for i in range(2)]
    ax = lambda a, t: (lambda wl: sell(v, wl * 1e-3, a) if a in ('o', 'e') else mixed(v, sell(v, wl * 1e-3, 'o'), sell(v, wl * 1e-3, 'e'), t))
    K = m.AgGaSe2
    if v.symbolic:
        # the index through its contract (second scenario)
        F = {a: v.fun('n_' + a, pos=True) for a in 'oe'}; M = v.fun('n_mix', pos=True)
        ax = lambda a, t: (F[a] if a in F else (lambda wl: M(wl, t)))
        class K(m.AgGaSe2):
            _vc_ghost = True
            def n(self, wl_nm, axis='mix'): return pointwise(v, ax(axis, self.theta), wl_nm)
    X = K(th[0], enable_caching=True); Y = K(th[1], enable_caching=True)
    p, g = new_pulse(v, 'a', field=False, wl=v.pos('wla', s=(2000.0, 5000.0)), Tw=v.pos('Twa', s=(5.0, 20.0))); q, h = new_pulse(v, 'b', field=False, n=g.n, wl=v.near(g.wl0, v.pos('wlb', s=(2000.0, 5000.0))), Tw=g.Tw)
    if v.symbolic:
        # on grids of positive frequencies
        v.assume(g.f0 > g.n / g.Tw); v.assume(h.f0 > g.n / g.Tw)
    for a in ('o', 'mix', 'e', 'o'): check_pulse_n(v, 'axis ' + a, X, p, g, ax(a, th[0]), (a,))
    check_pulse_n(v, 'default axis', X, p, g, ax('mix', th[0]), ()); check_pulse_n(v, 'another pulse', X, q, h, ax('o', th[0]), ('o',))
    check_pulse_n(v, 'the first pulse again', X, p, g, ax('o', th[0]), ('o',)); check_pulse_n(v, 'another crystal', Y, p, g, ax('mix', th[1]), ('mix',))
    X.set_theta(th[1]); check_pulse_n(v, 'after turning', X, p, g, ax('mix', th[1]), ('mix',)); check_pulse_n(v, 'after turning, default axis', X, p, g, ax('mix', th[1]), ())
    X.set_theta(th[0]); check_pulse_n(v, 'turned back', X, p, g, ax('mix', th[0]), ('mix',))

class AnyCache(dict):
    """the remembered indices after an arbitrary history: whatever is found there is right (invariant); whatever is put there must be"""
    _vc_ghost = True
    def __init__(self, v, index): self.v = v; self.index = index; self.now = index; self.known = []; self.used = False; self.emptied = False
    def key(self, k):
        from vc.terms import Unsupported
        self.used = True
        if not (type(k) is tuple and len(k) == 2 and type(k[0]) is tuple and len(k[0]) == 3 and (k[1] is None or isinstance(k[1], str))): raise Unsupported('remembered under another key than the grid and the axis')
        return k
    def look(self, k):
        for e in self.known:
            if e[0][1] == k[1] and all(self.v._eq(a, b) for a, b in zip(e[0][0], k[0])): return e
        return None
    def right(self, k, f): g = GridSpec(self.v, *k[0]); return g, pointwise(self.v, f(k[1]), g.wl)
    def there(self, k):
        e = self.look(self.key(k))
        if e is None:
            has = not self.emptied and self.v.choice('remembered%d' % len(self.known), [True, False])
            e = [k, self.right(k, self.index)[1] if has else None]; self.known.append(e)
        return e
    def __contains__(self, k): return self.there(k)[1] is not None
    has_key = __contains__
    def __getitem__(self, k):
        r = self.there(k)[1]
        if r is None: raise KeyError(k)
        return r
    def get(self, k, d=None): r = self.there(k)[1]; return d if r is None else r
    def __setitem__(self, k, x):
        e = self.there(k); e[1] = x; self.inspect('what is remembered is right', e)
    def inspect(self, tag, e, f=None):
        if e[1] is None: return
        g, r = self.right(e[0], f or self.now); self.v.same_len(tag + ': points', e[1], g.n); j = self.v.index('jc%d' % len(self.known), g.n); self.v.eq(tag, e[1][j], r[j])
    def forget(self): self.known = []; self.emptied = True; self.used = True
    clear = forget
    def keys(self): return self
    def _vc_len(self): self.used = True; return self.v.int('entries', 0)
    def bad(self, *a, **k):
        from vc.terms import Unsupported
        raise Unsupported('use of the remembered indices without a contract')
    __iter__ = items = values = pop = popitem = update = setdefault = copy = __delitem__ = __len__ = bad
    def __bool__(self): self.used = True; return bool(self.v.int('entries', 0) > 0)
    def __eq__(self, o): return self is o
    __hash__ = None

@contract('C19', 'whatever was asked before, the indices are right', under=['Crystal.get_pulse_n', 'PPLN.set_T', 'PPLN.load', 'AgGaSe2.set_theta (both)', 'Crystal.set_caching'], samples=20)
def any_history(v):
    np = v.np; which = v.choice('crystal', ['PPLN', 'AgGaSe2', 'AgGaS2']); pp = which == 'PPLN'; m = v.load({'PPLN': PL, 'AgGaSe2': SE, 'AgGaS2': SU}[which]); rng = (20.0, 200.0) if pp else (0.0, 1.5)
    s0, s1 = v.real('s0', s=rng), v.real('s1', s=rng); K = m.PPLN if pp else m.AgGaSe2; axes = [None, 'o', 'e'] if pp else [None, 'mix', 'o', 'e']
    if v.symbolic:
        # the indices through their contracts (first scenarios), the remembered ones through the invariant
        F = {a: v.fun('n_' + a, pos=True) for a in ('o', 'e', 'mix', 'deng', 'gayer')}; data = ['gayer']
        if pp:
            ix = lambda src, s: (lambda axis: (lambda wl: F[src](wl, s)))
            ghost(v, m, 'Gayer5PctSellmeier', lambda T: ix('gayer', T)(None)); ghost(v, m, 'DengSellmeier', lambda T: ix('deng', T)(None))
        else:
            ix = lambda src, s: (lambda axis: (lambda wl: F['mix'](wl, s)) if axis in (None, 'mix') else F[axis])
            class K(K):
                _vc_ghost = True
                def n(self, wl_nm, axis='mix'): return pointwise(v, ix(None, self.theta)(axis), wl_nm)
        X = K(s0); X.set_caching(True); src = 'gayer'
        if not hasattr(X, '_cached_ns'):
            from vc.terms import Unsupported
            raise Unsupported('indices are remembered elsewhere')
        C = AnyCache(v, ix(src, s0)); X._cached_ns = C; s = s0
        p, g = new_pulse(v, 'a', field=False, wl=v.pos('wla'), Tw=v.pos('Twa')); a = v.choice('axis', axes)
        v.assume(g.f0 > g.n / g.Tw)
        what = v.choice('before', ['a query', 'new setting', 'other data', 'caching off and on'] if pp else ['a query', 'new setting', 'caching off and on'])
        if what == 'new setting': s = s1; C.now = ix(src, s); (X.set_T if pp else X.set_theta)(s)
        if what == 'other data': s = s1; src = 'deng'; C.now = ix(src, s); X.load(s, 'Deng')
        if what == 'caching off and on': X.set_caching(False); check_pulse_n(v, 'not remembered', X, p, g, ix(src, s)(a), () if a is None else (a,)); X.set_caching(True)
        args = () if a is None and v.choice('axis given', [False, True]) is False else (a,)
        if a is None and not pp: args = ()
        check_pulse_n(v, 'indices', X, p, g, ix(src, s)(a), args)
        if X._cached_ns is C:
            if not C.used:
                from vc.terms import Unsupported
                raise Unsupported('indices are remembered elsewhere')
            for e in C.known: C.inspect('what is remembered stays right', e)
        check_pulse_n(v, 'indices again', X, p, g, ix(src, s)(a), args)
        return
    # concretely: a long history over several grids, axes and settings against a crystal without memory
    X, Z = K(s0), K(s0); X.set_caching(True); put = (lambda C, s: C.set_T(s)) if pp else (lambda C, s: C.set_theta(s))
    lo, hi = (1000.0, 2500.0) if pp else (2000.0, 5000.0)
    G = [new_pulse(v, t, field=False, wl=v.pos('wl' + t, s=(lo, hi)), Tw=v.pos('Tw' + t, s=(5.0, 20.0)))[0] for t in 'abcd']
    for k in range(40):
        op = v.choice('op%d' % k, ['ask'] * 12 + ['set', 'load', 'caching'])
        if op == 'set': s = v.choice('to%d' % k, [s0, s1]); put(X, s); put(Z, s)
        elif op == 'load':
            if pp: d = v.choice('data%d' % k, ['Deng', 'Gayer_5pctMg']); X.load(s0, d); Z.load(s0, d)
        elif op == 'caching': X.set_caching(False); X.set_caching(True)
        else:
            p = G[v.choice('pulse%d' % k, [0, 1, 2, 3])]; a = v.choice('axis%d' % k, axes); args = () if a is None else (a,)
            r = X.get_pulse_n(p, *args); v.eq('query %d' % k, r, Z.n(p.wl_nm, *args)); r *= 0.0

@contract('C19', 'poling period from the phase mismatch', under=['PPLN.calculate_poling_period'], samples=40)
def period(v):
    m = v.load(PL); T = v.real('T', s=(20.0, 200.0)); L = v.choice('length', ['none', 'set']); Lm = v.pos('L', s=(1e-3, 2e-2))
    X = m.PPLN(T, length=None if L == 'none' else Lm)
    if v.symbolic:
        f = v.fun('index', pos=True); X.n = lambda wl, axis=None: f(wl)
    ws = v.pos('ws', s=(1200.0, 2900.0)); wi = v.pos('wi', s=(3200.0, 5000.0)); wl = [1.0 / (1.0 / ws + 1.0 / wi), ws, wi]
    miss = v.choice('missing', [None, 0, 1, 2]); q = list(wl)
    if miss is not None: q[miss] = None
    d = v.choice('offset', ['default', 'given']); dk = v.real('dk', s=(-5.0, 5.0)); kw = {} if d == 'default' else {'delta_k_L': dk}
    if d == 'default': dk = 3.2
    r = X.calculate_poling_period(*q, silent=v.choice('silent', [True, False]), **kw)
    if miss is not None:
        v.check('period and wavelength', type(r) is tuple and len(r) == 2); r, new = r; v.eq('missing wavelength from energy conservation', new, wl[miss])
    k = [TWO_PI * X.n(w) / (w * 1e-9) for w in wl]
    off = dk / Lm if L == 'set' else 0.0
    mism = k[0] - k[1] - k[2]
    v.eq('phase mismatch left over', mism - TWO_PI / r, off + 0.0 * mism, tol=1e-6, scale=mism)

@contract('C19', 'signal wavelength matched by a poling period', under=['Crystal.invert_dfg_qpm_to_signal_wl'], samples=12)
def invert(v):
    m = v.load(PL); X = m.PPLN(v.real('T', s=(20.0, 200.0)), length=v.pos('L', s=(1e-3, 2e-2))); pump = v.pos('pump', s=(1000.0, 1070.0)); per = v.pos('period', s=(26.0, 31.0)) * 1e-6
    top = v.pos('top', s=(1500.0, 2000.0)); dflt = v.choice('limit', ['default', 'given']) == 'default'
    if dflt: top = 2000.0
    kw = {} if dflt else {'max_signal_wl_nm': top}
    if v.symbolic:
        f = v.fun('period', pos=True)
        def cpp(pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, delta_k_L=3.2, silent=False):
            v.check('idler from energy conservation', idlr_wl_nm is None); v.eq('pump', pump_wl_nm, pump); return (f(sgnl_wl_nm) * 1e-6, v.any('idler'))
        X.calculate_poling_period = cpp
        v.assume(pump * 1.001 < top)
        r = X.invert_dfg_qpm_to_signal_wl(pump, per, **kw)
        from vc import shim
        v.eq('best match in the range', r, shim.sp_minimize_scalar(lambda w: (f(w) * 1e-6 - per) ** 2, bounds=[pump * 1.001, top]).x)
    else:
        r = X.invert_dfg_qpm_to_signal_wl(pump, per, **kw)
        v.true('within the range', (r >= pump * 1.001) & (r <= top))
        err = lambda w: abs(X.calculate_poling_period(pump, w, None, silent=True)[0] - per)
        # no better match next to it (bounded search finds a local optimum)
        e = err(r); near = [w for w in (r - 2.0, r - 0.5, r + 0.5, r + 2.0) if pump * 1.001 <= w <= top]
        v.true('best match nearby', all(err(w) >= e * (1 - 1e-6) - 1e-15 for w in near))

@contract('C19', 'phase matching angle', under=['AgGaSe2.phasematch (both)'], samples=60)
def angle(v):
    np = v.np; which = v.choice('crystal', ['AgGaSe2', 'AgGaS2']); m = v.load(SE if which == 'AgGaSe2' else SU)
    th0 = v.real('th0', s=(0.0, 1.5)); X = m.AgGaSe2(th0)
    lo, hi = (40.0, 90.0) if which == 'AgGaSe2' else (60.0, 140.0)
    ws = v.pos('ws', s=(C_NMPS / hi, C_NMPS / lo)); wi = v.pos('wi', s=(1.1 * C_NMPS / lo, C_NMPS / 25.0)); wl = [1.0 / (1.0 / ws + 1.0 / wi), ws, wi]
    no = ne = None
    if v.symbolic:
        fo, fe = v.fun('no', pos=True), v.fun('ne', pos=True)
        X.n = lambda w, axis='mix': {'o': fo, 'e': fe}[axis](w)
        no, ne, ns = fo(wl[0]), fe(wl[0]), (fo(wl[1]) / wl[1] + fo(wl[2]) / wl[2]) * wl[0]
        v.assume(no != ne)
    else:
        no, ne = X.n(wl[0], 'o'), X.n(wl[0], 'e'); ns = (X.n(wl[1], 'o') / wl[1] + X.n(wl[2], 'o') / wl[2]) * wl[0]
    miss = v.choice('missing', [None, 0, 1, 2]); q = list(wl); rw = v.choice('return_wavelength', [False, True])
    if miss is not None: q[miss] = None
    cos2 = (1.0 / ns ** 2 - 1.0 / ne ** 2) / (1.0 / no ** 2 - 1.0 / ne ** 2)
    try: r = X.phasematch(*q, return_wavelength=rw)
    except AttributeError:
        v.true('refused only if there is no angle', (cos2 < 1e-12) | (cos2 > 1.0 - 1e-12)); return
    if rw and miss is not None:
        v.check('angle and wavelength', type(r) is tuple and len(r) == 2); r, new = r; v.eq('missing wavelength from energy conservation', new, wl[miss])
    v.eq('matched', np.sin(r) ** 2 / ne ** 2 + np.cos(r) ** 2 / no ** 2, 1.0 / ns ** 2)
    if not v.symbolic:
        v.true('angle between the axes', (r >= 0.0) & (r <= PI / 2 + 1e-12))
        X.set_theta(r); v.eq('mixed index at the angle', X.n(wl[0], 'mix'), ns)
    else: v.eq('crystal not turned', X.theta, th0)

@contract('C19', 'derived quantities follow the current temperature and angle whatever was asked before', under=['Crystal.calculate_group_velocity_nm_ps', 'Crystal.calculate_pulse_delay_ps', 'Crystal.calculate_D_ps_nm_km', 'Crystal.calculate_mix_phasematching_bw', 'PPLN.calculate_poling_period', 'PPLN.set_T', 'AgGaSe2.set_theta'], samples=40)
def settings(v):
    np = v.np; which = v.choice('crystal', ['PPLN', 'AgGaSe2', 'AgGaS2']); pp = which == 'PPLN'
    m = v.load({'PPLN': PL, 'AgGaSe2': SE, 'AgGaS2': SU}[which]); sell = selenide if which == 'AgGaSe2' else sulphide
    rng = (20.0, 200.0) if pp else (0.0, 1.5)
    s0 = v.real('s0', s=rng); s1 = v.near(s0, v.real('s1', s=rng)); t0 = v.real('t0', s=rng)
    idx = (lambda w, t: gayer(v, w * 1e-3, t)) if pp else (lambda w, t: mixed(v, sell(v, w * 1e-3, 'o'), sell(v, w * 1e-3, 'e'), t))
    K = m.PPLN if pp else m.AgGaSe2
    if v.symbolic:
        # the index through its contract (first scenarios)
        idx = v.fun('index', pos=True)
        if pp: ghost(v, m, 'Gayer5PctSellmeier', lambda T: (lambda w: idx(w, T)))
        else:
            class K(K):
                _vc_ghost = True
                def n(self, wl_nm, axis=None): return pointwise(v, lambda w: idx(w, self.theta), wl_nm)
    cache = v.choice('caching', [False, True]) if not v.symbolic else True
    own = v.pos('L', s=(1e-3, 2e-2))
    X = K(s0, length=own, enable_caching=cache) if pp else K(s0, enable_caching=cache)
    Y = K(t0, enable_caching=True)
    put = (lambda C, s: C.set_T(s)) if pp else (lambda C, s: C.set_theta(s))
    lo, hi = (1000.0, 3000.0) if pp else (2000.0, 6000.0)
    w = v.pos('w', s=(lo, hi)); p = v.pos('p', s=(lo, 1.2 * lo)); q = v.pos('q', s=(1.5 * lo, 1.9 * lo)); i = 1.0 / (1.0 / p - 1.0 / q)
    ax = {} if pp else {'axis': 'mix'}
    def checks(tag, C, s):
        f = lambda x: idx(x, s)
        v.eq(tag + 'group velocity', C.calculate_group_velocity_nm_ps(w, **ax), vg_of(v, f, w), tol=3e-9)
        v.eq(tag + 'dispersion parameter', C.calculate_D_ps_nm_km(w, **ax), -w / C_NMPS * v.deriv(f, w, 2) * 1e12, tol=1e-3, scale=10.0)
        v1, v2, v3 = [vg_of(v, f, x) * 1e3 for x in (p, q, i)]
        v.eq(tag + 'delay', C.calculate_pulse_delay_ps(p, q, 1e-3, **ax), 1e9 * (1.0 / v1 - 1.0 / v2), tol=1e-7, scale=1e9 / v1)
        ll = own if pp and C is X else 1.0
        v.eq(tag + 'delay over the crystal', C.calculate_pulse_delay_ps(p, q, **ax), ll * 1e12 * (1.0 / v1 - 1.0 / v2), tol=1e-7, scale=ll * 1e12 / v1); v.eq(tag + 'length', C.length_mks, ll)
        x, y = np.abs(0.886 * PI / (1.0 / v2 - 1.0 / v1)) / C_MKS, np.abs(0.886 * PI / (1.0 / v3 - 1.0 / v1)) / C_MKS
        v.eq(tag + 'bandwidth', C.calculate_mix_phasematching_bw(p, q, **ax), np.minimum(x, y), tol=1e-4)
        if pp:
            mism = TWO_PI * 1e9 * (f(p) / p - f(q) / q - f(i) / i)
            v.eq(tag + 'poling period', TWO_PI / C.calculate_poling_period(p, q, i, delta_k_L=0.0), mism, tol=1e-6, scale=1e9 / p)
    checks('', X, s0); checks('other crystal: ', Y, t0)
    put(X, s1); checks('changed: ', X, s1)
    put(X, s0); checks('changed back: ', X, s0); checks('other crystal again: ', Y, t0)
