from vc.registry import contract, lemmas
from .common import *
from .dfg import *
lemmas('C17', 'ManleyRowe.lean', ['manley_rowe_signal', 'manley_rowe_idler', 'power_conserved', 'summand', 'grids'])

def pad(v, a, before, after):
    return v.np.concatenate((v.np.zeros((before,), dtype=complex), a, v.np.zeros((after,), dtype=complex)))
def conv_spec(v, n, a, b, m):
    """sum of a[j] b[r] over j + r = m + n/2"""
    A = pad(v, a, 0, n); B = pad(v, b, n + n, n)
    return v.np.sum(v.arr(2 * n, lambda j: A[j] * B[m + n // 2 - j + 2 * n], kind='c'))
def corr_spec(v, n, a, b, m):
    """sum of a[j] conj(b[r]) over j - r = m - n/2"""
    A = pad(v, a, n, 2 * n); B = pad(v, b, 0, n)
    return v.np.sum(v.arr(2 * n, lambda r: A[r + m - n // 2 + n] * v.np.conj(B[r]), kind='c'))

@contract('C17', 'convolution and correlation on the centred grids', under=['fftcomputer.__init__', 'fftcomputer.conv', 'fftcomputer.corr'], fftw=(False, True), samples=60)
def fft(v):
    m = v.load(DF); n = v.even('n', s=(2, 24)); f = m.fftcomputer(n)
    a = v.carr('a', n); b = v.carr('b', n); k = v.index('k', n)
    a0 = v.snapshot(a); b0 = v.snapshot(b)
    if v.choice('first', ['convolution', 'correlation']) == 'convolution': x = f.conv(a, b); y = f.corr(a, b)
    else: y = f.corr(a, b); x = f.conv(a, b)
    v.same_len('length of the convolution', x, n); v.same_len('length of the correlation', y, n)
    sc = None if v.symbolic else v.np.sum(v.np.abs(a0)) * v.np.max(v.np.abs(b0))
    v.eq('convolution', x[k], conv_spec(v, n, a0, b0, k), scale=sc); v.eq('correlation', y[k], corr_spec(v, n, a0, b0, k), scale=sc)
    v.eq('arguments kept', a, a0); v.eq('arguments kept (second)', b, b0)
I_ = ['dfg_problem.__init__']
def same_grid(v, name, p, f0, n, Tw):
    np = v.np
    v.eq(name + ': centre frequency', p.center_frequency_THz, f0); v.eq(name + ': grid', p.W_mks, v.arr(n, lambda k: TWO_PI * (f0 + (k - n // 2) / Tw) * 1e12))

@contract('C17', 'fields of the problem', under=I_, fftw=(False, True), samples=40)
def init(v):
    np = v.np; s = setup(v, gouy=False); n = s.n
    keep = [v.snapshot(p.AW) for p in (s.pump, s.sgnl)]
    P = s.build()
    for name, p, f0 in (('pump', P.pump, s.f[0]), ('signal', P.sgnl, s.f[1]), ('idler', P.idlr, s.f[2])): same_grid(v, name, p, f0, n, s.Tw)
    v.eq('pump field', P.pump.AW, s.gp.A); v.eq('signal field', P.sgnl.AW, s.gs.A)
    v.eq('start vector', P.ystart, np.concatenate((s.gp.A, s.gs.A, P.idlr.AW)))
    # the caller's pulses and crystal are left alone, also later
    zero = np.zeros((n,), dtype=complex)
    for p in (P.pump, P.sgnl): p.set_AW(zero)
    P.ystart[:] = 0.0
    same_grid(v, 'pump given', s.pump, s.f[0], n, s.Tw); same_grid(v, 'signal given', s.sgnl, s.f[1], n, s.Tw)
    v.eq('pump given: field', s.pump.AW, keep[0]); v.eq('signal given: field', s.sgnl.AW, keep[1])
    P.crystal.deff = 0.0; v.eq('crystal given', s.X.deff, s.deff)

@contract('C17', 'inconsistent fields are refused', under=I_, samples=80)
def refuse(v):
    m = v.load(DF); kind = v.choice('kind', ['pump and signal overlap', 'signal and idler overlap', 'lengths', 'time windows'])
    n = v.even('n', s=(4, 24)); Tw = v.pos('Tw', s=(0.5, 4.0)); n2 = n; Tw2 = Tw
    f1 = v.pos('fs', s=(150.0, 250.0)); df = v.pos('df', s=(50.0, 120.0))
    bw = n / Tw
    if kind == 'pump and signal overlap':
        if not v.symbolic: df = (bw - 1.001 / Tw) * v.any('x', s=(0.05, 1.0))
        v.assume(df < bw - 1.0 / Tw); v.assume(f1 > bw)
    elif kind == 'signal and idler overlap':
        if not v.symbolic: df = f1 - (bw - 1.001 / Tw) * v.any('x', s=(0.05, 1.0))
        v.assume(df > 0.0); v.assume(f1 - df < bw - 1.0 / Tw); v.assume(df > bw)
    else: v.assume(df > 2 * bw); v.assume(f1 - df > 2 * bw)
    if kind == 'lengths': n2 = n + 2 * v.int('more', 1, s=(1, 4)); v.assume(n2 <= 2 * n)
    if kind == 'time windows':
        r = v.pos('ratio', s=(1.001, 1.5)); v.assume(r > 1.00001); v.assume(r < 2.0); Tw2 = Tw * r
    pump, gp = new_pulse(v, 'p', n=n, wl=C_NMPS / (f1 + df), Tw=Tw); sgnl, gs = new_pulse(v, 's', n=n2, wl=C_NMPS / f1, Tw=Tw2)
    X = crystal(v, 'simple', v.pos('L'), v.pos('deff'))
    v.raises(kind, ValueError, lambda: m.dfg_problem(pump, sgnl, X, disable_SPM=True))

BEAMS = ('pump_beam', 'sgnl_beam', 'idlr_beam')
def gaussian(v, s, z, fac=(1.0, 1.0, 1.0)):
    """mode areas at z: all colours share the Rayleigh range of the pump's centre (times the square of a refocusing factor); the smallest beam defines the interaction area"""
    np = v.np; n = s.n; lam = s.lam; nn = s.nn
    zr = PI * s.w0 ** 2 * nn[0][n // 2] / lam[0][n // 2]
    w = [fac[i] * np.sqrt(lam[i] * zr / (PI * nn[i])) * np.sqrt(1.0 + ((z - s.L / 2.0) / (zr * fac[i] ** 2)) ** 2) for i in range(3)]
    mean = [np.mean(x) for x in w]
    if v.decided((mean[0] <= mean[1])) and v.decided(mean[0] <= mean[2]): i = 0
    elif v.decided(mean[1] <= mean[2]): i = 1
    else: i = 2
    return PI * w[i] ** 2, zr

class Sums:
    """contract of the convolutions (proved for the implementation above)"""
    _vc_ghost = True
    def __init__(self, v, n): self.v = v; self.n = n
    def conv(self, a, b):
        self.first = a
        return self.v.arr(self.n, lambda k: conv_spec(self.v, self.n, a, b, k), kind='c')
    def corr(self, a, b): return self.v.arr(self.n, lambda k: corr_spec(self.v, self.n, a, b, k), kind='c')

def rhs(v, modes, gouy=False):
    """dA/dz = 2i w d/(n c) E_other*E_other on the grid, fields carried with exp(ikz) and scaled to intensity"""
    np = v.np; s = setup(v, modes=modes, gouy=gouy); n = s.n; m = v.load(DF)
    sym = v.symbolic; keep = m.OneDBeam
    if sym: ghost_crystal(v, s)
    try:
        if sym and not s.wg: m.OneDBeam = ghost_beams(v, m, s)
        P = s.build()
    finally: m.OneDBeam = keep
    if sym and not s.wg: v.check('one beam per field', sorted(b.i for b in s.made) == [0, 1, 2])
    sign = 1
    if s.poled:
        P.crystal.mode = 'PP'; sign = v.choice('domain', [1, -1])
        def poling(x): v.eq('domain looked up at the position', x, s.z); return sign
        P.poling = poling
    s.z = z = v.real('z', s=(0.0, 1.0)) * s.L
    P.fftobject = Sums(v, n)
    Y = [v.carr('Y%d' % i, n) for i in range(3)]
    y = np.concatenate(Y); y0 = v.snapshot(y); d = np.zeros((3 * n,), dtype=complex)
    fac = [1.0, 1.0, 1.0]
    if not sym and not s.wg and v.past('refocused', 0.5) and all(hasattr(P, b) for b in BEAMS):
        P.deriv(z, y, d); d[:] = 0.0
        for i, b in enumerate(BEAMS): fac[i] = v.real('focus%d' % i, s=(0.2, 3.0)); b = getattr(P, b); b.set_w0(b.waist * fac[i])
    P.deriv(z, y, d)
    v.eq('state untouched', y, y0)
    W = [v.arr(n, lambda k, f=f: TWO_PI * (f + (k - n // 2) / s.Tw) * 1e12) for f in s.f]
    if not sym:
        s.lam = [TWO_PI * C_MKS / w for w in W]
        ax = ['mix', 'o', 'o'] if s.mode == 'BPM' else [None] * 3
        s.nn = [s.X.n(l * 1e9, a) for l, a in zip(s.lam, ax)]
        s.K = [w * x / C_MKS for w, x in zip(W, s.nn)]
    nn = s.nn; gv = None
    if s.wg: area = s.A * 1e-12
    elif sym:
        mean = [np.mean(x) for x in s.w]
        i = 0 if v.decided(mean[0] <= mean[1]) and v.decided(mean[0] <= mean[2]) else 1 if v.decided(mean[1] <= mean[2]) else 2
        area = PI * s.w[i] ** 2; gv = s.g
    else:
        area, zr = gaussian(v, s, z, fac); gv = [np.arctan2(z - s.L / 2.0, zr * x ** 2) for x in fac]
    a = [1.0 / np.sqrt(area * x * EPS0 * C_MKS) for x in nn]
    ph = [np.exp(1j * k * z) for k in s.K]
    if s.gouy and not s.wg: ph = [p * np.exp(1j * g) for p, g in zip(ph, gv)]
    E = [a[i] * Y[i] * ph[i] for i in range(3)]
    S = Sums(v, n)
    k = v.index('k', n)
    # the sum does not depend on the order of the two factors: the order of the call is used
    swap = sym and getattr(P.fftobject, 'first', None) is not None and not v._eq(np.abs(P.fftobject.first[k]), np.abs(E[1][k]))
    src = [S.conv(E[2], E[1]) if swap else S.conv(E[1], E[2]), S.corr(E[0], E[2]), S.corr(E[0], E[1])]
    for i, name in enumerate(('pump', 'signal', 'idler')):
        want = 2j * W[i] * sign * s.deff / (C_MKS * nn[i] * a[i]) * np.conj(ph[i]) * src[i]
        v.eq(name, d[i * n + k], want[k], tol=1e-8)

for _n, _m, _g in (('waveguide', ('wg', 'wg, poled'), False), ('focused beams', ('BPM', 'simple'), False), ('focused beams with Gouy phase', ('BPM', 'simple'), True)):
    contract('C17', 'right-hand side: ' + _n, under=['dfg_problem.deriv', 'dfg_problem.__init__', 'dfg_problem.Ap', 'dfg_problem.As', 'dfg_problem.Ai', 'OneDBeam_highV_WG._rtP_to_a', 'OneDBeam_highV_WG.rtP_to_a'], samples=30)(lambda v, m=_m, g=_g: rhs(v, m, g))

@contract('C17', 'photon numbers and power', under=['dfg_problem.deriv', 'fftcomputer.conv', 'fftcomputer.corr'], fftw=(False, True), sym=False, samples=40,
          bounded='corollary of the right-hand side (proved; Manley-Rowe lemmas in Lean) re-evaluated on sampled fields, grids of 4 to 24 points')
def manley_rowe(v):
    np = v.np; s = setup(v, modes=('wg', 'wg, poled')); n = s.n; P = s.build()
    if s.poled:
        P.crystal.mode = 'PP'; sign = v.choice('domain', [1, -1]); P.poling = lambda x: sign
    y = np.concatenate([v.carr('Y%d' % i, n) for i in range(3)]); d = np.zeros((3 * n,), dtype=complex)
    P.deriv(v.real('z', s=(0.0, 1.0)) * s.L, y, d)
    dP = 2 * np.real(np.conj(y) * d)
    W = np.concatenate([p.W_mks for p in (P.pump, P.sgnl, P.idlr)])
    N = [np.sum((dP / W)[i * n:(i + 1) * n]) for i in range(3)]; scale = np.sum(np.abs(dP / W))
    v.le('signal photons gained are pump photons lost', abs(N[0] + N[1]) / scale, 1e-10); v.le('idler photons gained are pump photons lost', abs(N[0] + N[2]) / scale, 1e-10)
    v.le('total power', abs(np.sum(dP)) / np.sum(np.abs(dP)), 1e-10); v.true('something happens', scale > 0)
