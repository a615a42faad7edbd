from vc.registry import contract
from .common import *
BM = 'pynlo.light.beam'
WG = 'pynlo.light.high_V_waveguide'

class Crys:
    """crystal through its contract (C19): an index and a wavenumber for every grid point, depending on the pulse and the axis"""
    _vc_ghost = True
def crystal_for(v, pulses):
    np = v.np; x = Crys(); x.length_mks = v.pos('crystal length', s=(1e-3, 2e-2)); x.asked = []
    tab = []
    for i, (p, g) in enumerate(pulses):
        for a in (None, 'o', 'mix'):
            n = v.rarr('n%d%s' % (i, a), g.n, pos=True, s=(1.3, 2.6)); tab.append((p, a, n, TWO_PI * n / (g.wl * 1e-9)))
    def look(p, a, j):
        for t in tab:
            if t[0] is p and t[1] == a: return t[j]
        v.check('asked for a pulse and axis of this problem', False, repr(a))
    x.get_pulse_n = lambda pulse, axis=None: np.array(look(pulse, axis, 2)); x.get_pulse_k = lambda pulse, axis=None: np.array(look(pulse, axis, 3))
    x.n_of = lambda i, a: look(pulses[i][0], a, 2); x.k_of = lambda i, a: look(pulses[i][0], a, 3)
    return x

def pos_pulse(v, tag, n=None):
    """a pulse whose grid has positive frequencies only (wavelengths of a beam)"""
    p, g = new_pulse(v, tag, n=n, field=False, Tw=v.pos('Tw' + tag, s=(4.0, 20.0)))
    if v.symbolic: v.assume(g.f0 > g.n / g.Tw)
    elif g.f0 <= g.n / g.Tw: v.assume(False)
    if v.symbolic:
        # wavelengths through the contract of the pulse (C01): positive numbers
        lam = v.rarr('lambda' + tag, g.n, pos=True); g.lam = lam
        class P:
            _vc_ghost = True
            wl_mks = lam; wl_nm = lam * 1e9; NPTS = g.n
        g.wl = lam * 1e9; return P(), g
    g.lam = g.wl * 1e-9
    return p, g

def waist(v, name, n):
    """one waist for all colours, or one for each"""
    if v.choice(name + ' kind', ['one', 'each']) == 'one': return v.pos(name, s=(5e-6, 1e-4))
    return v.rarr(name + 's', n, pos=True, s=(5e-6, 1e-4))

def z_in(v, name='z', n=None):
    """one place, or (n given) one for each colour"""
    if n is not None and v.choice(name + ' kind', ['one', 'each']) == 'each':
        z = v.rarr(name + 's', n, pos=True, s=(1e-5, 0.02))
        return -z if v.choice(name + ' side', ['behind', 'before']) == 'before' else z
    z = v.real(name, s=(-0.02, 0.02))
    v.assume(z != 0.0)
    return z

@contract('C20', 'geometry of a Gaussian beam', under=['OneDBeam.__init__', 'OneDBeam.set_w0', 'OneDBeam.calc_confocal', 'OneDBeam.calculate_waist', 'OneDBeam.calculate_zR', 'OneDBeam.calculate_R', 'OneDBeam.calculate_gouy_phase'], samples=40)
def geometry(v):
    np = v.np; m = v.load(BM); p, g = pos_pulse(v, 'a'); w0 = waist(v, 'w0', g.n); keep = v.snapshot(w0)
    b = m.OneDBeam(w0, p, v.choice('axis', [None, 'o'])); ns = v.rarr('ns', g.n, pos=True, s=(1.2, 2.6)); kn = v.snapshot(ns); z = z_in(v, 'z', g.n); kz = v.snapshot(z)
    again = v.choice('refocused', [False, True])
    if again: w0 = waist(v, 'w1', g.n); keep = v.snapshot(w0); b.set_w0(w0)
    zR = PI * w0 ** 2 * ns / g.lam
    v.eq('waist', b.waist, w0)
    v.eq('Rayleigh range', b.calculate_zR(ns), zR); v.eq('confocal parameter', b.calc_confocal(ns), 2.0 * zR); v.eq('confocal parameter in vacuum', b.calc_confocal(), TWO_PI * w0 ** 2 / g.lam); v.eq('Rayleigh range in vacuum', b.calculate_zR(), PI * w0 ** 2 / g.lam)
    w = b.calculate_waist(z, ns); v.eq('spot size', w ** 2, w0 ** 2 * (1.0 + (z / zR) ** 2)); v.true('spot size is positive', w > 0)
    v.eq('spot size in vacuum', b.calculate_waist(z) ** 2, w0 ** 2 * (1.0 + (z * g.lam / (PI * w0 ** 2)) ** 2))
    v.eq('spot size at the focus', b.calculate_waist(0.0, ns), w0 + 0.0 * zR)
    R = b.calculate_R(z, ns)
    v.eq('curvature', R, z + zR ** 2 / z)
    # complex beam parameter: 1/q = 1/R - i lambda/(pi n w^2), q = z + i zR
    v.eq('beam parameter', (1.0 / R - 1j * g.lam / (PI * ns * w ** 2)) * (z + 1j * zR), 1.0 + 0.0 * zR)
    v.eq('Gouy phase', b.calculate_gouy_phase(z, ns), (zR + 1j * z) / np.sqrt(zR ** 2 + z ** 2)); v.eq('no Gouy phase at the focus', b.calculate_gouy_phase(0.0, ns), 1.0 + 0.0 * zR)
    v.eq('asking changes no waist', b.waist, keep); v.eq('index untouched', ns, kn); v.eq('place untouched', z, kz)

@contract('C20', 'power and field amplitude', under=['OneDBeam.rtP_to_a', 'OneDBeam.rtP_to_a_2', 'OneDBeam._rtP_to_a', 'OneDBeam_highV_WG.rtP_to_a', 'OneDBeam_highV_WG.rtP_to_a_2'], samples=40)
def power(v):
    np = v.np; kind = v.choice('beam', ['gaussian', 'waveguide']); p, g = pos_pulse(v, 'a'); X = crystal_for(v, [(p, g)]); a = v.choice('axis', [None, 'o', 'mix']); n = X.n_of(0, a); z = v.real('z', s=(-0.02, 0.02))
    ns = v.rarr('ns', g.n, pos=True, s=(1.2, 2.6)); P = v.pos('P', s=(1e-3, 1e6))
    imp = EPS0 * C_MKS
    def chk(tag, f, area, idx):
        # power -> intensity n eps0 c |A|^2 -> power
        A = f * np.sqrt(P); v.eq(tag + ': power is the intensity on the area', idx * imp * A ** 2 * area, P + 0.0 * idx); v.true(tag + ': positive', f > 0)
        v.eq(tag + ': field back to power', (A / f) ** 2, P + 0.0 * idx)
    if kind == 'waveguide':
        m = v.load(WG); Aeff = v.pos('Aeff', s=(1.0, 100.0)); b = m.OneDBeam_highV_WG(Aeff, p, a); A2 = v.pos('Aeff2', s=(1e-12, 1e-10))
        v.eq('mode area', b.Aeff, Aeff * 1e-12); v.eq('default mode area', m.OneDBeam_highV_WG(this_pulse=p).Aeff, 10e-12)
        if v.choice('changed', [False, True]): b.set_Aeff(A2); area = A2
        else: area = Aeff * 1e-12
        chk('given index', b.rtP_to_a(ns), area, ns); chk('anywhere', b.rtP_to_a(ns, z), area, ns); chk('in the crystal', b.rtP_to_a_2(p, X), area, n); chk('in the crystal, anywhere', b.rtP_to_a_2(p, X, z), area, n)
        v.eq('no Gouy phase', b.calculate_gouy_phase(z, ns), 1.0); v.eq('modes overlap', b.calc_overlap_integral(z, p, p, b, X), 1.0)
        v.eq('index', b.get_n_in_crystal(p, X), n); v.eq('wavenumber', b.get_k_in_crystal(p, X), X.k_of(0, a)); v.eq('mode area unchanged', b.Aeff, area)
    else:
        m = v.load(BM); w0 = waist(v, 'w0', g.n); b = m.OneDBeam(w0, p, a); zR = lambda i: PI * w0 ** 2 * i / g.lam; w2 = v.pos('w2', s=(5e-6, 1e-4))
        chk('at the focus', b.rtP_to_a(ns), PI * w0 ** 2, ns)
        chk('in the crystal at z', b.rtP_to_a_2(p, X, z), PI * w0 ** 2 * (1.0 + (z / zR(n)) ** 2), n)
        chk('in the crystal, given waist', b.rtP_to_a_2(p, X, z, w2), PI * w2 ** 2, n); chk('in the crystal, given waist, no place', b.rtP_to_a_2(p, X, None, w2), PI * w2 ** 2, n); chk('in the crystal at the focus', b.rtP_to_a_2(p, X, 0.0), PI * w0 ** 2, n)
        v.eq('index', b.get_n_in_crystal(p, X), n); v.eq('wavenumber', b.get_k_in_crystal(p, X), X.k_of(0, a)); v.eq('waist unchanged', b.waist, w0)

@contract('C20', 'focusing to a confocal length', under=['OneDBeam.set_waist_to_match_confocal', 'OneDBeam.set_waist_to_match_central_waist'], samples=40)
def confocal(v):
    np = v.np; m = v.load(BM); p, g = pos_pulse(v, 'a'); q, h = pos_pulse(v, 'b', n=g.n); X = crystal_for(v, [(p, g), (q, h)])
    a1, a2 = v.choice('axes', [(None, None), ('mix', 'o'), ('o', 'mix')]); w1 = waist(v, 'w1', g.n); w2 = v.pos('w2', s=(5e-6, 1e-4))
    B1 = m.OneDBeam(w1, p, a1); B2 = m.OneDBeam(w2, q, a2)
    n1, n2 = X.n_of(0, a1), X.n_of(1, a2)
    how = v.choice('how', ['like another beam', 'central waist'])
    if how == 'like another beam':
        r = w1 + 0.0 * g.lam
        B2.set_waist_to_match_confocal(q, p, B1, X)
        v.eq('same confocal parameter', B2.calc_confocal(n2), TWO_PI * w1 ** 2 * n1 / g.lam); v.eq('same Rayleigh range for every colour', B2.calculate_zR(n2), B1.calculate_zR(n1)); v.eq('the other beam keeps its waist', B1.waist, w1)
    else:
        wc = v.pos('wc', s=(5e-6, 1e-4)); B2.set_waist_to_match_central_waist(q, wc, X)
        c = g.n // 2
        zc = PI * wc ** 2 * n2[c] / h.lam[c]
        v.eq('one confocal parameter for all colours', B2.calculate_zR(n2), zc + 0.0 * n2); v.eq('waist of the central colour', B2.waist[c], wc); v.eq('the other beam keeps its waist', B1.waist, w1)
    v.true('waist is positive', B2.waist > 0)
    keep = v.snapshot(B2.waist); B1.set_w0(v.pos('w3', s=(5e-6, 1e-4))); v.eq('and this one when the other is changed', B2.waist, keep)
    B3 = m.OneDBeam(v.pos('w4', s=(5e-6, 1e-4)), p, a1); v.eq('and when one is made', B2.waist, keep)
    B3.set_w0(B2.waist); B3.set_waist_to_match_confocal(p, p, B1, X); v.eq('and when a copy is refocused', B2.waist, keep)

@contract('C20', 'overlap of two beams', under=['OneDBeam.calc_overlap_integral'], samples=40)
def overlap(v):
    np = v.np; m = v.load(BM); p, g = pos_pulse(v, 'a'); q, h = pos_pulse(v, 'b', n=g.n); X = crystal_for(v, [(p, g), (q, h)])
    a1, a2 = v.choice('axes', [(None, None), ('mix', 'o')]); w1, w2 = v.pos('w1', s=(5e-6, 1e-4)), v.pos('w2', s=(5e-6, 1e-4)); z = v.real('z', s=(-0.02, 0.02))
    B1 = m.OneDBeam(w1, p, a1); B2 = m.OneDBeam(w2, q, a2)
    k1, k2 = X.k_of(0, a1), X.k_of(1, a2); z1 = PI * w1 ** 2 * X.n_of(0, a1) / g.lam; z2 = PI * w2 ** 2 * X.n_of(1, a2) / h.lam
    r = B1.calc_overlap_integral(z, p, q, B2, X)
    # |<u1,u2>|^2 / (<u1,u1><u2,u2>) of exp(-i k r^2 / 2q), q = z + i zR
    v.eq('mode overlap', r * np.abs(k1 * (z - 1j * z2) - k2 * (z + 1j * z1)) ** 2, 4.0 * k1 * k2 * z1 * z2)
    v.eq('symmetric', B2.calc_overlap_integral(z, q, p, B1, X), r)
    v.eq('a beam overlaps itself', B1.calc_overlap_integral(z, p, p, B1, X), 1.0 + 0.0 * z1)
    v.true('not negative', r > 0); v.eq('waists unchanged', B1.waist, w1); v.eq('waists unchanged (2)', B2.waist, w2)
    if not v.symbolic: v.true('at most 1', r <= 1.0 + 1e-9)

@contract('C20', 'waist of largest overlap along the crystal', under=['OneDBeam.calc_optimal_beam_overlap_in_crystal'], samples=6, limit=60)
def best(v):
    """over a length L starting at the common focus"""
    np = v.np; m = v.load(BM); n = 2
    if v.symbolic: return best_contract(v, m)
    P = lambda f0: new_pulse(v, 'o%d' % f0, n=n, field=False, wl=C_NMPS / f0, Tw=5.0)
    p, g = P(300.0); q, h = P(190.0); g.lam, h.lam = g.wl * 1e-9, h.wl * 1e-9; X = crystal_for(v, [(p, g), (q, h)])
    w1 = v.pos('w1', s=(2e-5, 5e-5)); B1 = m.OneDBeam(w1, p, None); B2 = m.OneDBeam(3e-5, q, None); Ls = v.choice('length', ['own', 'given']); L = X.length_mks if Ls == 'own' else v.pos('L', s=(1e-3, 2e-2))
    w = B2.calc_optimal_beam_overlap_in_crystal(q, p, B1, X, **({} if Ls == 'own' else {'L': L}))
    n2, k2, k1 = X.n_of(1, None), X.k_of(1, None), X.k_of(0, None); z1 = B1.calculate_zR(X.n_of(0, None))
    u, wt = np.polynomial.legendre.leggauss(40)
    def tot(w):
        z2 = PI * w ** 2 * n2 / h.lam; s = 0.0
        for ui, wi in zip(u, wt):
            z = (1.0 + ui) * L / 2.0; s = s + wi * np.sum(4 * k1 * k2 * z1 * z2 / np.abs(k1 * (z - 1j * z2) - k2 * (z + 1j * z1)) ** 2)
        return s / 2.0
    t = tot(w)
    v.true('no better waist nearby', all(tot(w * c) <= t * (1 + 1e-6) for c in (0.97, 0.99, 1.01, 1.03))); v.eq('own waist is kept', B2.waist, 3e-5)

def best_contract(v, m):
    """the minimiser (external) is given minus the overlap integral, and its result becomes the waists"""
    np = v.np; p, g = pos_pulse(v, 'a'); q, h = pos_pulse(v, 'b', n=g.n); X = crystal_for(v, [(p, g), (q, h)]); w1, w2 = v.pos('w1'), v.pos('w2'); B1, B2 = m.OneDBeam(w1, p, None), m.OneDBeam(w2, q, None)
    k1, k2 = X.k_of(0, None), X.k_of(1, None); z1 = PI * w1 ** 2 * X.n_of(0, None) / g.lam
    Ls = v.choice('length', ['own', 'given']); L = X.length_mks if Ls == 'own' else v.pos('L')
    zr = v.rarr('zr', g.n, pos=True); best = v.rarr('zr best', g.n, pos=True); calls = []
    class Result:
        _vc_ghost = True
        x = best
    def minimize(f, x0, method=None, **k):
        calls.append(1); s = k1 * zr + k2 * z1
        # integral over 0..L of 4 k1 k2 z1 z2 / ((k1 - k2)^2 z^2 + (k1 z2 + k2 z1)^2)
        v.eq('objective is minus the integrated overlap', f(zr), -np.sum(4 * k1 * k2 * z1 * zr * np.arctan((k2 - k1) * L / s) / ((k2 - k1) * s)))
        return Result()
    keep = m.optimize
    m.optimize = only(minimize=minimize)
    try: w = B2.calc_optimal_beam_overlap_in_crystal(q, p, B1, X, **({} if Ls == 'own' else {'L': L}))
    finally: m.optimize = keep
    v.check('one search', len(calls) == 1)
    v.eq('waist of the best Rayleigh range', PI * w ** 2 * X.n_of(1, None) / h.lam, best); v.eq('own waist is kept', B2.waist, w2); v.eq('other waist is kept', B1.waist, w1)
