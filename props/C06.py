from vc.registry import contract
from .common import *

def check_same(v, tag, q, p):
    for nm in ('NPTS', 'time_window_ps', 'center_wavelength_nm', 'center_frequency_THz', 'frep_MHz', 'frep_mks', 'W_mks', 'W_THz', 'V_THz', 'T_ps', 'wl_nm', 'dT_ps', 'dF_THz'):
        v.eq(tag + nm, getattr(q, nm), getattr(p, nm))
    v.eq(tag + 'field', q.AW, p.AW); v.eq(tag + 'time field', q.AT, p.AT)

@contract('C06', 'a clone is equal and independent', under=['Pulse.create_cloned_pulse', 'Pulse.clone_pulse'], samples=20, past='pulse')
def clone(v):
    p, g = new_pulse(v)
    q = p.create_cloned_pulse()
    check_same(v, '', q, p)
    q.set_AW(0.0); q.set_center_wavelength_nm(wl_in(v, 'wl2')); q.set_frep_MHz(v.pos('fr2')); q.set_time_window_ps(tw_in(v, 'Tw2'))
    v.eq('source frep kept', p.frep_MHz, g.frep)
    same_pulse(v, p, g, g.A, 'source after edits of the clone: ')

@contract('C06', 'cloning into an existing pulse replaces everything', under=['Pulse.clone_pulse'], samples=20)
def clone_into(v):
    p, g = new_pulse(v, 'a'); q, h = new_pulse(v, 'b')
    read_all(q)
    q.clone_pulse(p)
    check_same(v, '', q, p)
    same_pulse(v, p, g, g.A, 'source: ')
    p.set_AW(0.0)
    v.eq('target does not follow the source', q.AW, g.A)

@contract('C06', 'dictionary round trip', under=['Pulse.get_pulse_dict', 'Pulse.load_pulse_dict'], samples=20)
def dict_rt(v):
    p, g = new_pulse(v)
    d = p.get_pulse_dict()
    if not v.symbolic:
        import json; d = json.loads(json.dumps({k: x.item() if hasattr(x, 'item') else x for k, x in d.items()}))
    q, h = new_pulse(v, 'b')
    read_all(q)
    q.load_pulse_dict(d)
    check_same(v, '', q, p)
    same_pulse(v, p, g, g.A, 'source: ')
    P = v.load('pynlo.light.PulseBase').Pulse
    r = P(); r.load_pulse_dict(d)
    check_same(v, 'into a new pulse: ', r, p)

@contract('C06', 'subset keeps the frequency lines and their amplitudes', under=['Pulse.create_subset_pulse'], samples=40, past='pulse')
def subset(v):
    p, g = new_pulse(v, hmin=4); np = v.np
    v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)          # positive frequencies only
    m = v.even('m', s=(2, 12)); v.assume(m < g.n)
    lo = m // 2
    target = v.pos('target', s=(600.0, 2500.0))
    if not v.symbolic: target = float(g.wl[v.int('j', 0, s=(lo, g.n - lo))]) + v.real('off', s=(-0.3, 0.3)) * float(np.min(np.abs(np.diff(g.wl))))
    j = np.argmin(np.abs(g.wl - target))          # the closest grid line
    v.assume(j >= lo); v.assume(j + lo <= g.n)
    q = p.create_subset_pulse(target, m)
    v.eq('number of points', q.NPTS, m)
    v.eq('frequency lines', q.W_THz, g.W[j - lo:j + lo])
    v.eq('amplitudes', q.AW, g.A[j - lo:j + lo])
    v.eq('line spacing', q.dF_THz, 1.0 / g.Tw)
    v.eq('repetition rate', q.frep_MHz, g.frep)
    v.eq('time window', q.time_window_ps, g.Tw)
    same_pulse(v, p, g, g.A, 'source: ')

@contract('C06', 'a subset as large as the pulse is refused', under=['Pulse.create_subset_pulse'], samples=10)
def subset_refused(v):
    p, g = new_pulse(v)
    m = v.even('m', s=(4, 80)); v.assume(m >= g.n)
    v.raises('refused', (ValueError,), lambda: p.create_subset_pulse(g.wl0, m))

@contract('C06', 'a subset beyond the end of the grid is refused', under=['Pulse.create_subset_pulse'], samples=30)
def subset_beyond(v):
    p, g = new_pulse(v, hmin=4); np = v.np
    v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)
    m = v.even('m', s=(2, 12)); v.assume(m < g.n); lo = m // 2; side = v.choice('side', ['red', 'blue'])
    if v.symbolic: target = v.pos('target')
    else: target = float(g.wl[v.int('j', 0, s=(0, lo - 1))] if side == 'red' else g.wl[g.n - 1 - v.int('j', 0, s=(0, lo - 1))]); v.assume(lo > 1 or side == 'red')
    j = np.argmin(np.abs(g.wl - target))
    if side == 'red': v.assume(j < lo)
    else: v.assume(j + lo > g.n)
    v.raises('refused', (ValueError,), lambda: p.create_subset_pulse(target, m))
    same_pulse(v, p, g, g.A, 'source: ')

@contract('C06', 'expanding the time window pads with zeros and keeps the spacing', under=['Pulse.expand_time_window'], samples=40, past='pulse')
def expand(v):
    p, g = new_pulse(v); np = v.np
    read_all(p)
    B = p.AT
    k = v.choice('factor', [1, 2, 3]); loc = v.choice('where', ['before', 'after', 'even', 'default'])
    if loc == 'default': p.expand_time_window(k); loc = 'before'
    else: p.expand_time_window(k, new_pts_loc=loc)
    N = g.n * 2 ** k
    pad = N - g.n
    start = pad if loc == 'before' else 0 if loc == 'after' else pad // 2
    h = GridSpec(v, g.f0, N, g.Tw * 2 ** k)
    check_grid(v, p, h)
    X = p.AT
    v.eq('original samples', X[start:start + g.n], B)
    if loc != 'after': v.eq('zeros before', X[0:start], np.zeros(start), scale=1.0)
    if loc != 'before': v.eq('zeros after', X[start + g.n:], np.zeros(pad - start), scale=1.0)
    v.eq('spacing kept', p.dT_ps, g.dT)
    v.eq('repetition rate', p.frep_MHz, g.frep)

@contract('C06', 'a bad padding position is refused', under=['Pulse.expand_time_window'], samples=5)
def expand_bad(v):
    p, g = new_pulse(v)
    v.raises('refused', (ValueError,), lambda: p.expand_time_window(1, new_pts_loc='left'))

@contract('C06', 'rotating the spectrum is a cyclic shift to the nearest line', under=['Pulse.rotate_spectrum_to_new_center_wl'], samples=40, past='pulse')
def rotate(v):
    p, g = new_pulse(v); np = v.np
    m = v.int('m', -40, s=(-6, 6)); v.assume(m <= 40)
    d = v.real('frac', s=(-0.49, 0.49)); v.assume(d > -0.49); v.assume(d < 0.49)
    f = g.f0 + (m + d) / g.Tw
    v.assume(f > 0)
    p.rotate_spectrum_to_new_center_wl(C_NMPS / f)
    v.eq('spectrum', p.AW, np.roll(g.A, m))
    check_grid(v, p, g)

@contract('C06', 'interpolating onto a new centre keeps the original and every other grid parameter', under=['Pulse.interpolate_to_new_center_wl'], samples=30)
def interp(v):
    p, g = new_pulse(v); np = v.np
    wl2 = wl_in(v, 'wl2')
    q = p.interpolate_to_new_center_wl(wl2)
    h = GridSpec(v, C_NMPS / wl2, g.n, g.Tw)
    check_grid(v, q, h, 'new: ')
    v.eq('repetition rate', q.frep_MHz, g.frep)
    same_pulse(v, p, g, g.A, 'source: ')
    r = p.interpolate_to_new_center_wl(g.wl0)
    v.eq('same centre: same field', r.AW, g.A, tol=1e-6)

@contract('C06', 'interpolation onto a grid displaced by whole lines moves samples and pads with zeros', under=['Pulse.interpolate_to_new_center_wl'], samples=40)
def interp_lines(v):
    p, g = new_pulse(v); np = v.np
    m = v.int('m', None, s=(-6, 6))
    if v.symbolic:
        f = g.f0 + m / g.Tw; v.assume(f > 0)
        X = p.interpolate_to_new_center_wl(C_NMPS / f).AW
        K = np.arange(g.n) + m
        v.eq('samples', X, np.where((K >= 0) & (K < g.n), np.roll(g.A, -m), 0.0)); same_pulse(v, p, g, g.A, 'source: ')
        return
    f = g.f0 + (m + 1e-7) / g.Tw
    q = p.interpolate_to_new_center_wl(C_NMPS / f)
    E = np.zeros(g.n, complex)
    for k in range(g.n):
        if 0 <= k + m < g.n: E[k] = g.A[k + m]
    X = q.AW
    if m >= 0: X = X[:g.n - m - 1]; E = E[:g.n - m - 1]
    else: X = X[1 - m:]; E = E[1 - m:]
    v.eq('samples', X, E, tol=1e-5)
    v.eq('outside the original span', q.AW[g.n - m:] if m > 0 else q.AW[:max(0, -m)], np.zeros(abs(m)), scale=1.0, tol=1e-6)

@contract('C06', 'wavelength filter zeroes exactly the lines outside the band', under=['Pulse.filter_by_wavelength_nm'], samples=40, past='pulse')
def filt(v):
    p, g = new_pulse(v); np = v.np
    read_all(p)
    v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)
    if v.symbolic: lo = v.pos('lo'); hi = v.pos('hi')
    else:
        wl = np.sort(g.wl); lo = float(wl[v.int('i', 0, s=(0, g.n // 2 - 1))]) * 1.000001; hi = float(wl[v.int('k', 0, s=(g.n // 2, g.n - 1))]) * 0.999999
    p.filter_by_wavelength_nm(lo, hi)
    keep = (g.wl >= lo) & (g.wl <= hi)
    v.eq('spectrum', p.AW, np.where(keep, g.A, 0.0))
    check_grid(v, p, g)

@contract('C06', 'intensity autocorrelation', under=['Pulse.calculate_intensity_autocorrelation'], samples=40)
def autocorr(v):
    p, g = new_pulse(v); np = v.np
    I = abs2(v, to_time(v, g.A)); n = g.n; h = n // 2
    pad = np.hstack((np.zeros(n), I, np.zeros(n)))          # sample j of the intensity is pad[n + j]
    if v.symbolic: E = v.arr(n, lambda k: np.sum(v.arr(n, lambda j: pad[n + j + k - h] * I[j])))
    else: E = np.array([np.sum(pad[n + k - h:2 * n + k - h] * I) for k in range(n)])
    v.eq('autocorrelation', p.calculate_intensity_autocorrelation(), E)
    same_pulse(v, p, g, g.A)

@contract('C06', 'added noise leaves the grid alone and has the documented size', under=['Pulse.add_noise'], samples=20, past='pulse')
def noise(v):
    p, g = new_pulse(v); np = v.np
    v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)
    kind = v.choice('kind', ['sqrt_N_freq', 'one_photon_freq'])
    np.random.seed(11)
    p.add_noise(kind)
    dA = p.AW - g.A
    np.random.seed(11)
    r = np.random.normal(size=g.n); u = np.random.uniform(size=g.n)
    hnu = 6.62607015e-34 * g.W * 1e12 / TWO_PI
    dF = 1e12 / g.Tw
    N = abs2(v, g.A) / dF / hnu
    amp = r * hnu * dF * (np.sqrt(N) if kind == 'sqrt_N_freq' else 1.0)
    E = amp * np.exp(2j * v.pi * u)
    v.eq('noise', g.A + dA, g.A + E, tol=1e-9)
    if not v.symbolic: v.eq('noise size', np.abs(dA), np.abs(E), tol=1e-3, scale=float(np.max(np.abs(g.A))) * 1e-12)
    check_grid(v, p, g)
    v.raises('unknown kind refused', (ValueError,), lambda: p.add_noise('nope'))

@contract('C06', 'spectrogram: gated spectrum over delay and optical frequency', under=['Pulse.spectrogram'], samples=30)
def spectrogram(v):
    p, g = new_pulse(v, hmin=2); np = v.np
    K = v.int('K', 2, s=(2, 9)); w = v.pos('width', s=(0.02, 0.5))
    A = to_time(v, g.A); t = v.arr(g.n, lambda k: (k - g.n // 2) * g.Tw / g.n)
    d = np.linspace(np.min(t), np.max(t), K)
    D, F, ext, S = p.spectrogram(gate_function_width_ps=w, time_steps=K)
    j = v.int('j', 0, s=(0, 2)); k = v.int('k', 0, s=(0, 5)); v.assume(j < K); v.assume(k < g.n // 2)
    gate = np.exp(-(t - d[j]) ** 2 / (2.0 * w ** 2))
    E = np.fft.fft(np.conj(A) * gate * np.exp(2j * v.pi * t * g.f0))[k]        # the optical frequency k / Tw
    v.eq('delay', D[k, j], d[j], scale=g.Tw); v.eq('frequency', F[k, j], 1.0 * k / g.Tw, scale=1.0 / g.Tw)
    v.eq('spectrogram', S[k, j], np.abs(E), scale=np.sum(np.abs(A)) if not v.symbolic else None)
    v.same_len('frequencies', S, g.n // 2)
    v.raises('unknown gate refused', (ValueError,), lambda: p.spectrogram('nope'))
    same_pulse(v, p, g, g.A, 'pulse: ')

@contract('C06', 'spectrogram of a single line peaks at its optical frequency; FROG gate is the shifted pulse', under=['Pulse.spectrogram'], samples=20, sym=False, bounded='sampled pulses; scipy map_coordinates is external')
def spectrogram_line(v):
    np = v.np
    p, g = new_pulse(v, hmin=4)
    f0 = v.pos('f0', s=(200.0, 400.0)); Tw = v.pos('win', s=(0.02, 0.05)); n = v.choice('points', [64, 128])
    p.set_NPTS(n); p.set_time_window_ps(Tw); p.set_center_wavelength_nm(C_NMPS / f0)
    m = v.int('line', -3, s=(-3, 3)); v.assume(f0 + (m + 2) / Tw < n / Tw / 2)
    A = np.zeros(n, complex); A[n // 2 + m] = 1.0; p.set_AW(A)
    D, F, ext, S = p.spectrogram(gate_function_width_ps=100.0 * Tw, time_steps=5)
    pk = F[np.argmax(S[:, 2]), 2]
    v.check('line appears within one bin of its frequency', abs(pk - (f0 + m / Tw)) <= 0.75 / Tw, '%r %r' % (pk, f0 + m / Tw))
    a = v.rng.standard_normal(n) + 1j * v.rng.standard_normal(n) if hasattr(v, 'rng') else np.exp(1j * np.arange(n) ** 2 * 0.01)
    a[0] = a[-1] = 0.0; p.set_AT(a)
    D, F, ext, S = p.spectrogram('frog', time_steps=n)
    t = (np.arange(n) - n // 2) * Tw / n
    for j in (n // 2, n // 2 + 3, n // 2 - 5):
        G = np.zeros(n, complex)
        for i in range(n):
            if 0 <= i - j + n // 2 < n: G[i] = a[i - j + n // 2]
        E = np.abs(np.fft.fft(np.conj(a) * np.conj(G) * np.exp(2j * v.pi * t * f0))[:n // 2])
        v.eq('frog at delay %d' % (j - n // 2), S[:, j], E, scale=float(np.sum(np.abs(a) ** 2)), tol=1e-6)

@contract('C06', 'pulses without a repetition rate: every copy has none either', under=['Pulse.clone_pulse', 'Pulse.create_cloned_pulse', 'Pulse.get_pulse_dict', 'Pulse.load_pulse_dict', 'Pulse.create_subset_pulse'], samples=20)
def no_frep(v):
    p, g = new_pulse(v, 'a', hmin=4); q, h = new_pulse(v, 'b'); r, k = new_pulse(v, 'c')
    p.set_frep_MHz(None)
    c = p.create_cloned_pulse(); v.check('clone', c.frep_MHz is None)
    q.clone_pulse(p); v.check('cloned into', q.frep_MHz is None); v.eq('field cloned into', q.AW, g.A)
    d = p.get_pulse_dict(); v.check('dictionary', d['frep_MHz'] is None)
    r.load_pulse_dict(d); v.check('loaded', r.frep_MHz is None); v.eq('field loaded', r.AW, g.A)
    v.assume(C_NMPS / g.wl0 - 1.0 * (g.n // 2) / g.Tw > 0)
    j = v.np.argmin(v.np.abs(g.wl - g.wl0)); v.assume(j >= 1); v.assume(j + 1 <= g.n)
    s = p.create_subset_pulse(g.wl0, 2); v.check('subset', s.frep_MHz is None)
    for x in (c, q, r, s): x.set_frep_MHz(v.pos('new'))
    v.check('source', p.frep_MHz is None)

from . import C03
contract('C06', 'weighted average frequency and wavelength', under=['Pulse.calculate_weighted_avg_frequency_mks', 'Pulse.calculate_weighted_avg_wavelength_nm'], samples=20, past='pulse')(C03.weighted)
