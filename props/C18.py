from vc.registry import contract, lemmas
from .common import *
from .dfg import *
lemmas('C18', 'Poling.lean', ['domains_ordered', 'domains_exist', 'constant_period'])
RW = 'pynlo.interactions.ThreeWaveMixing.multi_run_rw'
PL = 'pynlo.media.crystals.XTAL_PPLN'

def domain_of(period, x):
    """start and length of the period x lies in"""
    z = 0.0
    while True:
        p = period(z)
        if z + p > x: return z, p
        z += p

@contract('C18', 'sign of the domain at every position', under=['dfg_problem.precompute_poling', 'dfg_problem.poling', 'dfg_problem.__init__'], samples=40)
def poling(v):
    """Z(0) = 0, Z(j+1) = Z(j) + period at Z(j); the first half of each period is +1, the second -1"""
    np = v.np; s = setup(v, modes=('simple',), gouy=False); m = v.load(DF); L = s.L
    f = v.fun('period', pos=True, s=1e-3)
    scale = v.pos('scale', s=(0.004, 0.1)) * s.L if not v.symbolic else 1.0
    period = (lambda x: f(x)) if v.symbolic else (lambda x: scale * f(x))
    keep = m.OneDBeam
    if v.symbolic: ghost_crystal(v, s)
    s.X.mode = 'PP'; s.X.pp = period
    try:
        if v.symbolic:
            m.OneDBeam = ghost_beams(v, m, s)
            Z = v.fun('Z')
            poling_invariant(v, Z, period)
        P = s.build()
    finally: m.OneDBeam = keep
    t = v.real('place in the period', s=(0.0, 1.0))
    if v.symbolic:
        j = v.int('j', 0); z = Z(j); p = period(z)
        v.assume(Z(j) < L); v.assume(t > 0.0); v.assume(t < 1.0); v.assume(t != 0.5)
        v.assume(Z(0) == 0.0); v.assume(Z(j + 1) == z + p)
        x = z + t * p
    else:
        z, p = domain_of(period, v.real('where', s=(0.0, 1.0)) * L)
        t = v.near(v.choice('edge', [0.5, 1.0, 1e-5]), t, p=0.5)
        if min(abs(t), abs(t - 0.5), abs(t - 1.0)) < 1e-7 or t > 1.0: t = 0.3
        x = z + t * p
    if v.symbolic:
        # the loop ended after K periods, the first one not before the end of the crystal (facts of the invariant)
        K = v.K[0]
        ordered(v, Z, K, j, period)
        v.at(j)
    if not v.symbolic and v.past('position', 0.5):
        # the sign was asked for elsewhere before: across a wall close to x, or anywhere
        w = v.choice('wall', [0.5, 1.0]); y = z + (2.0 * w - t) * p
        P.poling(v.choice('before', [y, y, v.real('elsewhere', s=(0.0, 1.0)) * L]))
    r = P.poling(x)
    if v.symbolic:
        for w, in v.witnesses():
            v.assume(Z(w + 1) == Z(w) + period(Z(w)))
            if v.decided(w == j): v.refresh(); continue
            ordered(v, Z, w, j, period); ordered(v, Z, j, w, period)
    if v.symbolic or abs(t - 0.5) > 1e-7:
        # Z increases (Lean: domains_ordered); the witness of a negative domain can only be the period x lies in
        if v.decided(t > 0.5): v.true('second half of the period is inverted', r == -1)
        else: v.true('first half of the period is not inverted', r == 1)

def ordered(v, Z, a, b, period):
    """instance of Lean's domains_ordered: a < b implies Z(a+1) <= Z(b)"""
    v.assume((a >= b) | (Z(a) + period(Z(a)) <= Z(b)))

def poling_invariant(v, Z, period):
    from vc.symval import SymList
    v.K = []
    lo = lambda j: Z(j) + period(Z(j)) / 2.0
    hi = lambda j: Z(j) + period(Z(j))
    def setup(L):
        k = L.k; v.assume(Z(k + 1) == Z(k) + period(Z(k)))
        L['z_current'] = Z(k)
        L['domain_lb'] = SymList(k, lo); L['domain_ub'] = SymList(k, hi)
        if L.phase == 'x': v.K.append(k)
    def check(L, when):
        v.assume(Z(0) == 0.0)
        v.eq(when + ': start of the period', L['z_current'], Z(L.k))
        a, b = L['domain_lb'], L['domain_ub']
        if when == 'entry': v.check('entry: no domains yet', len(a) == 0 and len(b) == 0); return
        v.check('preserved: one domain per period', len(a.tail) == 1 and len(b.tail) == 1)
        v.eq('preserved: start of the inverted half', a.tail[0], lo(L.k - 1)); v.eq('preserved: end of the inverted half', b.tail[0], hi(L.k - 1))
    v.loop('precompute_poling', setup, check)

@contract('C18', 'poling period set', under=['PPLN.set_pp', 'Crystal.set_pp_chirp', 'PPLN.calculate_poling_period'], samples=80)
def periods(v):
    """constant (as calculate_poling_period returns it, with or without the third wavelength), function of position, linear chirp"""
    m = v.load(PL); L = v.pos('L', s=(1e-3, 2e-2)); x = v.real('x', s=(0.0, 1.0)) * L; y = v.real('y', s=(0.0, 1.0)) * L
    c = m.PPLN(v.real('T', s=(20.0, 150.0)), length=L); other = m.PPLN(v.real('T2', s=(20.0, 150.0)), length=2.0 * L)
    v.eq('default', c.pp(x), 30.49e-6)
    kind = v.choice('kind', ['number', 'tuple', 'function', 'chirp']); p = v.pos('p', s=(5e-6, 1e-4)); q = v.pos('q', s=(5e-6, 1e-4))
    if kind == 'number': c.set_pp(p); want = lambda x: p
    elif kind == 'tuple': c.set_pp((p, v.pos('wl', s=(1000.0, 3000.0)))); want = lambda x: p
    elif kind == 'function': g = v.fun('g', pos=True); c.set_pp(g); want = g
    else: c.set_pp_chirp(p, q); want = lambda x: p + (q - p) * x / L
    v.eq('period', c.pp(x), want(x)); v.eq('period elsewhere', c.pp(y), want(y)); v.eq('period at the front', c.pp(0.0), want(0.0)); v.eq('period at the end', c.pp(L), want(L))
    v.eq('other crystals', other.pp(x), 30.49e-6)
    c.set_pp(q); v.eq('set again', c.pp(x), q)

@contract('C18', 'a real crystal in the problem', under=['dfg_problem.precompute_poling', 'dfg_problem.poling', 'PPLN.set_pp', 'Crystal.set_pp_chirp'], samples=30, sym=False, bounded='sampled crystals of up to 300 periods')
def real_crystal(v):
    m = v.load(PL); s = setup(v, modes=('simple',), gouy=False); L = s.L
    c = m.PPLN(40.0, length=L); p = v.pos('p', s=(0.004, 0.2)) * L; q = v.pos('q', s=(0.004, 0.2)) * L
    kind = v.choice('kind', ['number', 'tuple', 'function', 'chirp', 'calculated', 'calculated pair'])
    if kind == 'number': c.set_pp(p)
    elif kind == 'tuple': c.set_pp((p, 1500.0))
    elif kind == 'function': c.set_pp(lambda x: p if x < L / 3 else q)
    elif kind == 'chirp': c.set_pp_chirp(p, q)
    elif kind == 'calculated': c.set_pp(c.calculate_poling_period(1064.0, 1550.0, 1.0 / (1 / 1064.0 - 1 / 1550.0)))
    else: c.set_pp(c.calculate_poling_period(1064.0, 1550.0, None))
    period = {'number': lambda x: p, 'tuple': lambda x: p, 'function': lambda x: p if x < L / 3 else q, 'chirp': lambda x: p + (q - p) * x / L}.get(kind) or (lambda x, k=c.calculate_poling_period(1064.0, 1550.0, None)[0]: k)
    s.X = c; P = s.build()
    for i in range(20):
        z, d = domain_of(period, v.real('where%d' % i, s=(0.0, 1.0)) * L); t = v.real('t%d' % i, s=(0.001, 0.999))
        if abs(t - 0.5) > 1e-6: v.check('sign', P.poling(z + t * d) == (1 if t < 0.5 else -1), '%s z=%g t=%g' % (kind, z, t))

class Out:
    """what the integrator stored (contract of property C16): count positions and states"""
    _vc_ghost = True

@contract('C18', 'results at the stored positions', under=['dfg_problem.process_stepper_output', 'dfg_results_interface.__init__', 'dfg_results_interface.get_z', 'dfg_results_interface.get_pump', 'dfg_results_interface.get_sgnl', 'dfg_results_interface.get_idlr'], samples=40)
def results(v):
    np = v.np; s = setup(v, modes=('simple', 'wg'), gouy=False); n = s.n; m = v.load(DF); keep = m.OneDBeam
    if v.symbolic: ghost_crystal(v, s)
    try:
        if v.symbolic and not s.wg: m.OneDBeam = ghost_beams(v, m, s)
        P = s.build()
    finally: m.OneDBeam = keep
    cnt = v.int('count', 1, s=(1, 6)); o = Out(); o.count = cnt
    o.ysave = v.carr2('Y', cnt + v.int('spare', 0, s=(0, 3)), 3 * n); o.xsave = v.rarr('zs', o.ysave.shape[0], s=(0.0, 1.0)) * s.L + (0.0 if v.symbolic else 0j)
    Y = v.snapshot(o.ysave); zs = v.snapshot(o.xsave)
    R = P.process_stepper_output(o)
    v.eq('stored states kept', o.ysave, Y); v.eq('stored positions kept', o.xsave, zs)
    v.eq('number of positions', R.n_saves, cnt)
    o.xsave[:] = 0.0; o.ysave[:] = 0.0           # the results are the caller's own
    W = [v.arr(n, lambda k, f=f: TWO_PI * (f + (k - n // 2) / s.Tw) * 1e12) for f in s.f]
    if not v.symbolic:
        ax = [None] * 3
        s.nn = [s.X.n(TWO_PI * C_MKS / w * 1e9, a) for w, a in zip(W, ax)]; s.K = [w * x / C_MKS for w, x in zip(W, s.nn)]
    vel = C_MKS / s.nn[0][np.argmax(np.abs(s.gp.A))]
    row = v.index('row', cnt); k = v.index('k', n); z = zs[row]
    v.eq('position', R.get_z(row), z)
    if v.symbolic: v.at(row, k)
    for i, top in enumerate((R.pump_max_field, R.sgnl_max_field, R.idlr_max_field)): v.le('largest field %d' % i, np.abs(Y[row, i * n + k]), top * (1.0 if v.symbolic else 1.0 + 1e-12))
    order = v.choice('order', [(0, 1, 2), (2, 0, 1), (1, 1, 0)])
    for i in order:
        name = ('pump', 'signal', 'idler')[i]
        q = (R.get_pump, R.get_sgnl, R.get_idlr)[i](row)
        v.same_len(name + ': length', q.AW, n)
        stored = Y[row, i * n + k]
        v.eq(name + ': spectrum', np.abs(q.AW[k]), np.abs(stored))
        v.eq(name + ': field', q.AW[k], stored * np.exp(1j * (s.K[i][k] * z - W[i][k] * z / vel)), tol=1e-6)
        v.eq(name + ': centre wavelength', q.center_wavelength_nm, C_NMPS / s.f[i])
        v.eq(name + ': grid', q.W_mks, W[i]); v.eq(name + ': repetition rate', q.frep_MHz, s.gp.frep)
        v.eq(name + ': time window', q.time_window_ps, s.Tw)
    v.eq('pump of the problem', P.pump.AW, s.gp.A); v.eq('pump of the problem: wavelength', P.pump.center_wavelength_nm, C_NMPS / s.f[0])

def one_run(v, i):
    """an integrated problem: three pulses, and the states the integrator stored"""
    np = v.np; r = Setup(); r.n = n = v.even('n%d' % i, s=(4, 24)); r.cnt = v.int('count%d' % i, 1, s=(1, 5)); Tw = v.pos('Tw%d' % i, s=(0.5, 4.0))
    r.P = Out(); r.g = []
    for nm in ('pump', 'sgnl', 'idlr'):
        p, g = new_pulse(v, nm + str(i), n=n, wl=v.pos('wl_%s%d' % (nm, i), s=(800.0, 5000.0)), Tw=Tw); setattr(r.P, nm, p); r.g.append(g)
    r.P.sgnl.set_frep_MHz(r.g[0].frep); r.P.idlr.set_frep_MHz(r.g[0].frep)
    o = Out(); o.out = Out(); o.nvar = 3 * n; o.out.count = r.cnt; r.o = o
    o.out.ysave = v.carr2('Y%d' % i, r.cnt + v.int('spare%d' % i, 0, s=(0, 3)), 3 * n); o.out.xsave = v.rarr('z%d' % i, r.cnt)
    r.Y = v.snapshot(o.out.ysave); r.param = v.real('param%d' % i)
    return r
def same_run(v, r, got, z, tag):
    k = v.index('k' + tag, r.n)
    for i, (q, g, nm) in enumerate(zip(got, r.g, ('pump', 'signal', 'idler'))):
        nm = tag + nm
        v.same_len(nm + ': length', q.AW, r.n); v.eq(nm + ': field', q.AW[k], r.Y[z, i * r.n + k])
        v.eq(nm + ': centre wavelength', q.center_wavelength_nm, g.wl0); v.eq(nm + ': time window', q.time_window_ps, g.Tw); v.eq(nm + ': repetition rate', q.frep_MHz, r.g[0].frep)
        v.eq(nm + ': grid', q.W_mks, g.W * 1e12)

@contract('C18', 'stored runs read back', under=['DFGWriter.__init__', 'DFGWriter.add_run', 'DFGReader.__init__', 'DFGReader.get_run', 'DFGReader.get_run_param', 'DFGReader.get_next_run'], samples=60)
def stored(v):
    """up to three runs of arbitrary size in one file (pytables through its contract)"""
    m = v.load(RW); f = v.scratch('runs.h5'); R = v.choice('runs', [1, 2, 3]) if v.symbolic else v.choice('runs', [1, 2, 3, 12])
    runs = [one_run(v, i) for i in range(R)]
    other = v.choice('before', ['new file', 'same parameter', 'other parameter'])
    if other != 'new file':
        old = one_run(v, 99); w = m.DFGWriter(f, 'power' if other == 'same parameter' else 'length'); w.add_run(old.P, old.o, old.param); w.tables_file.close()
    w = m.DFGWriter(f, 'power')
    for r in runs:
        w.add_run(r.P, r.o, r.param)
        v.eq('stored states kept', r.o.out.ysave, r.Y)
        r.o.out.ysave[:] = 0.0; r.P.pump.set_center_wavelength_nm(700.0)        # the file holds its own copy
    w.tables_file.close()
    d = m.DFGReader(f, 'power')
    v.check('number of runs', d.run_ctr == R)
    i = v.choice('run read', list(range(R))); z = v.index('z', runs[i].cnt)
    same_run(v, runs[i], d.get_run(i, z), z, ''); v.eq('parameter', d.get_run_param(i), runs[i].param)
    same_run(v, runs[-1], d.get_run(), runs[-1].cnt - 1, 'last '); v.eq('parameter of the last run', d.get_run_param(), runs[-1].param)
    for bad in (R, R + 3, -1):
        v.raises('run %+d' % (bad - R if bad >= 0 else bad), IndexError, lambda: d.get_run(bad)); v.raises('parameter of run %+d' % (bad - R if bad >= 0 else bad), IndexError, lambda: d.get_run_param(bad))
    for j in range(R): same_run(v, runs[j], d.get_next_run(), runs[j].cnt - 1, 'next ')
    v.check('no more runs', d.get_next_run() is None)
    d.tables_file.close()
    if other == 'other parameter':
        d = m.DFGReader(f, 'length'); same_run(v, old, d.get_run(0), old.cnt - 1, 'other parameter '); d.tables_file.close()
