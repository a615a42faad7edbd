from vc.registry import contract
from .ssfm import *

def weight(eta):
    """Richardson weight of the fine solution for a method of order eta-2 (locally eta-1)"""
    p = {3: 4.0, 5: 16.0}.get(eta) or 2.0 ** (eta - 1.0)
    return p / (p - 1.0)

def rule(dz, dist, delta, tol, eta, dzmin):
    """(accepted, proposed step) of Sinkin et al., J. Lightwave Technol. 21, 61 (2003)"""
    f = 2.0 ** (1.0 / eta)
    if delta > 2.0 * tol:
        return (False, dz / 2.0) if dz / 2.0 >= dzmin else (True, dz)
    if delta >= tol: return (True, dz / f) if dz / f >= dzmin else (True, dz)
    if delta >= 0.5 * tol: return True, dz
    return True, dz * f

def difference(v, F, C):
    """relative difference of the fine and the coarse solution (absolute for a dark field)"""
    np = v.np
    m = np.sqrt(np.sum(np.abs(F) ** 2)); d = np.sqrt(np.sum(np.abs(F - C) ** 2))
    return d / m if v.decided(m > 0.0) else d

@contract('C11', 'one iteration of the step control', under=['SSFM.integrate_over_dz', 'SSFM.CalculateLocalError'], samples=120)
def iteration(v):
    np = v.np
    n = v.even('n'); L = v.pos('L', s=(0.1, 3.0))
    s, p, g, beta, gain = prepared(v, n)
    s.dz = v.pos('dz', s=(0.003, 2.0)); s.local_error = tol = v.pos('tol', s=(1e-6, 1e-1)); s.dz_min = dzmin = v.pos('dzmin', s=(1e-4, 0.2))
    s.eta = eta = v.choice('eta', [5, 3, 4]); d = v.real('d') if v.symbolic else v.choice('dir', [1, -1]); rho = weight(eta)
    if v.symbolic: adv = v.op('advance')
    else:
        # a step of any size multiplies the field by something close to one, so that step sizes stay reasonable
        a, w, q = v.any('a', s=(0.0, 2.0)), v.any('w', s=(0.5, 8.0)), v.any('q', s=(0.3, 1.5))
        def adv(A, h, dr): return A * (1.0 + tol * a * np.sin(w * np.log(h) + dr * np.arange(len(A))) * (h / L) ** q * 4.0)
    A0 = v.carr('X', n); s.A[:] = A0
    fine = lambda A, dz: adv(adv(A, dz, d), dz, d)
    mem = {'A': A0}
    s.Advance = lambda A, h, di: adv(A, h, di)
    if not v.symbolic:
        # an independent model of the whole integration
        A = v.snapshot(A0); dist = L; dz = min(s.dz, L / 2.0); kept = None; total = 0.0; k = 0; rejected = 0
        while dist > 0.0:
            k += 1; v.assume(k < 3000)
            F = fine(A, dz); C = adv(A, 2.0 * dz, d); e = difference(v, F, C)
            # no statement about decisions that rounding can turn
            v.assume(all(abs(e / tol - x) > 1e-7 for x in (0.5, 1.0, 2.0)))
            ok, nxt = rule(dz, dist, e, tol, eta, dzmin)
            if ok:
                A = rho * F - (rho - 1.0) * C; dist -= 2.0 * dz; total += 2.0 * dz
                v.assume(dist == 0.0 or abs(2.0 * nxt / dist - 1.0) > 1e-9)
                if 2.0 * nxt > dist and dist > 0.0: kept = nxt; nxt = dist / 2.0
            dz = nxt
        s.integrate_over_dz(L, d)
        v.eq('field', s.A, A, tol=1e-10); v.eq('distance covered', total, L); v.eq('step for the next call', s.dz, dz if kept is None else kept)
        return
    def setup(Lp):
        A = Lp.fresh_arr('field', n)
        s.A[:] = A
        if Lp.phase == 'b': dist = Lp.fresh('dist', pos=True)
        else: dist = Lp.fresh('rest', pos=True) if v.choice('left', [True, False]) else 0.0
        dz = Lp.fresh('dz', pos=True)
        if Lp.phase == 'b': v.assume(2.0 * dz <= dist)
        Lp['dist'] = dist; Lp['dz'] = dz
        Lp['force_last_dz'] = forced = v.choice('shortened', [True, False])
        kept = None
        if forced: kept = Lp.fresh('kept', pos=True); Lp.put('return_dz', kept)
        mem.update(A=v.snapshot(A), dist=dist, dz=dz, forced=forced, kept=kept, body=True)
    def check(Lp, when):
        if when == 'entry':
            v.eq('first step: field', s.A, A0); v.eq('first step: distance', Lp['dist'], L)
            v.eq('first step: size', Lp['dz'], s.dz if v.decided(2.0 * s.dz <= L) else L / 2.0)
            v.true('first step: nothing shortened before', not Lp['force_last_dz'])
            return
        dz, dist = mem['dz'], mem['dist']
        F = fine(mem['A'], dz); C = adv(mem['A'], 2.0 * dz, d); delta = difference(v, F, C)
        ok, nxt = rule(dz, dist, delta, tol, eta, dzmin)
        if not ok:
            v.eq('rejected: field kept', s.A, mem['A']); v.eq('rejected: position kept', Lp['dist'], dist); v.eq('rejected: half the step', Lp['dz'], nxt)
            v.true('rejected: only above twice the tolerance', delta > 2.0 * tol); return
        v.true('accepted: within twice the tolerance or at the smallest step', (delta <= 2.0 * tol) | (dz / 2.0 < dzmin))
        v.eq('accepted: extrapolated field', s.A, rho * F - (rho - 1.0) * C)
        rest = dist - 2.0 * dz
        v.eq('accepted: distance', Lp['dist'], rest); v.true('accepted: never beyond the end', Lp['dist'] >= 0.0)
        if v.decided(2.0 * nxt > rest) and v.decided(rest > 0.0):
            v.eq('accepted: last step shortened to the end', Lp['dz'], rest / 2.0); v.true('accepted: shortened', Lp['force_last_dz']); v.eq('accepted: proposed step kept', Lp['return_dz'], nxt)
        else:
            v.eq('accepted: next step', Lp['dz'], nxt); v.true('accepted: mark kept', Lp['force_last_dz'] == mem['forced'])
            if mem['forced']: v.eq('accepted: earlier proposed step kept', Lp['return_dz'], mem['kept'])
    v.loop('integrate_over_dz', setup, check)
    s.integrate_over_dz(L, d)
    v.eq('end: field', s.A, mem['A']); v.eq('end: nothing left', mem['dist'], 0.0)
    v.eq('end: step for the next call', s.dz, mem['kept'] if mem['forced'] else mem['dz'])

@contract('C11', 'local error estimate', under=['SSFM.CalculateLocalError'], samples=30)
def local_error(v):
    np = v.np; n = v.even('n')
    s, p, g, beta, gain = prepared(v, n)
    F = v.carr('F', n); C = v.carr('C', n)
    if v.choice('dark', [False, True]): F = v.arr(n, lambda k: 0.0 + 0j)
    s.Af[:] = F; s.Ac[:] = C
    d = np.sqrt(np.sum(np.abs(F - C) ** 2)); m = np.sqrt(np.sum(np.abs(F) ** 2))
    e = s.CalculateLocalError()
    if v.decided(m > 0.0): v.eq('relative difference of fine and coarse solution', e, d / m)
    else: v.eq('absolute difference for a dark field', e, d)
    v.true('not negative', e >= 0.0)

@contract('C11', 'recorded fields and positions correspond', under=['SSFM.propagate'], fftw=(False, True), layout=True, samples=60)
def records(v):
    """the integration over one output step is an arbitrary field transformation"""
    n = v.even('n'); np = v.np
    p, g = new_pulse(v, n=n)
    L = v.pos('L', s=(0.1, 3.0)); N = v.int('N', 1, s=(1, 6)); d = L / N
    beta = v.rarr('beta', n); gain = v.rarr('gain', n)
    f = fiber(v, L, 0.0, beta, gain)
    s = solver(v)
    reload = v.choice('reload', [True, False])
    A0 = shifted(v, to_time(v, g.A))
    mem = {'k': 0}
    seen = []
    F = v.carr2('G', n, N + 1)                    # field after k output steps
    def fld(k): return F[:, k]
    def stub(dz, direction=1):
        k = mem['k']
        v.eq('length of an output step', dz, d); v.true('forwards', direction == 1)
        v.eq('field at the start of an output step', s.A, A0 if isinstance(k, int) and k == 0 else fld(k))
        if reload: v.eq('fibre loaded at the start of the step', mem['z'], k * d, scale=L); v.eq('dispersion at the start of the step', s.betas, shifted(v, beta + k * d * 1.0)); v.eq('nonlinearity at the start of the step', s.gamma, gam(k * d))
        else: v.eq('fibre loaded at the start', mem['z'], 0.0); v.eq('dispersion', s.betas, shifted(v, beta)); v.eq('nonlinearity', s.gamma, gam(0.0))
        v.eq('gain', -s.alpha, shifted(v, gain))
        s.A[:] = fld(k + 1)
        if not v.symbolic: mem['k'] = k + 1
    s.integrate_over_dz = stub
    def get_betas(pulse, z=0):
        mem['z'] = z; return beta + z * 1.0
    f.get_betas = get_betas
    gam = v.fun('gamma', pos=True)
    f.set_gamma_function(gam)
    def setup(Lp):
        mem['k'] = Lp.k
        if v.decided(Lp.k > 0): s.A[:] = fld(Lp.k)
        else: mem['k'] = 0; s.A[:] = A0
    def check(Lp, when):
        if when == 'entry': v.eq('field when propagation starts', s.A, A0)
        else: v.eq('field after an output step', s.A, fld(Lp.k))
    v.loop('propagate', setup, check)
    z, AW, AT, q = s.propagate(p, f, N, reload_fiber_each_step=reload)
    j = v.index('j', N)
    un = lambda a: unshifted(v, a)
    v.eq('position', z[j + 1], (j + 1) * d)
    v.eq('recorded field in time', AT[:, j], un(fld(j + 1)))
    v.eq('recorded spectrum', AW[:, j], un(spectrum(v, fld(j + 1))))
    v.eq('returned pulse', q.AT, un(fld(N)))
    v.check('one column per output step', True)
    v.same_len('columns', AW.T, N); v.same_len('columns in time', AT.T, N); v.same_len('rows', AW, n)
