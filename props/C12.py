from vc.registry import contract
from .ssfm import *

@contract('C12', 'degree of coherence of any runs', under=['SSFM.calculate_coherence', 'PulseBase.create_cloned_pulse', 'PulseBase.add_noise'], samples=60)
def coherence(v):
    """propagation is an arbitrary function returning arbitrary spectra"""
    np = v.np; n = v.even('n', s=(8, 32)); m = v.int('m', 1, s=(1, 5)); K = v.choice('runs', [2, 3, 4] if v.symbolic else [2, 3, 4, 5, 6, 7, 8, 12, 17])
    p, g = new_pulse(v, n=n)
    zero = v.arr(n, lambda k: 0.0)
    f = fiber(v, v.pos('L'), 0.0, zero, zero)
    s = solver(v)
    E = [v.carr2('E%d' % i, n, m) for i in range(K)]
    same = v.choice('identical runs', [False, True])
    if same: E = [E[0]] * K
    if not v.symbolic: g.A = np.random.normal(size=n) + 1j * np.random.normal(size=n); p.set_AW(g.A)
    AT = v.carr2('AT', n, m); z = v.rarr('z', m); out = object()
    calls = []
    power = v.pos('P'); reload = v.choice('reload', [False, True]) if K != 4 else True
    def stub(pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
        calls.append((pulse_in, np.array(pulse_in.AW), fiber, n_steps, output_power, reload_fiber_each_step))
        r = (z, E[len(calls) - 1], AT, out)
        return r
    s.propagate = stub
    noise = v.choice('noise', ['one_photon_freq', 'sqrt_N_freq']) if K == 2 else 'sqrt_N_freq'; seed = v.choice('seed', [None, 3]) if not v.symbolic else 3
    W, res = s.calculate_coherence(p, f, num_trials=K, random_seed=seed, noise_type=noise, n_steps=m, output_power=power, reload_fiber_each_step=reload)
    acc = 0.0
    for i in range(K):
        for j in range(K):
            if i != j: acc = acc + np.conj(E[i]) * E[j] / np.sqrt(np.abs(E[i]) ** 2 * np.abs(E[j]) ** 2)
    v.eq('degree of coherence', W, np.abs(acc / (K * (K - 1.0))))
    if same: v.eq('identical runs are coherent', W, v.np.abs(AT) * 0.0 + 1.0)
    if not v.symbolic: v.true('between 0 and 1', (W >= 0) & (W <= 1 + 1e-12))
    else: v.true('not negative', W >= 0.0)
    v.check('number of runs', len(calls) == K and len(res) == K)
    for i, (q, aw, fb, ns, P, rl) in enumerate(calls):
        v.check('run %d: own copy of the pulse' % i, q is not p and all(q is not c[0] for c in calls[:i])); v.check('run %d: fibre' % i, fb is f)
        v.eq('run %d: steps' % i, ns, m); v.eq('run %d: power' % i, P, power); v.check('run %d: reload' % i, rl is reload)
        same_grid(v, 'run %d: ' % i, q, p)
        v.check('run %d: its spectra are returned' % i, res[i][1] is E[i] and res[i][0] is z and res[i][2] is AT and res[i][-1] is out)
        if not v.symbolic: v.check('run %d: own noise' % i, bool(np.any(aw != g.A)) and all(bool(np.any(aw != c[1])) for c in calls[:i]) and float(np.max(np.abs(aw - g.A))) < 0.1 * float(np.max(np.abs(g.A))))
    same_pulse(v, p, g, g.A, 'input pulse: ')

@contract('C12', 'a seed reproduces the result', under=['SSFM.calculate_coherence'], samples=15, sym=False, bounded='sampled runs; the random number generator is external')
def seeded(v):
    np = v.np; n = v.even('n', s=(16, 32))
    p, g = new_pulse(v, n=n)
    f = fiber(v, 0.2, v.pos('gamma', s=(1e-3, 1e-2)), v.rarr('beta', n), v.arr(n, lambda k: 0.0))
    s = solver(v, dz=0.05, local_error=1e-3)
    seed = v.int('seed', 0, s=(0, 1000)); K = v.choice('runs', [2, 3, 5, 9]); N = v.choice('steps', [1, 3])
    kind = v.choice('noise', ['one_photon_freq', 'sqrt_N_freq'])
    np.random.seed(1)
    W1, r1 = s.calculate_coherence(p, f, num_trials=K, random_seed=seed, noise_type=kind, n_steps=N)
    np.random.seed(2)
    s = solver(v, dz=0.05, local_error=1e-3)       # (a solver remembers its last step size)
    W2, r2 = s.calculate_coherence(p, f, num_trials=K, random_seed=seed, noise_type=kind, n_steps=N)
    v.eq('coherence', W1, W2, tol=1e-13); v.check('shape', W1.shape == (n, N)); v.true('between 0 and 1', (W1 >= 0) & (W1 <= 1 + 1e-12))
    for i in range(K): v.eq('run %d' % i, r1[i][1], r2[i][1], tol=1e-14)
    for i in range(K):
        for j in range(i): v.check('runs %d and %d differ' % (i, j), bool(np.any(r1[i][1] != r1[j][1])))
    acc = sum(np.exp(1j * (np.angle(r1[j][1]) - np.angle(r1[i][1]))) for i in range(K) for j in range(K) if i != j)
    v.eq('coherence of the returned runs', W1, np.abs(acc) / (K * (K - 1)))
    same_pulse(v, p, g, g.A, 'input pulse: ')

@contract('C12', 'a seed determines the noise of every run', under=['SSFM.calculate_coherence', 'PulseBase.add_noise'], samples=30)
def seeded_parts(v):
    """propagation is an arbitrary function of the pulse; the generator's contract: the numbers drawn are a function of the seed and of the draws since it was set"""
    np = v.np; n = v.even('n', s=(8, 32)); K = v.choice('runs', [2, 3] if v.symbolic else [2, 3, 6])
    p, g = new_pulse(v, n=n); zero = v.arr(n, lambda k: 0.0)
    f = fiber(v, v.pos('L'), 0.0, zero, zero)
    seed = v.int('seed', 0, s=(0, 1000)); kind = v.choice('noise', ['one_photon_freq', 'sqrt_N_freq']) if K == 2 else 'one_photon_freq'
    z = v.array([0.0, 1.0]); F = v.fun('propagated', cplx=True); out = []
    rng = v.load('pynlo.light.PulseBase').np.random
    for t in range(2):
        s = solver(v); seen = []
        def stub(pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
            A = pulse_in.AW; seen.append(v.snapshot(A)); E = np.transpose(np.vstack((A, A * 2.0)))
            return z, E, E, pulse_in
        s.propagate = stub
        if t or v.choice('before', [True, False]): rng.normal(size=5); rng.uniform(size=4)          # (whatever was drawn before)
        W, res = s.calculate_coherence(p, f, num_trials=K, random_seed=seed, noise_type=kind, n_steps=2)
        out.append((W, seen))
    v.check('runs', len(out[0][1]) == K and len(out[1][1]) == K)
    for i in range(K): v.eq('noisy pulse of run %d' % i, out[0][1][i], out[1][1][i])
    v.eq('coherence', out[0][0], out[1][0])
    same_pulse(v, p, g, g.A, 'input pulse: ')
