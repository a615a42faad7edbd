from vc.registry import contract
from .ssfm import *

class Out:
    """pulse returned by a propagation whose average power is P"""
    _vc_ghost = True
    def __init__(self, P, frep): self.P = P; self.frep_mks = frep * 1e6; self.frep_MHz = frep
    def calc_epp(self): return self.P / self.frep_mks

@contract('C13', 'gain goal', under=['SSFM.propagate_to_gain_goal'], samples=120)
def goal(v):
    """propagation is used through its contract: output power is an arbitrary (monotone) function of the requested power"""
    np = v.np; s = solver(v)
    G = v.pos('goal', s=(0.05, 5.0), log=True); tol = v.pos('tol', s=(1e-4, 0.2), log=True); frep = v.pos('frep', s=(10.0, 500.0))
    N = v.int('N', 1, s=(1, 9))
    if v.symbolic: P = v.fun('P', pos=True)
    else:
        a = v.pos('a', s=(0.2, 4.0)); b = v.pos('b', s=(0.0, 0.3)); c = v.pos('c', s=(0.001, 0.2))
        P = lambda x: a * x / (1.0 + b * x / G) + c * G
        v.assume(b == 0.0 or a / b + c > 1.3)          # the goal is within reach
    pulse, fib = object(), object()
    calls = []
    def stub(pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
        v.check('same pulse and fibre in every run', pulse_in is pulse and fiber is fib)
        r = ('z', 'AW', 'AT', Out(P(output_power), frep))
        calls.append((n_steps, output_power, r)); return r
    s.propagate = stub
    guess = v.choice('guess', [False, True]); g0 = v.pos('g0', s=(0.3, 3.0)) if guess else None
    def setup(L):
        L['scalefactor'] = x = L.fresh('used'); L['scalefactor_revised'] = L.fresh('next')
        L['modeled_avg_power'] = P(G * x)
        if v.choice('met', [True, False]): L['output_scale'] = x
        else:
            L['output_scale'] = L.fresh('best')
            v.assume(abs(P(G * x) - G) / G > tol)
        L['pulse_out'] = Out(P(G * x), frep)
    def check(L, when):
        x = L['scalefactor']
        v.eq('%s: modelled power belongs to the latest setting' % when, L['modeled_avg_power'], P(G * x))
        far = abs(P(G * x) - G) / G > tol
        if not v.decided(far): v.eq('%s: the setting that met the goal is reported' % when, L['output_scale'], x)
        if when == 'entry': v.eq('search starts from the guess', x, g0 if guess else 1.0)
        else: v.check('%s: trial runs use one output step' % when, len(calls) > 0)
    v.loop('propagate_to_gain_goal', setup, check)
    (z, AW, AT, out), scale = s.propagate_to_gain_goal(pulse, fib, N, power_goal=G, scalefactor_guess=g0, powertol=tol)
    n, op, r = calls[-1]
    v.eq('requested number of output steps', n, N); v.eq('returned field belongs to the reported setting', op, scale * G)
    v.check('returned run is the last one', out is r[3])
    v.le('goal met within the tolerance', abs(out.P - G) / G, tol)
    for i, (n, op, r) in enumerate(calls[:-1]): v.eq('trial %s in one step' % ('run',), n, 1)
    if not v.symbolic: v.eq('first trial', calls[0][1], G * (g0 if guess else 1.0))

@contract('C13', 'gain goal with a real propagation', under=['SSFM.propagate_to_gain_goal', 'SSFM.propagate'], samples=25, sym=False, bounded='sampled pulses and saturating fibres')
def real(v):
    np = v.np; n = v.even('n', s=(16, 32))
    p, g = new_pulse(v, n=n)
    P0 = p.calc_epp() * p.frep_mks
    L = v.pos('L', s=(0.1, 1.0)); a = v.pos('a', s=(0.5, 2.0)); b = v.pos('b', s=(0.0, 0.2))
    G = P0 * v.pos('ratio', s=(1.5, 20.0), log=True); tol = v.pos('tol', s=(1e-3, 0.1))
    beta = v.rarr('beta', n)
    f = fiber(v, L, 0.0, beta, beta)
    f.get_gain = lambda pulse, output_power=1: np.full(n, np.log(P0 * 0.5 / P0 + a * output_power / (1 + b * output_power / G) / P0) / L)
    s = solver(v, dz=v.pos('dz', s=(0.01, 1.0)))
    N = v.int('N', 1, s=(1, 4))
    (z, AW, AT, q), scale = s.propagate_to_gain_goal(p, f, N, power_goal=G, powertol=tol)
    v.le('goal met within the tolerance', abs(q.calc_epp() * q.frep_mks - G) / G, tol + 1e-9)
    v.check('output steps', AW.shape == (n, N))
    z2, AW2, AT2, q2 = s.propagate(p, f, N, output_power=scale * G)
    v.eq('reported setting reproduces the field', q.AW, q2.AW)
    same_pulse(v, p, g, g.A, 'input pulse: ')
