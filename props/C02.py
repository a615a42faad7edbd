from vc.registry import contract
from .common import *
F = ['FFT_t', 'IFFT_t', 'Pulse.set_AW', 'Pulse.set_AT', 'Pulse._get_AW', 'Pulse._get_AT']

@contract('C02', 'writing the spectrum determines both views', under=F, samples=30, past='pulse')
def set_aw(v):
    p, g = new_pulse(v)
    A = g.A
    v.eq('AW reads back', p.AW, A)
    v.eq('AT is the transform', p.AT, to_time(v, A))
    v.eq('inverse transform of AT is AW', to_freq(v, p.AT), A)
    v.eq('grid untouched', p.W_THz, g.W)

@contract('C02', 'writing the time field determines both views', under=F, samples=30, past='pulse')
def set_at(v):
    p, g = new_pulse(v)
    B = v.carr('B', g.n)
    keep = v.snapshot(B)
    p.set_AT(B)
    v.eq('AT reads back', p.AT, B)
    v.eq('AW is the inverse transform', p.AW, to_freq(v, keep))
    v.eq('the caller\'s array is untouched', B, keep)

@contract('C02', 'energy is the same in both views', under=F, samples=30, past='pulse')
def parseval(v):
    p, g = new_pulse(v)
    np = v.np
    v.eq('sum |AT|^2 = n sum |AW|^2', np.sum(abs2(v, p.AT)), g.n * np.sum(abs2(v, p.AW)))
    B = v.carr('B', g.n)
    p.set_AT(B)
    v.eq('after a time write', np.sum(abs2(v, B)), g.n * np.sum(abs2(v, p.AW)))

@contract('C02', 'views are copies and writes copy their argument', under=F, samples=20)
def copies(v):
    p, g = new_pulse(v)
    A = g.A; keep = v.snapshot(A)
    x = p.AW; x[:] = 7.0
    y = p.AT; y[:] = 3.0
    v.eq('AW unaffected by edits of what it returned', p.AW, keep)
    v.eq('AT unaffected by edits of what it returned', p.AT, to_time(v, keep))
    B = v.carr('B', g.n); kb = v.snapshot(B)
    p.set_AW(B)
    B[:] = 0.0
    v.eq('field unaffected by later edits of the array written', p.AW, kb)
    C = v.carr('C', g.n); kc = v.snapshot(C)
    p.set_AT(C)
    C[:] = 0.0
    v.eq('field unaffected by later edits of the time array written', p.AT, kc)

@contract('C02', 'the first field stored is a copy too', under=F, samples=30)
def first_copy(v):
    p, g = new_pulse(v, field=False); n = g.n; kind = v.choice('first', ['AW', 'AT', 'AW after a change of size', 'AT after a change of size'])
    if 'size' in kind: p.set_AW(v.carr('old', n)); n = v.even('m'); p.set_NPTS(n)
    A = v.carr('A', n); keep = v.snapshot(A)
    if kind[:2] == 'AW': p.set_AW(A)
    else: p.set_AT(A)
    A[:] = 5.0
    if kind[:2] == 'AW': v.eq('spectrum unaffected by later edits', p.AW, keep)
    else: v.eq('field unaffected by later edits', p.AT, keep)
    v.eq('the array of the caller is its own', A, v.arr(n, lambda k: 5.0))
    q, h = new_pulse(v, 'q', field=False); q.set_NPTS(n); q.set_AW(A); p.set_AW(v.carr('B', n))
    p2, h2 = new_pulse(v, 'r', field=False); p2.set_NPTS(n); p2.set_AW(A); x = v.carr('C', n); p2.set_AW(x)
    v.eq('pulses given the same array share nothing', q.AW, v.arr(n, lambda k: 5.0)); v.eq('second pulse', p2.AW, x)

@contract('C02', 'the type of one field stored never affects the next', under=F, samples=60)
def types(v):
    p, g = new_pulse(v, field=False); n = g.n; np = v.np
    if v.choice('resized', [False, True]): p.set_AW(v.carr('old', n)); n = v.even('m'); p.set_NPTS(n)
    for j in range(2):
        kind = v.choice('first %d' % j, ['real AW', 'real AT', 'scalar', 'sequence'])
        x = v.rarr('x%d' % j, n)
        if kind == 'scalar': x = v.real('z%d' % j); p.set_AW(x); x = v.arr(n, lambda k: x0(x))
        elif kind == 'real AT':
            if not v.symbolic and v.choice('single', [False, True]): x = x.astype('float32')
            p.set_AT(x); x = to_freq(v, x)
        elif kind == 'sequence' and not v.symbolic: p.set_AW([float(y) for y in x])
        else:
            if not v.symbolic: x = v.choice('type', [lambda a: a, lambda a: a.astype('float32'), lambda a: (10 * a).astype(int), lambda a: a > 0])(x)
            p.set_AW(x)
        v.eq('field %d' % j, p.AW, x * 1.0); v.eq('field %d in time' % j, p.AT, to_time(v, x * 1.0))
        B = v.carr('B%d' % j, n); at = v.choice('then %d' % j, ['AW', 'AT'])
        (p.set_AW if at == 'AW' else p.set_AT)(B)
        B = B if at == 'AW' else to_freq(v, B)
        v.eq('complex field after field %d' % j, p.AW, B); v.eq('complex field in time after field %d' % j, p.AT, to_time(v, B))
def x0(x): return x

@contract('C02', 'the field follows any sequence of writes', under=F, samples=40)
def history(v):
    p, g = new_pulse(v)
    cur = g.A
    for j in range(3):
        op = v.choice('op%d' % j, ['AW', 'AT', 'scalar'] if j else ['AW', 'AT', 'resize'])
        if op == 'AW': cur = v.carr('X%d' % j, g.n); p.set_AW(cur)
        elif op == 'AT':
            B = v.carr('Y%d' % j, g.n); p.set_AT(B); cur = to_freq(v, B)
        elif op == 'scalar':
            z = v.real('z%d' % j); p.set_AW(z); cur = v.arr(g.n, lambda k: z)
        else:
            n2 = v.even('m'); p.set_NPTS(n2); g.n = n2
            cur = v.carr('X%d' % j, n2); p.set_AW(cur)
        v.eq('AW after write %d' % j, p.AW, cur)
        v.eq('AT after write %d' % j, p.AT, to_time(v, cur))

@contract('C02', 'field of the wrong length is refused and nothing is lost', under=F, samples=20)
def wrong_length(v):
    p, g = new_pulse(v)
    m = v.even('m', hmin=2)
    v.assume(m != g.n)
    v.raises('refused', (ValueError,), lambda: p.set_AW(v.carr('X', m)))
    v.eq('field kept', p.AW, g.A)

@contract('C02', 'a pulse without a field refuses to be read', under=F, samples=5)
def unset(v):
    p, g = new_pulse(v, field=False)
    v.raises('AW', (RuntimeError,), lambda: p.AW)
    v.raises('AT', (RuntimeError,), lambda: p.AT)

@contract('C02', 'transform pair: inverse, linear, on arrays of any even length', under=['FFT_t', 'IFFT_t'], samples=30)
def transforms(v):
    m = v.load('pynlo.util'); np = v.np
    n = v.even('n')
    x = v.carr('x', n); y = v.carr('y', n); a = v.cplx('a')
    kx = v.snapshot(x)
    v.eq('IFFT_t(FFT_t(x))', m.IFFT_t(m.FFT_t(x)), x)
    v.eq('FFT_t(IFFT_t(x))', m.FFT_t(m.IFFT_t(x)), x)
    v.eq('linear forward', m.FFT_t(a * x + y), a * m.FFT_t(x) + m.FFT_t(y))
    v.eq('linear inverse', m.IFFT_t(a * x + y), a * m.IFFT_t(x) + m.IFFT_t(y))
    v.eq('to frequency', m.FFT_t(x), to_freq(v, x)); v.eq('to time', m.IFFT_t(x), to_time(v, x))
    v.eq('argument kept', x, kx)
    v.eq('energy', np.sum(abs2(v, m.IFFT_t(x))), n * np.sum(abs2(v, x)))

@contract('C02', 'transform pair along a chosen axis of a 2-d array', under=['FFT_t', 'IFFT_t'], samples=20)
def transforms2(v):
    m = v.load('pynlo.util')
    n = v.even('n'); k = v.even('k')
    x = v.carr2('x', n, k)
    for ax in (0, 1):
        v.eq('round trip axis %d' % ax, m.IFFT_t(m.FFT_t(x, ax), ax), x)
    j = v.int('j', 0, s=(0, 7)); v.assume(j < k); v.assume(j < n)
    v.eq('columns are transformed independently', m.FFT_t(x, 0)[:, j], to_freq(v, x[:, j]))
    v.eq('rows are transformed independently', m.IFFT_t(x, 1)[j, :], to_time(v, x[j, :]))
