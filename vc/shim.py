"""Symbolic stand-ins (contracts) for numpy / scipy / matplotlib / ... used by the code under verification."""
import types, math as _math, builtins as _bi, operator
from fractions import Fraction
import numpy as _np
from .terms import *
from .engine import ctx, prove as engine_prove
from .symval import *
from . import symval as SVM

def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

class Opaque:
    """inert object: every attribute / call gives another one (plotting, logging)"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Opaque(self._n + '.' + k)
    def __call__(self, *a, **k): return Opaque(self._n + '()')
    def __setattr__(self, k, v): pass
    def __getitem__(self, k): return Opaque(self._n + '[]')
    def __iter__(self): return iter(())
class Unsup:
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, k):
        if k.startswith('__') and k not in ('__call__',): raise AttributeError(k)
        return Unsup(self._n + '.' + k)
    def __call__(self, *a, **k): raise Unsupported('call of unmodelled %s' % self._n)

class ShimModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('%s.%s is not modelled' % (self.__name__, k))

_BENIGN = {'order', 'casting', 'subok', 'like', 'check_finite', 'assume_sorted', 'overwrite_x', 'workers', 'threads', 'planner_effort', 'auto_align_input', 'auto_contiguous', 'avoid_copy', 'flags'}
_DEFAULT = {'keepdims': (False, None), 'where': (True,), 'out': (None,), 'initial': (None,), 'dtype': (None,), 'weights': (None,), 'returned': (False,), 'norm': (None, 'backward'), 'equal_nan': (False,)}
def _opt(k, *allowed):
    """options without a contract are refused, never ignored"""
    for x, y in k.items():
        if x in _BENIGN or x in allowed or (x in _DEFAULT and any(y is d or (isinstance(d, str) and isinstance(y, str) and y == d) for d in _DEFAULT[x])): continue
        raise Unsupported('option %s=%r' % (x, y))
# ------------------------------------------------------------------ ufuncs
def ufunc(f, kindf):
    def u(*args, **kw):
        out = kw.pop('out', None); wh = kw.pop('where', True); dt = kw.pop('dtype', None)
        _opt(kw)
        if len(args) > u.nin: out = args[u.nin]; args = args[:u.nin]
        if isinstance(out, tuple): out = out[0]
        for a in args:
            if a is None or isinstance(a, str): raise TypeError('ufunc not supported for the input types')
        ks = [kind_of(a) for a in args]
        k = kindf(*ks)
        if dt is not None: k = kind_of_dtype(dt)
        r = elementwise(f, k, *args)
        if out is not None:
            if wh is not True: r = where(wh, r, out)
            out[...] = r
            return out
        return unwrap0(r)
    u.nin = f.__code__.co_argcount if hasattr(f, '__code__') else 1
    return u
_f = lambda *ks: kmax(*(ks + ('f',)))
_ff = lambda *ks: 'f'
def _same(k): return 'i' if k == 'b' else k

def t_sign(x):
    s = sign_of(x)
    if s == 'pos': return T1
    if s == 'neg': return const(-1)
    if not x.p: return T0
    p = mk_ind(mk_gt(x, T0)); n = mk_ind(mk_gt(T0, x))
    return sub(p, n)
def t_round(x):
    if is_int(x): return x
    # round-half-even: agree with floor(x+1/2) except at ties, which carry no meaning in exact arithmetic
    return t_floor(add(x, const(Fraction(1, 2))))
def t_angle(z):
    if is_real(z):
        s = sign_of(z)
        if s in ('pos', 'nonneg', 'zero'): return T0
        return mk_ite(mk_gt(T0, z), const(_math.pi), T0)
    return mk_fn('angle', z)
def t_arctan2(y, x):
    if not y.p and sign_of(x) in ('pos', 'zero', 'nonneg'): return T0
    return mk_fn('arctan2', y, x)
def t_tan(x): return mul(mk_sin(x), power(mk_cos(x), -1))
def t_sinc(x):
    if not x.p: return T1
    px = scale(x, const_val(const(_math.pi)))
    if is_const(x): return mul(mk_sin(px), power(px, -1))
    if x.p[lead(x)] < 0: x = neg(x)
    return mk_fn('sinc', x)
def t_arc(name):
    def f(x):
        if is_const(x):
            c = to_mp(const_val(x))
            if name in ('arcsin', 'arccos') and abs(c) > 1: raise Unsupported('arc function outside its domain')
            return const_fr(from_mp({'arcsin': mpmath.asin, 'arccos': mpmath.acos, 'arctan': mpmath.atan, 'arcsinh': mpmath.asinh}[name](c)))
        # odd functions: canonical sign
        if name in ('arcsin', 'arctan', 'arcsinh') and x.p[lead(x)] < 0:
            return neg(mk_fn(name, neg(x)))
        if name == 'arcsinh': return mk_log(add(x, power(add(T1, mul(x, x)), Fraction(1, 2))))
        return mk_fn(name, x)
    return f
import mpmath
def t_log(x): return mk_log(x)
def t_max(x, y):
    b = mk_gt(y, x)
    if b is BT: return y
    if b is BF: return x
    return mk_ite(b, y, x)
def t_min(x, y):
    b = mk_gt(x, y)
    if b is BT: return y
    if b is BF: return x
    return mk_ite(b, y, x)
def t_isnan(x):
    """arccos / arcsin of something outside [-1, 1] (or of the root of something negative); other values are numbers"""
    cond = []
    def domains(t):
        for m in t.p:
            for a, e in m:
                if a.kind == 'base':
                    if Fraction(e).denominator == 2 and is_real(a.data) and sign_of(a.data) not in ('pos', 'nonneg', 'zero'): cond.append(mk_gt(T0, a.data))
                    domains(a.data)
                elif a.kind == 'fn' and a.data[0] in ('arccos', 'arcsin'):
                    y = a.data[1]; cond.append(mk_gt(mul(y, y), T1)); domains(y)
    if not any(a.kind == 'fn' and a.data[0] in ('arccos', 'arcsin') for m in x.p for a, e in m): return T0
    domains(x)
    return mk_ind(mk_or(*cond)) if len(cond) > 1 else mk_ind(cond[0])
def t_floor(x):
    """the fractional part is dropped when the path decides that it lies in [0, 1)"""
    y = mk_floor(x)
    if len(x.p) <= 6 and all(a.kind == 'sym' for a in x.free):
        for m in y.p:
            if len(m) == 1 and m[0][0].kind == 'floor' and m[0][1] == 1 and y.p[m] == 1:
                r = m[0][0].data
                if all(engine_prove(b, ctx()) for b in (mk_ge(r, T0), mk_gt(T1, r))): return sub(y, from_atom(m[0][0]))
    return y
def t_ceil(x): return neg(t_floor(neg(x)))

def u2(op):
    def f(x, y): raise AssertionError
    def u(a, b, out=None, **kw):
        _opt(kw)
        r = SVM.nd_arith(op, a, b) if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)) else arith(op, a, b)
        if r is NotImplemented: raise TypeError('unsupported operand')
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): 
            pass
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r; return out
        return r
    u.reduce = Unsup('ufunc.reduce'); u.outer = lambda a, b: u(to_arr(a)[:, None], to_arr(b)[None, :])
    return u
def ucmp(op):
    def u(a, b, out=None, **kw):
        _opt(kw)
        r = SVM.nd_cmp(op, a, b)
        if out is not None: out[...] = r; return out
        return r
    return u

U = dict(
    sqrt=ufunc(lambda x: power(x, Fraction(1, 2)), _f), exp=ufunc(lambda x: mk_exp(x), _f), log=ufunc(lambda x: mk_log(x), _f),
    log10=ufunc(lambda x: scale(mk_log(x), 1 / const_val(const(_math.log(10)))), _f),
    log2=ufunc(lambda x: scale(mk_log(x), 1 / const_val(const(_math.log(2)))), _f),
    log1p=ufunc(lambda x: mk_log(add(T1, x)), _f), expm1=ufunc(lambda x: sub(mk_exp(x), T1), _f),
    sin=ufunc(lambda x: mk_sin(x), _f), cos=ufunc(lambda x: mk_cos(x), _f), tan=ufunc(lambda x: t_tan(x), _f),
    sinh=ufunc(lambda x: mk_sinh(x), _f), cosh=ufunc(lambda x: mk_cosh(x), _f),
    tanh=ufunc(lambda x: mul(mk_sinh(x), power(mk_cosh(x), -1)), _f),
    arcsin=ufunc(lambda x: t_arc('arcsin')(x), _f), arccos=ufunc(lambda x: t_arc('arccos')(x), _f), arctan=ufunc(lambda x: t_arc('arctan')(x), _f),
    arcsinh=ufunc(lambda x: t_arc('arcsinh')(x), _f),
    arctan2=ufunc(lambda y, x: t_arctan2(y, x), _ff), hypot=ufunc(lambda x, y: power(add(mul(x, x), mul(y, y)), Fraction(1, 2)), _ff),
    abs=ufunc(lambda x: mk_abs(x), lambda k: 'f' if k == 'c' else _same(k)),
    conj=ufunc(lambda x: conj(x), lambda k: k), negative=ufunc(lambda x: neg(x), _same), positive=ufunc(lambda x: x, _same),
    square=ufunc(lambda x: mul(x, x), _same), sign=ufunc(lambda x: t_sign(x), _same), reciprocal=ufunc(lambda x: power(x, -1), _f),
    floor=ufunc(lambda x: t_floor(x), _f), ceil=ufunc(lambda x: t_ceil(x), _f), rint=ufunc(lambda x: t_round(x), _f),
    trunc=ufunc(lambda x: trunc_t(x), _f), deg2rad=ufunc(lambda x: scale(x, const_val(const(_math.pi / 180))), _f), rad2deg=ufunc(lambda x: scale(x, const_val(const(180 / _math.pi))), _f),
    maximum=ufunc(lambda x, y: t_max(x, y), kmax), minimum=ufunc(lambda x, y: t_min(x, y), kmax),
    fmax=ufunc(lambda x, y: t_max(x, y), kmax), fmin=ufunc(lambda x, y: t_min(x, y), kmax),
    isnan=ufunc(lambda x: t_isnan(x), lambda k: 'b'), isinf=ufunc(lambda x: T0, lambda k: 'b'), isfinite=ufunc(lambda x: T1, lambda k: 'b'),
    logical_not=ufunc(lambda x: mk_ind(mk_eq(x, T0)), lambda k: 'b'),
    sinc=ufunc(lambda x: t_sinc(x), _f),
    heaviside=ufunc(lambda x, y: add(mk_ind(mk_gt(x, T0)), mul(y, mk_ind(mk_eq(x, T0)))), _ff),
)
U['absolute'] = U['fabs'] = U['abs']; U['conjugate'] = U['conj']
U['radians'] = U['deg2rad']; U['degrees'] = U['rad2deg']

def np_real(x):
    if isinstance(x, (Arr, SV)): return x.real
    if isinstance(x, (list, tuple)): return to_arr(x).real
    return x.real
def np_imag(x):
    if isinstance(x, (Arr, SV)): return x.imag
    if isinstance(x, (list, tuple)): return to_arr(x).imag
    return x.imag
def np_angle(x, deg=False):
    r = unwrap0(elementwise(t_angle, 'f', x))
    return r * (180 / _math.pi) if deg else r

def shp(s):
    if isinstance(s, (list, tuple)): return tuple(dimT(x) for x in s)
    if isinstance(s, Arr): return tuple(dimT(x) for x in s)
    return (dimT(s),)
def _chk(sh):
    for n in sh:
        if is_const(n) and const_val(n) < 0: raise ValueError('negative dimensions are not allowed')
    return sh
def np_zeros(shape, dtype=None, order='C', **k):
    _opt(k)
    return zeros(_chk(shp(shape)), kind_of_dtype(dtype))
def np_ones(shape, dtype=None, order='C', **k):
    _opt(k)
    return mk_arr(_chk(shp(shape)), kind_of_dtype(dtype), lambda i: T1)
_emp = [0]
def np_empty(shape, dtype=None, order='C', **k):
    _opt(k)
    _emp[0] += 1
    kd = kind_of_dtype(dtype)
    s = arrsym('uninit%d' % _emp[0], real=kd != 'c')
    sh = _chk(shp(shape))
    return mk_arr(sh, kd, lambda i: mk_sel(s, i if i else (T0,)))
def np_full(shape, v, dtype=None, order='C'):
    t, k = lift(v)
    if dtype is not None: 
        k2 = kind_of_dtype(dtype); t = lift(coerce(t, k, k2))[0]; k = k2
    return mk_arr(shp(shape), k, lambda i: t)
def _like(a): return to_arr(a)
def np_zeros_like(a, dtype=None, **k):
    _opt(k)
    a = _like(a); return zeros(a.shapeT, kind_of_dtype(dtype) if dtype is not None else a.kind)
def np_ones_like(a, dtype=None, **k):
    _opt(k)
    a = _like(a); return mk_arr(a.shapeT, kind_of_dtype(dtype) if dtype is not None else a.kind, lambda i: T1)
def _new_array(shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
    if buffer is not None or strides is not None or offset: raise Unsupported('np.ndarray with a buffer')
    return np_empty(shape, dtype)
NEW_ARRAY[0] = _new_array
def np_empty_like(a, dtype=None, **k):
    _opt(k)
    a = _like(a); return np_empty(a.shape, dtype=dtype if dtype is not None else DTS[a.kind])
def np_full_like(a, v, dtype=None, **k):
    _opt(k)
    a = _like(a); return np_full(a.shape, v, dtype if dtype is not None else DTS[a.kind])
def np_array(x, dtype=None, copy=True, **k):
    _opt(k)
    a = to_arr(x)
    if dtype is not None: return a.astype(dtype)
    return a.copy() if copy else a
def np_asarray(x, dtype=None, **k):
    _opt(k)
    a = to_arr(x)
    if dtype is not None and kind_of_dtype(dtype) != a.kind: return a.astype(dtype)
    return a
def np_arange(*a, **k):
    dt = k.pop('dtype', None); _opt(k)
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    (lt, lk), (ht, hk), (st_, sk) = lift(lo), lift(hi), lift(st)
    kind = kmax(lk, hk, sk, 'i')
    if dt is not None: kind = kind_of_dtype(dt)
    d = sub(ht, lt)
    if st_ is not T1: d = mul(d, power(st_, -1))
    n = d if is_int(d) else t_ceil(d)
    if is_const(n) and const_val(n) < 0: n = T0
    elif not is_const(n) and sign_of(n) not in ('pos', 'nonneg') and not ctx().decide(mk_ge(n, T0)): n = T0
    return mk_arr((n,), kind, lambda i: add(lt, mul(i[0], st_)))
def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    x, y = lift(a)[0], lift(b)[0]
    n = dimT(num)
    div = sub(n, T1) if endpoint else n
    if div.p: step = t_div(sub(y, x), div)
    else: step = T0
    r = mk_arr((n,), kmax(lift(a)[1], lift(b)[1], 'f'), lambda i: add(x, mul(i[0], step)))
    if retstep: return r, mkv(step, 'f')
    return r
def np_logspace(a, b, num=50, endpoint=True, base=10.0): return SVM.nd_arith('pow', base, np_linspace(a, b, num, endpoint))

def roll1(a, s, axis=0):
    n = a.shapeT[axis]
    return mk_arr(a.shapeT, a.kind, lambda i: a.elem(i[:axis] + (mk_mod(sub(i[axis], s), n) if not is_const(n) else const(int(const_val(mod_c(sub(i[axis], s), n)))),) + i[axis + 1:]))
def mod_c(t, n): return mk_mod(t, n)
def np_roll(a, shift, axis=None):
    a = to_arr(a)
    if isinstance(shift, (tuple, list)):
        for s, x in zip(shift, axis): a = roll1(a, lift(s)[0], x)
        return a
    if a.ndim > 1 and axis is None: raise Unsupported('roll of flattened nd')
    return roll1(a, lift(shift)[0], axis or 0)
def half(n): return mk_floor(scale(n, Fraction(1, 2)))
def _axes(a, axes):
    if axes is None: return range(a.ndim)
    if isinstance(axes, int): return [axes % a.ndim]
    return [x % a.ndim for x in axes]
def np_fftshift(x, axes=None):
    a = to_arr(x)
    for d in _axes(a, axes): a = roll1(a, half(a.shapeT[d]), d)
    return a
def np_ifftshift(x, axes=None):
    a = to_arr(x)
    for d in _axes(a, axes): a = roll1(a, neg(half(a.shapeT[d])), d)
    return a
def _fftgen(a, axis, inv, n=None, norm=None):
    a = to_arr(a)
    if norm not in (None, 'backward', 'ortho'): raise Unsupported('normalisation %r of the transform' % (norm,))
    ax = axis % a.ndim
    N = a.shapeT[ax]
    if n is not None and dimT(n) is not N:
        n = dimT(n)
        if not same_dim(n, N):
            # zero padding / truncation
            a0, N0 = a, N
            a = mk_arr(a0.shapeT[:ax] + (n,) + a0.shapeT[ax + 1:], a0.kind, lambda i: mul(mk_ind(mk_gt(N0, i[ax])), a0.elem(i)))
            N = n
    def f(i):
        v = fresh_bv(N)
        body = a.elem(i[:ax] + (from_atom(v),) + i[ax + 1:])
        if is_const(N):
            nn = int(const_val(N)); r = T0
            for j in range(nn):
                w = mk_exp(mul(I_, mul(scale(i[ax], Fraction(j * (1 if inv else -1), nn)), const(2 * _math.pi))))
                r = add(r, mul(a.elem(i[:ax] + (const(j),) + i[ax + 1:]), w))
            return scale(r, Fraction(1, nn)) if inv else r
        r = mk_ifft(N, v, body, i[ax]) if inv else mk_fft(N, v, body, i[ax])
        if norm == 'ortho': r = mul(r, power(N, Fraction(1, 2) if inv else Fraction(-1, 2)))
        return r
    return mk_arr(a.shapeT, 'c', f)
def np_fft(a, n=None, axis=-1, norm=None, overwrite_x=False, workers=None): return _fftgen(a, axis, False, n, norm)
def np_ifft(a, n=None, axis=-1, norm=None, overwrite_x=False, workers=None): return _fftgen(a, axis, True, n, norm)
def np_fftfreq(n, d=1.0):
    N = dimT(n)
    D = lift(d)[0]
    h = mk_floor(scale(add(N, T1), Fraction(1, 2)))      # number of non-negative frequencies
    return mk_arr((N,), 'f', lambda i: mul(mk_ite(mk_gt(h, i[0]), i[0], sub(i[0], N)), power(mul(N, D), -1)))

def concat(arrs, axis=0):
    arrs = [to_arr(a) for a in arrs]
    k = kmax(*[a.kind for a in arrs])
    if all(isinstance(a, LA) for a in arrs): return LA(_np.concatenate([a.a for a in arrs], axis), k)
    ax = axis % arrs[0].ndim
    starts = []; cur = T0
    for a in arrs: starts.append(cur); cur = add(cur, a.shapeT[ax])
    sh = arrs[0].shapeT[:ax] + (cur,) + arrs[0].shapeT[ax + 1:]
    for a in arrs[1:]:
        for d in range(a.ndim):
            if d != ax and not same_dim(a.shapeT[d], arrs[0].shapeT[d]): raise ValueError('all the input array dimensions must match')
    def f(i):
        out = T0
        for a, s in zip(arrs, starts):
            if not a.shapeT[ax].p: continue
            e = add(s, a.shapeT[ax])
            c = []
            if s.p: c.append(mk_ge(i[ax], s))
            if e is not cur: c.append(mk_gt(e, i[ax]))
            b = mk_and(*c)
            if b is BF: continue
            out = add(out, mul(mk_ind(b), a.elem(i[:ax] + (sub(i[ax], s),) + i[ax + 1:])))
        return out
    return mk_arr(sh, k, f)
def at1(a):
    a = to_arr(a)
    return reshape(a, (1,)) if a.ndim == 0 else a
def np_hstack(xs): 
    xs = [at1(x) for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)
def np_pad(a, width, mode='constant', constant_values=0, **k):
    _opt(k)
    a = to_arr(a)
    if a.ndim != 1 or mode != 'constant': raise Unsupported('pad nd or mode')
    if isinstance(width, Arr): width = [width[i] for i in range(2)]
    if isinstance(width, (tuple, list)):
        w = list(width)
        if len(w) == 1 and isinstance(w[0], (tuple, list)): w = list(w[0])
        if len(w) == 1: w = w * 2
    else: w = [width, width]
    cv = list(constant_values) if isinstance(constant_values, (tuple, list)) else [constant_values] * 2
    for x in w:
        if ctx() is not None and ctx().decide(mk_gt(T0, lift(x)[0])): raise ValueError("index can't contain negative values")
    def part(n, c):
        t, kk = lift(c)
        return mk_arr((lift(n)[0],), a.kind, lambda i: t)
    return concat([part(w[0], cv[0]), a, part(w[1], cv[1])])
def np_take(a, ind, axis=None, mode='raise', **k):
    _opt(k)
    if axis not in (None, 0) or mode != 'raise': raise Unsupported('take')
    return to_arr(a)[ind]
def np_var(a, axis=None, ddof=0, **k):
    _opt(k)
    if axis is not None: raise Unsupported('var axis')
    a = to_arr(a); d = a - reduce_mean(a)
    x = U['abs'](d) if a.kind == 'c' else d
    return reduce_sum(x * x) / (a.size - ddof)
def np_std(a, **k): return U['sqrt'](np_var(a, **k))
def at2(a):
    a = at1(a)
    return a[None, :] if a.ndim == 1 else a
def np_vstack(xs): return concat([at2(x) for x in xs], 0)
def np_column_stack(xs): return concat([to_arr(x)[:, None] if to_arr(x).ndim == 1 else x for x in xs], 1)
def np_stack(xs, axis=0): 
    xs = [to_arr(x) for x in xs]
    if axis == 0: return concat([x[None] if x.ndim else reshape(x, (1,)) for x in xs], 0)
    if axis in (-1, xs[0].ndim): return concat([x[..., None] for x in xs], -1)
    raise Unsupported('stack axis')
def at3(a):
    a = at2(a)
    return a[:, :, None] if a.ndim == 2 else a
def np_dstack(xs): return concat([at3(x) for x in xs], 2)
def np_append(a, b, axis=None):
    a, b = at1(a), at1(b)
    if axis is None:
        if a.ndim > 1: a = a.flatten()
        if b.ndim > 1: b = b.flatten()
        axis = 0
    return concat([a, b], axis)
def np_meshgrid(x, y, indexing='xy'):
    x, y = to_arr(x), to_arr(y)
    if indexing == 'xy':
        sh = (y.shapeT[0], x.shapeT[0])
        return [mk_arr(sh, x.kind, lambda i: x.elem((i[1],))), mk_arr(sh, y.kind, lambda i: y.elem((i[0],)))]
    sh = (x.shapeT[0], y.shapeT[0])
    return [mk_arr(sh, x.kind, lambda i: x.elem((i[0],))), mk_arr(sh, y.kind, lambda i: y.elem((i[1],)))]
def np_diff(a, n=1, axis=-1):
    a = to_arr(a)
    for _ in range(n):
        b = a
        if b.ndim != 1: raise Unsupported('diff nd')
        a = mk_arr((sub(b.shapeT[0], T1),), b.kind, (lambda b: lambda i: sub(b.elem((add(i[0], T1),)), b.elem(i)))(b))
    return a
def np_gradient(f, *vs, **k):
    _opt(k)
    f = to_arr(f)
    n = f.shapeT[0]
    if f.ndim != 1: raise Unsupported('gradient nd')
    d = T1
    xs = None
    if vs:
        if isinstance(vs[0], Arr) and vs[0].ndim == 1: xs = vs[0]
        else: d = lift(vs[0])[0]
    last = sub(n, T1)
    if xs is None:
        di = power(d, -1)
        def g(i):
            j = i[0]
            mid = scale(mul(sub(f.elem((add(j, T1),)), f.elem((sub(j, T1),))), di), Fraction(1, 2))
            a = mul(sub(f.elem((T1,)), f.elem((T0,))), di)
            b = mul(sub(f.elem((last,)), f.elem((sub(last, T1),))), di)
            return mk_ite(mk_eq(j, T0), a, mk_ite(mk_eq(j, last), b, mid))
        return mk_arr((n,), kmax(f.kind, 'f'), g)
    def g(i):
        j = i[0]
        jp, jm = add(j, T1), sub(j, T1)
        X = lambda t: xs.elem((t,)); F = lambda t: f.elem((t,))
        hd, hs = sub(X(jp), X(j)), sub(X(j), X(jm))
        hs2, hd2 = mul(hs, hs), mul(hd, hd)
        num_ = add(sub(mul(hs2, F(jp)), mul(hd2, F(jm))), mul(sub(hd2, hs2), F(j)))
        mid = mul(num_, power(mul(mul(hs, hd), add(hd, hs)), -1))
        a = mul(sub(F(T1), F(T0)), power(sub(X(T1), X(T0)), -1))
        l1 = sub(last, T1)
        b = mul(sub(F(last), F(l1)), power(sub(X(last), X(l1)), -1))
        return mk_ite(mk_eq(j, T0), a, mk_ite(mk_eq(j, last), b, mid))
    return mk_arr((n,), kmax(f.kind, 'f'), g)
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = to_arr(y)
    if y.ndim != 1: raise Unsupported('trapz nd')
    n = y.shapeT[0]
    if x is None:
        d = lift(dx)[0]; dd = lambda v: d
    else:
        x = to_arr(x); dd = lambda v: sub(x.elem((add(v, T1),)), x.elem((v,)))
    m = sub(n, T1)
    f = lambda v: scale(mul(add(y.elem((add(v, T1),)), y.elem((v,))), dd(v)), Fraction(1, 2))
    if is_const(n):
        r = T0
        for j in range(int(const_val(n)) - 1): r = add(r, f(const(j)))
        return mkv(r, kmax(y.kind, 'f'))
    v = fresh_bv(m)
    # sum_{v<n-1} (y[v+1]+y[v])/2*dd  over the full range, minus the wrap-around term
    w = fresh_bv(n)
    fw = f(from_atom(w))
    return mkv(mk_sum(m, v, f(from_atom(v))), kmax(y.kind, 'f'))
def np_norm(x, ord=None, axis=None, **k):
    _opt(k)
    a = to_arr(x)
    if ord not in (None, 2): raise Unsupported('norm ord')
    ab = elementwise(lambda z: mul(z, conj(z)), 'f', a)
    s = reduce_sum(ab, axis)
    return U['sqrt'](s)
def phase_of_angle(t):
    """phi, where t is the angle of (positive) * exp(i phi)"""
    if is_zero(t): return T0
    if len(t.p) != 1: return None
    (m, c), = t.p.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'fn' or m[0][0].data[0] != 'angle': return None
    z = m[0][0].data[1]
    if len(z.p) != 1: return None
    (m, c), = z.p.items()
    pi = const(_math.pi); ph = T0 if c > 0 else pi
    for a, e in m:
        if a.kind == 'I': ph = add(ph, scale(pi, Fraction(1, 2)))
        elif a.kind == 'exp' and not a.real:
            x = scale(a.data, e); im = scale(mul(neg(I_), sub(x, conj(x))), Fraction(1, 2)); ph = add(ph, im)
        elif a.sign != 'pos': return None
    return ph
def exact_fit(X, Y, d, var):
    """coefficients (lowest first) of the polynomial of degree <= d with Y = P(X), X and Y terms in the atom var"""
    A = B = T0; e = None
    for m, c in X.p.items():
        i, dep = split_mono(m, var)
        if not dep: B = add(B, mkT({m: c})); continue
        if len(dep) != 1 or dep[0][0] is not var or e not in (None, dep[0][1]): return None
        e = dep[0][1]; A = add(A, mkT({i: c}))
    if e is None: return None
    q = {}
    for m, c in Y.p.items():
        i, dep = split_mono(m, var)
        if not dep: k = Fraction(0)
        elif len(dep) == 1 and dep[0][0] is var: k = Fraction(dep[0][1]) / Fraction(e)
        else: return None
        if k.denominator != 1 or not 0 <= k <= d: return None
        q[int(k)] = add(q.get(int(k), T0), mkT({i: c}))
    r = [T0] * (d + 1); Ai = power(A, -1)
    for k, c in q.items():
        t = c
        for _ in range(k): t = mul(t, Ai)
        for j in range(k + 1):
            u = scale(t, Fraction(_math.comb(k, j)))
            for _ in range(k - j): u = mul(u, neg(B))
            r[j] = add(r[j], u)
    return r
def fit_through(x, y, d):
    """least squares through points that lie on one polynomial of degree <= d, and at least d + 1 of them: that polynomial"""
    if isinstance(x, LA) and isinstance(y, LA):
        if len(x.a) <= d: return None
        r = None; seen = []
        for a, b in zip(x.a, y.a):
            own = [v for v in a.free if v.kind == 'sym' and v not in seen]
            own = [v for v in own if all(v not in z.free for z in x.a if z is not a)]
            if len(own) != 1: return None
            c = exact_fit(a, b, d, own[0])
            if c is None or r is not None and not all(is_zero(sub(p, q)) for p, q in zip(c, r)): return None
            r = c; seen += own
        return r
    if isinstance(x, LA) or isinstance(y, LA) or not getattr(ctx(), 'smooth_phase', False): return None
    v = fresh_bv(x.shapeT[0]); a = x.elem((from_atom(v),)); b = y.elem((from_atom(v),))
    def inner(t):
        (m, c), = t.p.items() if len(t.p) == 1 else (((), 0),)
        return m[0][0].data if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].data[0] == 'masked' else None
    A, B = inner(a), inner(b)
    if A is None or B is None or A[2] != B[2] or A[1] is not B[1]: return None
    n = A[1]; w = fresh_bv(n)
    return exact_fit(lam_apply(A[3], [from_atom(w)]), lam_apply(B[3], [from_atom(w)]), d, w)
def np_unwrap(p, discont=None, axis=-1, **kw):
    _opt(kw)
    a = to_arr(p)
    ax = axis % a.ndim
    n = a.shapeT[ax]
    smooth = getattr(ctx(), 'smooth_phase', False)
    def f(i):
        v = fresh_bv(n)
        ph = phase_of_angle(a.elem(i[:ax] + (from_atom(v),) + i[ax + 1:])) if smooth else None
        # where the phase is known to change by less than half a turn from one point to the next, unwrapping finds it up to whole turns
        if ph is not None: return add(subst(ph, {v: i[ax]}), scale(mk_fn('whole turns', n, mk_lam([v], ph), integer=True), 2 * const_val(const(_math.pi))))
        return mk_fn('unwrap', n, mk_lam([v], a.elem(i[:ax] + (from_atom(v),) + i[ax + 1:])), i[ax])
    return mk_arr(a.shapeT, 'f', f)
def np_polyfit(x, y, deg, **kw):
    x, y = to_arr(x), to_arr(y)
    n = x.shapeT[0]
    v = fresh_bv(n); w = fresh_bv(n)
    L1 = mk_lam([v], x.elem((from_atom(v),))); L2 = mk_lam([w], y.elem((from_atom(w),)))
    wt = kw.get('w'); _opt(kw, 'w', 'rcond')
    extra = ()
    if wt is not None:
        u = fresh_bv(n); extra = (mk_lam([u], to_arr(wt).elem((from_atom(u),))),)
    d = operator.index(deg)
    ex = fit_through(x, y, d) if wt is None else None
    if ex is not None:
        ctx().assumed.append('polyfit: the fitted points have more than %d distinct abscissae' % d)
        out = _np.empty((d + 1,), dtype=object)
        for i in range(d + 1): out[i] = ex[d - i]
        return LA(out, 'f')
    out = _np.empty((d + 1,), dtype=object)
    for i in range(d + 1): out[i] = mk_fn('polyfit', n, L1, L2, *extra, const(d), const(i))
    return LA(out, 'f')
def np_polyval(p, x):
    p = to_arr(p)
    r = None
    for c in p: r = c if r is None else r * x + c
    return r if isinstance(r, Arr) or not isinstance(x, Arr) else np_full(x.shape, r)
class Poly1d:
    def __init__(self, c): self.c = to_arr(c)
    def __call__(self, x): return np_polyval(self.c, x)
    @property
    def coeffs(self): return self.c
    coef = coefficients = coeffs
    def deriv(self, m=1): return Poly1d(np_polyder(self.c, m))
    @property
    def order(self): return len(self.c) - 1
    def __getitem__(self, k): 
        n = len(self.c) - 1
        return self.c[n - k] if 0 <= k <= n else 0
def np_polyder(p, m=1):
    if isinstance(p, Poly1d): return Poly1d(np_polyder(p.c, m))
    p = to_arr(p)
    for _ in range(m):
        n = len(p)
        p = LA(_np.array([None] * 0, dtype=object), p.kind) if n <= 1 else p[:-1] * to_arr(list(range(n - 1, 0, -1)))
    return p
def np_where(c, x=None, y=None):
    if x is None: raise Unsupported('np.where with one argument')
    return unwrap0(where(c, x, y))
def np_shape(x): return to_arr(x).shape
def np_size(x, axis=None): a = to_arr(x); return a.size if axis is None else a.shape[axis]
def np_ndim(x): return to_arr(x).ndim
def np_copy(x, **k):
    _opt(k)
    return to_arr(x).copy()
def np_max(x, axis=None, **k):
    _opt(k)
    return to_arr(x).max(axis) if not isinstance(x, SV) else x
def np_min(x, axis=None, **k):
    _opt(k)
    return to_arr(x).min(axis) if not isinstance(x, SV) else x
def np_sum(x, axis=None, **k):
    _opt(k)
    return reduce_sum(to_arr(x), axis)
def np_mean(x, axis=None, **k):
    _opt(k)
    return reduce_mean(to_arr(x), axis)
def np_average(x, axis=None, weights=None, **k):
    _opt(k)
    if weights is None: return np_mean(x, axis)
    x, w = to_arr(x), to_arr(weights)
    if axis is not None and x.ndim > 1 or x.ndim != w.ndim: raise Unsupported('weighted average along an axis')
    for p, q in zip(x.shapeT, w.shapeT):
        if not same_dim(p, q): raise TypeError('Axis must be specified when shapes of a and weights differ.')
    return np_sum(x * w) / np_sum(w)
def np_any(x, axis=None): return reduce_bool('any', to_arr(x))
def np_all(x, axis=None): return reduce_bool('all', to_arr(x))
def np_round(x, decimals=0, out=None):
    if decimals:
        if not isinstance(decimals, int): raise Unsupported('round to decimals')
        return U['rint'](x * Fraction(10) ** decimals) / Fraction(10) ** decimals
    return U['rint'](x)
def round_digits(x, n):
    p = const(Fraction(10) ** n)
    return mkv(mul(mk_floor(add(mul(lift(x)[0], p), const(Fraction(1, 2)))), power(p, -1)), 'f')
def np_sort(x, axis=-1): raise Unsupported('sort')
def np_flip(x, axis=None):
    x = to_arr(x)
    if x.ndim == 1: return x[::-1]
    if axis == 0: return x[::-1]
    if axis == 1: return x[:, ::-1]
    return x[::-1, ::-1]
def np_transpose(x, axes=None): return to_arr(x).transpose(*( [axes] if axes else []))
def np_isscalar(x): return is_scalar(x) and not (isinstance(x, Arr))
def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    _opt(k)
    return reduce_bool('all', np_isclose(a, b, rtol, atol))
def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    _opt(k)
    return ucmp('le')(U['abs'](a - b), atol + rtol * U['abs'](b))
def np_array_equal(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shapeT, b.shapeT):
        if not same_dim(x, y): return False
    return reduce_bool('all', a == b)
def np_clip(x, lo, hi, out=None):
    r = x
    if lo is not None: r = U['maximum'](r, lo)
    if hi is not None: r = U['minimum'](r, hi)
    if out is not None: out[...] = r; return out
    return r
def np_vectorize(f, **kw):
    _opt(kw)
    def g(*args):
        arrs = [to_arr(a) for a in args if isinstance(a, (Arr, list, tuple))]
        if not arrs: return f(*args)
        if all(isinstance(a, LA) for a in arrs) and len(args) == 1:
            return to_arr([f(mkv(x, args[0].kind)) for x in arrs[0].a.flat])
        if len(args) == 1:
            a = arrs[0]
            r = {}
            def el(i):
                m = len(ctx().trail)
                v = f(mkv(a.elem(i), a.kind)); t, k = lift(v); r['k'] = k
                if len(ctx().trail) != m: raise Unsupported('case distinction on an arbitrary element of an array')
                return t
            out = mk_arr(a.shapeT, 'f', el)
            out.kind = r.get('k', 'f')
            if isinstance(out, GA): out.buf.kind = out.kind
            return out
        raise Unsupported('vectorize nargs')
    return g
def np_outer(a, b): return to_arr(a)[:, None] * to_arr(b)[None, :]
def np_correlate(a, v, mode='valid'):
    """c[k] = sum_j a[j + lag(k)] conj(v[j]); 'same' for two arrays of one even length: lags -n/2 .. n/2-1"""
    a, v = to_arr(a), to_arr(v)
    if a.ndim != 1 or v.ndim != 1: raise ValueError('object too deep for desired array')
    n, m = a.shapeT[0], v.shapeT[0]
    if mode == 'full': lag0, out = sub(T1, m), sub(add(n, m), T1)
    elif mode == 'same':
        if not same_dim(n, m): raise Unsupported('np.correlate of arrays of different lengths')
        h = lift(floordiv_(mkv(n, 'i'), 2))[0]
        if not engine_prove(mk_eq(mul(const(2), h), n), ctx()): raise Unsupported('np.correlate of odd length')
        lag0, out = sub(T0, h), n
    else: raise Unsupported('np.correlate mode')
    a, v = a.copy(), v.copy()
    def f(i):
        s = add(i[0], lag0)
        def g(j):
            b = mk_and(mk_ge(add(j, s), T0), mk_gt(n, add(j, s)))
            return T0 if b is BF else mul(mk_ind(b), mul(a.elem((add(j, s),)), conj(v.elem((j,)))))
        if is_const(m):
            r = T0
            for j in range(int(const_val(m))): r = add(r, g(const(j)))
            return r
        return SVM._sum_dim(g, m)
    return mk_arr((out,), kmax(a.kind, v.kind), f)
def floordiv_(x, y): return x // y
def np_convolve(a, v, mode='full'): raise Unsupported('np.convolve')
def np_interp(*a, **k): raise Unsupported('np.interp')
def np_einsum(*a, **k): raise Unsupported('np.einsum')
def np_tile(a, r): raise Unsupported('tile')
def np_copyto(dst, src, **k):
    _opt(k)
    dst[...] = src
def np_iscomplexobj(x): return kind_of(x) == 'c'
def np_isrealobj(x): return kind_of(x) != 'c'
def np_result_type(*a): return DTS[kmax(*[(x.kind if isinstance(x, DT) else kind_of(x)) for x in a])]
def np_expand_dims(a, axis): 
    a = to_arr(a)
    ix = [slice(None)] * a.ndim; ix.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(ix)]
def np_count_nonzero(a): return reduce_sum(elementwise(lambda x: mk_ind(mk_not(mk_eq(x, T0))), 'i', to_arr(a)))
FILES = {}
FILEFMT = {}     # file -> (delimiter, number of plain header lines); absent: blanks, none
def _read(f, delimiter, skip):
    # assumed contract of the text format: what was written is what is read back
    if not isinstance(f, str) or f not in FILES: raise Unsupported('reading a file')
    dl, nh = FILEFMT.get(f, (None, 0))
    if (delimiter.strip() if isinstance(delimiter, str) else delimiter) not in ((None, '') if dl is None else (dl,)): raise ValueError('could not convert string to float')
    if not isinstance(skip, int): raise Unsupported('reading a file')
    if skip < nh: raise ValueError('could not convert string to float')
    a = to_arr(FILES[f])
    return a[skip - nh:].copy() if skip > nh else a.copy()
def np_genfromtxt(f, *a, **k):
    _opt(k, 'comments', 'skip_header', 'encoding', 'delimiter')
    if a: raise Unsupported('genfromtxt options')
    return _read(f, k.get('delimiter'), k.get('skip_header', 0))
def np_loadtxt(f, *a, **k):
    _opt(k, 'comments', 'skiprows', 'encoding', 'delimiter', 'unpack')
    if a: raise Unsupported('loadtxt options')
    r = _read(f, k.get('delimiter'), k.get('skiprows', 0))
    return r.T if k.get('unpack') else r
def np_savetxt(f, x, *a, **k):
    if not isinstance(f, str): raise Unsupported('writing a file')
    if a or set(k) - {'header', 'footer', 'encoding'}: raise Unsupported('savetxt options')
    FILES[f] = to_arr(x).copy(); FILEFMT.pop(f, None)
def np_array_split(*a, **k): raise Unsupported('array_split')
def np_prod(a, axis=None): return to_arr(a).prod()
def np_linalg_unsup(*a, **k): raise Unsupported('linalg')
def np_issubdtype(a, b):
    ka = kind_of_dtype(a)
    nm = getattr(b, '__name__', str(b))
    if 'complex' in nm: return ka == 'c'
    if 'float' in nm: return ka == 'f'
    if 'int' in nm: return ka == 'i'
    return ka == kind_of_dtype(b)

class _finfo:
    def __init__(self, d=None):
        i = _np.finfo(_np.float64)
        self.eps = float(i.eps); self.max = float(i.max); self.min = float(i.min); self.tiny = float(i.tiny)

class Random:
    """assumed contract of numpy.random: arbitrary reals (uniform: within the range)"""
    def __init__(self): self.n = 0; self.log = []; self._s = ('none',)
    def _arr(self, size, name, post):
        self.n += 1
        key = 'rnd_%s_%s_%d' % (name, '_'.join(str(x) for x in self._s), self.n)
        if size is None:
            return mkv(post(sym(key)), 'f')
        a = arrsym(key)
        return mk_arr(shp(size), 'f', lambda i: post(mk_sel(a, i)))
    def seed(self, s=None):
        self._s = ('s', tstr(lift(s)[0]) if s is not None else 'os%d' % self.n); 
        if s is not None: self.n = 0
        self.log.append(s)
    def rand(self, *sz): return self._arr(sz if sz else None, 'u', self._unit)
    def random(self, size=None): return self._arr(size, 'u', self._unit)
    random_sample = random
    def uniform(self, low=0.0, high=1.0, size=None):
        l, h = lift(low)[0], lift(high)[0]
        return self._arr(size, 'u', lambda t: add(l, mul(sub(h, l), self._unit(t))))
    def _unit(self, t): return t
    def normal(self, loc=0.0, scale=1.0, size=None):
        l, s = lift(loc)[0], lift(scale)[0]
        return self._arr(size, 'n', lambda t: add(l, mul(s, t)))
    def randn(self, *sz): return self._arr(sz if sz else None, 'n', lambda t: t)
    def standard_normal(self, size=None): return self._arr(size, 'n', lambda t: t)
    def get_state(self): return ('state', self.n, self._s)
    def set_state(self, s): _, self.n, self._s = s
    def RandomState(self, seed=None):
        r = Random(); r.seed(seed) if seed is not None else None
        return r
    default_rng = RandomState

def make_numpy():
    np = ShimModule('numpy')
    g = np.__dict__
    g.update(U)
    g.update(pi=_math.pi, e=_math.e, inf=_math.inf, nan=_math.nan, newaxis=None, Inf=_math.inf, NaN=_math.nan, euler_gamma=0.5772156649015329)
    g.update(ndarray=Arr, float64=DTS['f'], double=DTS['f'], complex128=DTS['c'], int64=DTS['i'], int32=DTS['i'], intp=DTS['i'], int_=DTS['i'],
             bool_=DTS['b'], float_=DTS['f'], complex_=DTS['c'], cdouble=DTS['c'], integer=DTS['i'], floating=DTS['f'], complexfloating=DTS['c'], number=SymNum)
    g['dtype'] = lambda d: DTS[kind_of_dtype(d)]
    g.update(add=u2('add'), subtract=u2('sub'), multiply=u2('mul'), divide=u2('div'), true_divide=u2('div'), power=u2('pow'), float_power=u2('pow'),
             mod=u2('mod'), remainder=u2('mod'), floor_divide=u2('fdiv'))
    g.update(greater=ucmp('gt'), less=ucmp('lt'), greater_equal=ucmp('ge'), less_equal=ucmp('le'), equal=ucmp('eq'), not_equal=ucmp('ne'))
    g.update(logical_and=lambda a, b: boolop('and', a, b), logical_or=lambda a, b: boolop('or', a, b), logical_xor=lambda a, b: boolop('xor', a, b))
    for k, v in globals().items():
        if k.startswith('np_') and k not in ('np_fft', 'np_ifft', 'np_fftfreq', 'np_fftshift', 'np_ifftshift', 'np_norm'): g[k[3:]] = v
    g['amax'] = np_max; g['amin'] = np_min; g['around'] = np_round; g['round_'] = np_round; g['concatenate'] = concat; g['asanyarray'] = np_asarray; g['ascontiguousarray'] = np_asarray
    g['atleast_1d'] = at1; g['atleast_2d'] = at2; g['argmax'] = lambda a, axis=None: to_arr(a).argmax(); g['argmin'] = lambda a, axis=None: to_arr(a).argmin()
    g['cumsum'] = lambda a, axis=None: cumsum(a); g['dot'] = dot; g['inner'] = dot; g['matmul'] = dot; g['vdot'] = lambda a, b: dot(to_arr(a).conj(), b)
    g['reshape'] = lambda a, s: reshape(to_arr(a), s if isinstance(s, (tuple, list)) else (s,)); g['ravel'] = lambda a: reshape(to_arr(a), (-1,))
    g['squeeze'] = lambda a, axis=None: to_arr(a).squeeze(); g['fliplr'] = lambda a: to_arr(a)[:, ::-1]; g['flipud'] = lambda a: to_arr(a)[::-1]
    g['errstate'] = _np.errstate; g['seterr'] = lambda *a, **k: {}; g['finfo'] = _finfo; g['poly1d'] = Poly1d
    g['average'] = np_average; g['trapezoid'] = np_trapz; g['set_printoptions'] = lambda *a, **k: None
    FILES.clear(); FILEFMT.clear()
    g['loadtxt'] = np_loadtxt; g['save'] = Unsup('numpy.save'); g['load'] = Unsup('numpy.load')
    g['ComplexWarning'] = Warning; g['dstack'] = np_dstack
    g['__version__'] = _np.__version__
    f = _mod('numpy.fft', fft=np_fft, ifft=np_ifft, fftshift=np_fftshift, ifftshift=np_ifftshift, fftfreq=np_fftfreq)
    la = _mod('numpy.linalg', norm=np_norm, solve=np_linalg_unsup, inv=np_linalg_unsup, LinAlgError=_np.linalg.LinAlgError)
    rnd = Random()
    g['fft'] = f; g['linalg'] = la; g['random'] = rnd
    return np

# ------------------------------------------------------------------ scipy etc.
import json, os
_CODE_CONST = []
def code_constants():
    """scipy.constants as the interpreter that runs the code has them (CODATA sets differ between releases)"""
    if not _CODE_CONST:
        import subprocess
        try: r = subprocess.run(['/opt/venv/bin/python', '-c', 'import scipy.constants as c, json; print(json.dumps({k: v for k, v in vars(c).items() if isinstance(v, float)}))'], capture_output=True, text=True, timeout=120); _CODE_CONST.append(json.loads(r.stdout))
        except Exception: _CODE_CONST.append({})
    return _CODE_CONST[0]
def _sp_constants():
    import scipy.constants as c
    return c

def factorial(n, exact=False):
    if isinstance(n, Arr): return elementwise(lambda x: const(_math.factorial(int(const_val(x)))), 'f', n)
    t, k = lift(n)
    if is_const(t): return _math.factorial(int(const_val(t))) if exact else SV(const(_math.factorial(int(const_val(t)))), 'f')
    return SV(mk_fn('factorial', t, sign='pos'), 'f')
class Interp:
    """assumed contract of interpolation: an unspecified real function of its data and abscissa"""
    def __init__(self, name, x, y, fill=None):
        self.name = name; self.x = to_arr(x); self.y = to_arr(y); self.fill = fill
        n = self.x.shapeT[0]
        v = fresh_bv(n); w = fresh_bv(n)
        self.L = (n, mk_lam([v], self.x.elem((from_atom(v),))), mk_lam([w], self.y.elem((from_atom(w),))))
        self.real = self.y.kind != 'c'
    def __call__(self, z, *a):
        # interpolants reproduce their data at their own nodes
        if isinstance(z, GA) and isinstance(self.x, GA) and z.ndim == 1 and z.shapeT[0] is self.x.shapeT[0]:
            i = (from_atom(idx(z.shapeT[0], 0)),)
            if sub(z.elem(i), self.x.elem(i)) is T0 or is_zero(sub(z.elem(i), self.x.elem(i))): return self.y.copy()
            r = self.shifted(z, i[0])
            if r is not None: return r
        return unwrap0(elementwise(lambda t: mk_fn(self.name, *self.L, t, real=self.real), 'f' if self.real else 'c', z))

    def shifted(self, z, i):
        """abscissae that all are nodes of an equidistant table, or lie outside of it"""
        if self.fill is None: return None
        x = lambda j: self.x.elem((j,))
        n = self.x.shapeT[0]; dx = sub(x(add(i, T1)), x(i))
        if not dx.p or depends(dx, lead(i)[0][0]): return None
        j = mul(sub(z.elem((i,)), x(T0)), power(dx, -1))
        if not is_int(j) or not is_zero(sub(x(j), z.elem((i,)))): return None
        J = lambda k: mul(sub(z.elem((k,)), x(T0)), power(dx, -1))
        inside = lambda k: mk_ind(mk_and(mk_ge(J(k), T0), mk_gt(n, J(k))))
        return mk_arr((n,), self.y.kind, lambda k: add(mul(inside(k[0]), self.y.elem((mk_mod(J(k[0]), n),))), mul(sub(T1, inside(k[0])), lift(self.fill)[0])))

# contracts of numerical differentiation, quadrature and minimisation (scipy): the exact result, their accuracy is assumed
_pt = [0]
def _generic(f, sign, kind='f', near=None, name=None):
    """term of f at a generic real point"""
    if name is None: _pt[0] += 1; name = 'point!%d' % _pt[0]
    x = sym(name, sign=sign)
    if near is not None: ctx().add(mk_eq(x, near))
    r = f(SV(x, 'f'))
    if isinstance(r, Arr): r = r.item()
    return lead(x)[0][0], lift(r)
def sp_derivative(func, x0, dx=1.0, n=1, args=(), order=3):
    """scipy.misc.derivative: n-th derivative of func at x0 (the accuracy of the difference scheme is assumed)"""
    if isinstance(n, SV): n = int(const_val(lift(n)[0])) if is_const(lift(n)[0]) else n
    if isinstance(n, SV): raise Unsupported('derivative of symbolic order')
    if order < n + 1: raise ValueError("'order' (the number of points used to compute the derivative), must be at least the derivative order 'n' + 1.")
    if order % 2 == 0: raise ValueError("'order' (the number of points used to compute the derivative) must be odd.")
    if isinstance(x0, Arr):
        def f(x): return func(mk_arr(x0.shapeT, 'f', lambda i: lift(x)[0]), *args)
        xe = x0.elem(tuple(from_atom(idx(m, d)) for d, m in enumerate(x0.shapeT))) if not isinstance(x0, LA) else None
        if xe is None: return to_arr([sp_derivative(lambda x: SVM.force_la(f(x)).a.flat[0] if False else mkv(f(x).elem((T0,) * x0.ndim), 'f'), mkv(e, 'f'), dx, n, (), order) for e in x0.a.flat])
        r = {}
        def g(x):
            y = f(x); ix = tuple(from_atom(idx(m, d)) for d, m in enumerate(x0.shapeT))
            return mkv(y.elem(ix), y.kind) if isinstance(y, Arr) else y
        v, (t, k) = _generic(g, sign_of(xe), near=xe)
        for _ in range(n): t = diff(t, v)
        ix0 = [idx(m, d) for d, m in enumerate(x0.shapeT)]
        def el(i):
            u = subst(t, {v: xe})
            return subst(u, {a: b for a, b in zip(ix0, i) if from_atom(a) is not b})
        return mk_arr(x0.shapeT, k, el)
    xt = lift(x0)[0]
    v, (t, k) = _generic(lambda x: func(x, *args), sign_of(xt), near=xt)
    for _ in range(n): t = diff(t, v)
    return mkv(subst(t, {v: xt}), k)
def sp_quad(func, a, b, args=(), epsabs=1.49e-8, epsrel=1.49e-8, limit=50, **kw):
    """scipy.integrate.quad: the integral of func from a to b (its accuracy is assumed)"""
    if kw: raise Unsupported('quad with weights')
    A, B_ = lift(a)[0], lift(b)[0]
    v, (t, k) = _generic(lambda x: func(x, *args), 'pos' if sign_of(A) == sign_of(B_) == 'pos' else 'any', name='integration variable')
    return mkv(mk_fn('integral', t, A, B_, real=is_real(t)), k), SV(mk_fn('integral_error', t, A, B_, sign='nonneg'), 'f')
class OptimizeResult(dict):
    __getattr__ = dict.__getitem__
def sp_minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
    """scipy.optimize.minimize_scalar on an interval: the minimiser (assumed found)"""
    if bounds is None or method not in (None, 'bounded', 'Bounded'): raise Unsupported('minimize_scalar without bounds')
    lo, hi = lift(bounds[0])[0], lift(bounds[1])[0]
    v, (t, k) = _generic(lambda x: fun(x, *args), 'pos' if sign_of(lo) == 'pos' else 'any', name='minimisation variable')
    x = mk_fn('argmin', t, lo, hi, sign='pos' if sign_of(lo) == 'pos' else 'any')
    ctx().add(mk_ge(x, lo)); ctx().add(mk_ge(hi, x))
    return OptimizeResult(x=SV(x, 'f'), fun=SV(subst(t, {v: x}), k), success=True)

def make_scipy(np):
    def tag(kw):
        def one(v):
            if isinstance(v, SV) and is_const(v.t): v = const_val(v.t)
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool): return str(Fraction(v))
            if v is None or isinstance(v, (bool, str)): return repr(v)
            if isinstance(v, (tuple, list)): return '(%s)' % ','.join(one(x) for x in v)
            raise Unsupported('option of interpolation')
        d = {k: one(v) for k, v in kw.items() if k not in ('assume_sorted', 'copy', 'check_finite')}
        if d.get('axis') in ('0', '-1'): del d['axis']
        return ''.join('_%s=%s' % x for x in sorted(d.items()))
    def interp1d(x, y, kind='linear', **kw): return Interp('interp1d_%s%s' % (kind, tag(kw)), x, y, kw.get('fill_value') if kw.get('bounds_error') is False and isinstance(kw.get('fill_value'), (int, float, SV)) else None)
    def IUS(x, y, **kw):
        if kw.get('k') == 3: del kw['k']
        return Interp('spline' + tag(kw), x, y)
    def US(x, y, **kw):
        if kw.get('s') == 0: del kw['s']; return IUS(x, y, **kw)
        return Interp('smoothing' + tag(kw), x, y)
    sp = ShimModule('scipy')
    fp = _mod('scipy.fftpack', fft=np_fft, ifft=np_ifft, fftshift=np_fftshift, ifftshift=np_ifftshift)
    import scipy.constants as c
    class SC(types.ModuleType):
        def __getattr__(self, k): 
            x = getattr(c, k)
            return code_constants().get(k, x) if isinstance(x, float) else x
    sc = SC('scipy.constants')
    sub_ = {
        'fftpack': fp, 'fft': fp, 'constants': sc,
        'special': _mod('scipy.special', factorial=factorial, erf=Unsup('erf'), airy=Unsup('airy')),
        'interpolate': _mod('scipy.interpolate', interp1d=interp1d, InterpolatedUnivariateSpline=IUS, UnivariateSpline=US),
        'optimize': _mod('scipy.optimize', minimize=Unsup('scipy.optimize.minimize'), minimize_scalar=sp_minimize_scalar,
                         brentq=Unsup('scipy.optimize.brentq'), fsolve=Unsup('fsolve'), fmin=Unsup('fmin'), newton=Unsup('newton')),
        'integrate': _mod('scipy.integrate', quad=sp_quad),
        'signal': _mod('scipy.signal', savgol_filter=Unsup('savgol_filter')),
        'ndimage': _mod('scipy.ndimage', interpolation=_mod('scipy.ndimage.interpolation', map_coordinates=Unsup('map_coordinates')), map_coordinates=Unsup('map_coordinates')),
        'misc': _mod('scipy.misc', factorial=factorial, derivative=sp_derivative),
        'linalg': np.linalg,
    }
    for k, v in sub_.items(): sp.__dict__[k] = v
    return sp, sub_

# pyfftw: assumed contract of the FFTW planner objects
def make_pyfftw(np):
    class FFTW:
        def __init__(self, input_array, output_array, axes=(-1,), direction='FFTW_FORWARD', flags=(), threads=1, planning_timelimit=None, **kw):
            self.i = input_array; self.o = output_array; self.dir = direction
            self.axis = axes[0] if isinstance(axes, (tuple, list)) else axes
        @property
        def input_array(self): return self.i
        @property
        def output_array(self): return self.o
        def update_arrays(self, i, o): self.i = i; self.o = o
        def get_input_array(self): return self.i
        def get_output_array(self): return self.o
        def execute(self): self.o[...] = (np_fft if self.dir == 'FFTW_FORWARD' else self._raw)(self.i, axis=self.axis)
        def _raw(self, x, axis): return np_ifft(x, axis=axis) * x.shape[axis]
        def __call__(self, input_array=None, output_array=None, normalise_idft=True, **kw):
            if output_array is not None: self.o = output_array
            if input_array is not None:
                # FFTW copies into its own input buffer only when dtype/alignment differ; otherwise it re-points
                self.i = input_array
            if self.dir == 'FFTW_FORWARD': self.o[...] = np_fft(self.i, axis=self.axis)
            elif normalise_idft: self.o[...] = np_ifft(self.i, axis=self.axis)
            else: self.o[...] = self._raw(self.i, self.axis)
            return self.o
    def n_byte_align_empty(shape, n=None, dtype='float64', order='C', **k): return np_empty(shape, dtype)
    def empty_aligned(shape, dtype='float64', order='C', n=None, **k): return np_empty(shape, dtype)
    def zeros_aligned(shape, dtype='float64', order='C', n=None, **k): return np_zeros(shape, dtype)
    def n_byte_align(a, n=None, dtype=None): return np_asarray(a, dtype)
    b = _mod('pyfftw.builders')
    def builder(direction):
        def mk(a, *args, **kw): 
            return FFTW(a, np_empty(a.shape, 'complex128'), direction=direction, axes=(kw.get('axis', -1),))
        return mk
    b.fft = builder('FFTW_FORWARD'); b.ifft = builder('FFTW_BACKWARD')
    sf = _mod('pyfftw.interfaces.scipy_fftpack', fft=np_fft, ifft=np_ifft, fftshift=np_fftshift, ifftshift=np_ifftshift)
    nf = _mod('pyfftw.interfaces.numpy_fft', fft=np_fft, ifft=np_ifft)
    it = _mod('pyfftw.interfaces', scipy_fftpack=sf, numpy_fft=nf, cache=Opaque('cache'))
    return _mod('pyfftw', FFTW=FFTW, n_byte_align_empty=n_byte_align_empty, empty_aligned=empty_aligned, zeros_aligned=zeros_aligned, n_byte_align=n_byte_align,
                byte_align=n_byte_align, builders=b, interfaces=it, simd_alignment=16, config=Opaque('config'), import_wisdom=lambda *a: None, export_wisdom=lambda: None,
                forget_wisdom=lambda: None)

# exp(i*unwrap(p)[k]) = exp(i*p[k])
_old = TM_exp_i_fn = None
from . import terms as TM
_orig_exp_i_fn = TM.exp_i_fn
def _exp_i_fn(a):
    if a.data[0] == 'unwrap':
        n, L, i = a.data[1:]
        x = lam_apply(L, [i])
        return mk_exp(mul(I_, x)), mk_exp(neg(mul(I_, x)))
    return _orig_exp_i_fn(a)
TM.exp_i_fn = _exp_i_fn
TM.FN_REBUILD['arcsin'] = t_arc('arcsin'); TM.FN_REBUILD['arccos'] = t_arc('arccos'); TM.FN_REBUILD['arctan'] = t_arc('arctan')
TM.FN_REBUILD['sinc'] = t_sinc
TM.FN_REBUILD['arctan2'] = t_arctan2; TM.FN_REBUILD['angle'] = t_angle

# math module
def make_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        if not k.startswith('_'): m.__dict__[k] = getattr(_math, k)
    def wrap(name, u, native):
        def f(*a):
            if any(isinstance(x, (SV, SB, Arr)) for x in a): 
                r = U[u](*[x.item() if isinstance(x, Arr) else x for x in a])
                return r
            return native(*a)
        return f
    for k, u in dict(sqrt='sqrt', exp='exp', log='log', log10='log10', sin='sin', cos='cos', tan='tan', asin='arcsin', acos='arccos', atan='arctan', atan2='arctan2',
                     sinh='sinh', cosh='cosh', tanh='tanh', fabs='abs', hypot='hypot', radians='deg2rad', degrees='rad2deg', isnan='isnan', isinf='isinf', isfinite='isfinite').items():
        m.__dict__[k] = wrap(k, u, getattr(_math, k))
    def fl(x): return mkv(mk_floor(lift(x)[0]), 'i') if isinstance(x, (SV, Arr)) else _math.floor(x)
    def ce(x): return mkv(t_ceil(lift(x)[0]), 'i') if isinstance(x, (SV, Arr)) else _math.ceil(x)
    m.floor = fl; m.ceil = ce
    m.pow = lambda a, b: a ** b
    m.factorial = lambda n: factorial(n, True) if isinstance(n, SV) else _math.factorial(n)
    return m

# ------------------------------------------------------------------ pytables (an HDF5 file is a tree of named groups and arrays)
def make_tables(files):
    m = ShimModule('tables')
    class NodeError(Exception): pass
    class NoSuchNodeError(NodeError): pass
    class Atom:
        def __init__(self, dtype): self.dtype = dtype
        @staticmethod
        def from_dtype(d, *a, **k): return Atom(d)
    class Group:
        def __init__(self, path): self.path = path; self.kids = {}; self._v_pathname = path
        @property
        def _v_nchildren(self): return len(self.kids)
    class CArray:
        def __init__(self, atom, shape):
            self.atom = atom; self.shape = tuple(shape); self.data = SVM.zeros(tuple(dimT(x) for x in shape), 'c' if kind_of_dtype(atom.dtype) == 'c' else 'f')
        def __getitem__(self, k): 
            r = self.data[k]
            return r.copy() if isinstance(r, Arr) else r
        def __setitem__(self, k, x): self.data[k] = x
        def read(self): return self.data.copy()
        def __len__(self): return self.shape[0]
    class File:
        def __init__(self, name, root, mode): self.name = name; self.root = root; self.mode = mode; self.open = True
        def _chk(self, w=False):
            if not self.open: raise ValueError('the file is closed')
            if w and self.mode == 'r': raise NodeError('not writable')
        def _find(self, where, name=None):
            self._chk()
            if isinstance(where, (Group, CArray)): p = where
            else:
                if not where.startswith('/'): raise NameError('``where`` must start with a slash')
                p = self.root
                for q in [q for q in where.split('/') if q]:
                    if not isinstance(p, Group) or q not in p.kids: raise NoSuchNodeError(where)
                    p = p.kids[q]
            if name is not None:
                if name not in p.kids: raise NoSuchNodeError(name)
                p = p.kids[name]
            return p
        def get_node(self, where, name=None, classname=None): return self._find(where, name)
        def list_nodes(self, where, classname=None): return list(self._find(where).kids.values())
        def iter_nodes(self, where, classname=None): return iter(self.list_nodes(where))
        def __contains__(self, where):
            try: self._find(where); return True
            except NoSuchNodeError: return False
        def _new(self, where, name, x):
            self._chk(True); p = self._find(where)
            if name in p.kids: raise NodeError('group already has a child named ' + name)
            p.kids[name] = x; return x
        def create_group(self, where, name, title='', **k): return self._new(where, name, Group(name))
        def create_carray(self, where, name, atom=None, shape=None, title='', obj=None, **k):
            if atom is None or shape is None: raise Unsupported('create_carray without atom and shape')
            if obj is not None: raise Unsupported('create_carray(obj)')
            return self._new(where, name, CArray(atom, shape))
        def create_array(self, where, name, obj=None, *a, **k):
            o = SVM.to_arr(obj); c = CArray.__new__(CArray); c.data = o.copy(); c.shape = o.shape; c.atom = None
            return self._new(where, name, c)
        def remove_node(self, where, name=None, recursive=False):
            self._chk(True); p = self._find(where)
            if name is None: raise Unsupported('remove_node(path)')
            x = self._find(where, name)
            if isinstance(x, Group) and x.kids and not recursive: raise NodeError('group has child nodes')
            del p.kids[name]
        def flush(self): self._chk()
        def close(self): self.open = False
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
    def open_file(name, mode='r', *a, **k):
        if mode == 'r' and name not in files: raise OSError('no such file')
        if mode == 'w' or name not in files: files[name] = Group('/')
        return File(name, files[name], mode)
    m.NodeError = NodeError; m.NoSuchNodeError = NoSuchNodeError; m.Atom = Atom; m.open_file = open_file; m.File = File; m.Group = Group; m.CArray = CArray
    return m
