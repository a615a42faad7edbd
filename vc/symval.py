"""Symbolic python values: scalars (SV), booleans (SB), arrays (GA generic / LA concrete shape)."""
import operator, math
from fractions import Fraction
import numpy as _np
from .terms import *
from .engine import ctx, subst_all

KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
def kmax(*ks): return max(ks, key=lambda k: KORD[k])

# ------------------------------------------------------------------ dtype
class DT:
    def __init__(self, kind, name): self.kind = kind; self.name = name; self.char = {'f': 'd', 'c': 'D', 'i': 'l', 'b': '?'}[kind]
    def __call__(self, x=0, *a):
        if isinstance(x, Arr) or isinstance(x, (list, tuple)): return to_arr(x).astype(self)
        t, k = lift(x)
        return coerce(t, k, self.kind)
    def __eq__(self, o):
        try: return kind_of_dtype(o) == self.kind
        except Exception: return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.kind)
    def __repr__(self): return "dtype('%s')" % self.name
    def __deepcopy__(self, m): return self
    @property
    def type(self): return self
    @property
    def itemsize(self): return {'f': 8, 'c': 16, 'i': 8, 'b': 1}[self.kind]
DTS = {'f': DT('f', 'float64'), 'c': DT('c', 'complex128'), 'i': DT('i', 'int64'), 'b': DT('b', 'bool')}
def kind_of_dtype(d):
    if d is None: return 'f'
    if isinstance(d, DT): return d.kind
    if d is float or d is _np.float64: return 'f'
    if d is complex or d is _np.complex128: return 'c'
    if d is int: return 'i'
    if d is bool: return 'b'
    if isinstance(d, type) and hasattr(d, '_vc_kind'): return d._vc_kind
    if isinstance(d, str):
        try: c = _np.dtype(d)
        except Exception: raise Unsupported('dtype %r' % d)
        if c == _np.float64: return 'f'
        if c == _np.complex128: return 'c'
        if c.kind in 'iu' and c.itemsize >= 4: return 'i'
        if c.kind == 'b': return 'b'
    n = getattr(d, '__name__', '')
    if n in ('SymFloat',): return 'f'
    raise Unsupported('dtype %r' % (d,))

def coerce(t, k, kind):
    """store a value of kind k in a slot of kind `kind`"""
    if KORD[k] <= KORD[kind]: return mkv(t, kind)
    if kind == 'f': return mkv(real_part(t), 'f')
    if kind == 'i':
        if k == 'c': t = real_part(t)
        return mkv(trunc_t(t), 'i')
    if kind == 'b': return mkv(mk_ind(mk_not(mk_eq(t, T0))), 'b')
    raise Unsupported('coerce')
def trunc_t(t):
    if is_int(t): return t
    if sign_of(t) in ('pos', 'nonneg', 'zero'): return mk_floor(t)
    if is_const(t):
        c = const_val(t); return const_fr(Fraction(int(c)))
    if ctx().decide(mk_ge(t, T0)): return mk_floor(t)
    return neg(mk_floor(neg(t)))

# ------------------------------------------------------------------ scalars
def mkv(t, k):
    if k == 'b':
        if t is T1: return True
        if t is T0: return False
        return SB(mk_eq(t, T1)) if not _single_ind(t) else SB(_single_ind(t))
    if k == 'i' and is_const(t) and const_val(t).denominator == 1: return int(const_val(t))
    return SV(t, k)
def _single_ind(t):
    if len(t.p) == 1:
        (m, c), = t.p.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == 'ind': return m[0][0].data
    if len(t.p) == 2 and t.p.get((), None) == 1:
        u = sub(T1, t)
        b = _single_ind(u) if len(u.p) == 1 else None
        if b is not None: return mk_not(b)
    return None

def lift(x):
    """-> (T, kind)"""
    if isinstance(x, SV): return x.t, x.k
    if isinstance(x, bool): return (T1 if x else T0), 'b'
    if isinstance(x, int): return const(x), 'i'
    if isinstance(x, float): return const(x), 'f'
    if isinstance(x, complex):
        return add(const(x.real), mul(I_, const(x.imag))), 'c'
    if isinstance(x, SB): return mk_ind(x.b), 'b'
    if isinstance(x, Fraction): return const_fr(x), 'f'
    if isinstance(x, Arr):
        if x.ndim == 0: return x.elem(()), x.kind
        raise TypeError('only size-1 arrays can be converted to scalars')
    if isinstance(x, _np.generic): return lift(x.item())
    if isinstance(x, T): return x, ('i' if is_int(x) else 'f' if is_real(x) else 'c')
    raise TypeError('unsupported operand %r' % type(x))
def is_scalar(x):
    return isinstance(x, (SV, SB, int, float, complex, Fraction, _np.generic)) 

class SymNum: pass

class SB:
    __slots__ = ('b',)
    __array_priority__ = 1000
    def __init__(self, b): self.b = b
    def __bool__(self): return ctx().decide(self.b)
    def __and__(self, o): return boolop('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return boolop('or', self, o)
    __ror__ = __or__
    def __xor__(self, o): return boolop('xor', self, o)
    __rxor__ = __xor__
    def __invert__(self): return mkb(mk_not(self.b))
    def __eq__(self, o): return SV(mk_ind(self.b), 'i') == o
    def __ne__(self, o): return SV(mk_ind(self.b), 'i') != o
    def __hash__(self): return 0
    def __deepcopy__(self, m): return self
    def _n(self): return SV(mk_ind(self.b), 'i')
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def __repr__(self): return 'SB(%s)' % bstr(self.b)
def mkb(b):
    if b is BT: return True
    if b is BF: return False
    return SB(b)
def tob(x):
    if isinstance(x, SB): return x.b
    if isinstance(x, bool): return BT if x else BF
    if isinstance(x, Arr) and x.ndim == 0: x = x.item()
    if isinstance(x, SB): return x.b
    if isinstance(x, bool): return BT if x else BF
    if isinstance(x, _np.bool_): return BT if x else BF
    t, k = lift(x)
    return mk_not(mk_eq(t, T0))
def boolop(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(lambda x, y: mk_ind(_bop(op, mk_not(mk_eq(x, T0)) if not _single_ind(x) else _single_ind(x), mk_not(mk_eq(y, T0)) if not _single_ind(y) else _single_ind(y))), 'b', a, b)
    return mkb(_bop(op, tob(a), tob(b)))
def _bop(op, x, y):
    if op == 'and': return mk_and(x, y)
    if op == 'or': return mk_or(x, y)
    return mk_or(mk_and(x, mk_not(y)), mk_and(mk_not(x), y))

def _defined_nonzero(t):
    """record that a divisor is assumed to be nonzero"""
    c = ctx()
    if c is None or is_const(t): return
    s = sign_of(t) if is_real(t) else 'any'
    if s in ('pos', 'neg'): return
    c.nz = getattr(c, 'nz', set()); c.nz.add(t)

def t_div(a, b):
    if not b.p: raise ZeroDivisionError('division by zero')
    _defined_nonzero(b)
    return mul(a, power(b, -1))
def t_pow(a, b, ka='f', kb='f'):
    if is_const(b):
        q = const_val(b)
        if q.denominator <= 24: return power(a, q)
        for d in (3, 5, 6, 7, 8, 9, 10, 12):
            if abs(q * d - round(q * d)) < Fraction(1, 10 ** 12): return power(a, Fraction(round(q * d), d))
    if a is T1: return T1
    if is_real(a) and (sign_of(a) == 'pos' or not is_int(b)):
        return mk_exp(mul(b, mk_log(a)))
    if is_const(a) and const_val(a) == -1:
        return mk_fn('m1pow', b, sign='any', integer=True)
    return mk_fn('pow', a, b, real=is_real(a))

def arith(op, a, b):
    """scalar arithmetic with python/numpy kind rules"""
    if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)): return NotImplemented
    try:
        x, kx = lift(a); y, ky = lift(b)
    except TypeError:
        return NotImplemented
    t, k = arith_t(op, x, kx, y, ky)
    return mkv(t, k)
def arith_kind(op, kx, ky):
    k = kmax(kx, ky)
    if op in ('div',): return kmax(k, 'f')
    if op in ('add', 'sub', 'mul', 'fdiv', 'mod', 'pow', 'max', 'min'): return k if k != 'b' else 'i'
    return k
def arith_t(op, x, kx, y, ky):
    k = arith_kind(op, kx, ky)
    if op == 'add': return add(x, y), k
    if op == 'sub': return sub(x, y), k
    if op == 'mul': return mul(x, y), k
    if op == 'div': return t_div(x, y), k
    if op == 'pow':
        if k == 'i' and is_const(y) and const_val(y) < 0: k = 'f'
        r = t_pow(x, y, kx, ky)
        return r, k
    if op == 'fdiv': return mk_floor(t_div(x, y)), k
    if op == 'mod':
        if k == 'i' and (is_const(y) and const_val(y) > 0 or sign_of(y) == 'pos'): return mk_mod(x, y), k
        return sub(x, mul(y, mk_floor(t_div(x, y)))), k
    raise Unsupported(op)

def cmp_t(op, x, y):
    if op == 'eq': return mk_eq(x, y)
    if op == 'ne': return mk_not(mk_eq(x, y))
    if op == 'lt': return mk_gt(y, x)
    if op == 'gt': return mk_gt(x, y)
    if op == 'le': return mk_not(mk_gt(x, y))
    if op == 'ge': return mk_not(mk_gt(y, x))
def compare(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr): return NotImplemented
    for z in (a, b):
        if isinstance(z, float) and (z != z or z in (math.inf, -math.inf)):
            if z != z: return op == 'ne'
            big = z > 0 if z is b else z < 0
            return {'eq': False, 'ne': True, 'lt': big, 'le': big, 'gt': not big, 'ge': not big}[op]
    try:
        x, kx = lift(a); y, ky = lift(b)
    except TypeError:
        return {'eq': False, 'ne': True}.get(op, NotImplemented)
    return mkb(cmp_t(op, x, y))

class SV(SymNum):
    __slots__ = ('t', 'k')
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, t, k='f'): self.t = t; self.k = k
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __repr__(self): return 'SV(%s)' % tstr(self.t)[:300]
    __str__ = __repr__
    def __format__(self, spec): return '<sym>'
    def __hash__(self): return 0
    def __add__(self, o): return arith('add', self, o)
    def __radd__(self, o): return arith('add', o, self)
    def __sub__(self, o): return arith('sub', self, o)
    def __rsub__(self, o): return arith('sub', o, self)
    def __mul__(self, o): return arith('mul', self, o)
    def __rmul__(self, o): return arith('mul', o, self)
    def __truediv__(self, o): return arith('div', self, o)
    def __rtruediv__(self, o): return arith('div', o, self)
    def __floordiv__(self, o): return arith('fdiv', self, o)
    def __rfloordiv__(self, o): return arith('fdiv', o, self)
    def __mod__(self, o): return arith('mod', self, o)
    def __rmod__(self, o):
        if isinstance(o, str): return o
        return arith('mod', o, self)
    def __pow__(self, o): return arith('pow', self, o)
    def __rpow__(self, o): return arith('pow', o, self)
    def __divmod__(self, o): return self // o, self % o
    def __rshift__(self, o):
        if self.k not in 'ib' or not isinstance(o, int): raise Unsupported('shift')
        return mkv(mk_floor(scale(self.t, Fraction(1, 2 ** o))), 'i')
    def __lshift__(self, o):
        if self.k not in 'ib' or not isinstance(o, int): raise Unsupported('shift')
        return mkv(scale(self.t, Fraction(2 ** o)), 'i')
    def __neg__(self): return mkv(neg(self.t), self.k)
    def __pos__(self): return self
    def __abs__(self): return mkv(mk_abs(self.t), 'f' if self.k == 'c' else self.k)
    def __lt__(self, o): return compare('lt', self, o)
    def __gt__(self, o): return compare('gt', self, o)
    def __le__(self, o): return compare('le', self, o)
    def __ge__(self, o): return compare('ge', self, o)
    def __eq__(self, o): return compare('eq', self, o)
    def __ne__(self, o): return compare('ne', self, o)
    def __bool__(self): return ctx().decide(mk_not(mk_eq(self.t, T0)))
    def __index__(self):
        if is_const(self.t): return int(const_val(self.t))
        r = ctx().rw(self.t)
        if is_const(r): return int(const_val(r))
        raise Unsupported('symbolic integer used where a concrete one is needed')
    def __int__(self):
        if is_const(self.t): return int(const_val(self.t))
        raise Unsupported('int() of a symbolic value reached natively')
    def __float__(self):
        if is_const(self.t): return float(const_val(self.t))
        raise Unsupported('float() of a symbolic value reached natively')
    def __complex__(self):
        raise Unsupported('complex() of a symbolic value reached natively')
    def __round__(self, nd=None):
        if nd is None: return mkv(mk_floor(add(self.t, const(Fraction(1, 2)))), 'i')
        raise Unsupported('round to digits')
    def __floor__(self): return mkv(mk_floor(self.t), 'i')
    def __ceil__(self): return mkv(neg(mk_floor(neg(self.t))), 'i')
    def __trunc__(self): return mkv(trunc_t(self.t), 'i')
    # numpy-scalar-like API
    @property
    def real(self): return mkv(real_part(self.t), 'f' if self.k == 'c' else self.k)
    @property
    def imag(self): return mkv(imag_part(self.t), 'f' if self.k == 'c' else self.k)
    def conjugate(self): return mkv(conj(self.t), self.k)
    conj = conjugate
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return DTS[self.k]
    def copy(self): return self
    def item(self): return self
    def flatten(self): return to_arr([self])
    ravel = flatten
    def astype(self, d, **kw): return coerce(self.t, self.k, kind_of_dtype(d))
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def is_integer(self): return mkb(mk_eq(self.t, mk_floor(self.t)))

# ------------------------------------------------------------------ arrays
def dimT(n):
    if isinstance(n, T): return n
    t, k = lift(n)
    if not is_int(t):
        raise TypeError('dimension must be an integer')
    return t
def dimv(t): return mkv(t, 'i')
def is_cdim(t): return is_const(t)

class Buf:
    __slots__ = ('shape', 'kind', 'body', 'ro')
    def __init__(self, shape, kind, body): self.shape = shape; self.kind = kind; self.body = body
    def __deepcopy__(self, memo):
        b = Buf(self.shape, self.kind, self.body); memo[id(self)] = b; return b
    def ix(self):
        r = [idx(n, d) for d, n in enumerate(self.shape)]
        if _OPEN and any(x in o for o in _OPEN for x in r): raise Nested()
        return r
_OPEN = []          # index variables of the arrays whose elements are being computed
class Nested(BaseException):
    """an array is created, with the same index variable, while an element of another one is being computed"""

class ArrMeta(type):
    def __call__(cls, *a, **k):
        if cls is Arr: return NEW_ARRAY[0](*a, **k)
        return type.__call__(cls, *a, **k)
NEW_ARRAY = [None]
class Arr(metaclass=ArrMeta):
    """shim for numpy.ndarray"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None
    # ---- subclass API: shapeT (tuple of T), kind, elem(idxs)->T, _store(view, fn)
    @property
    def ndim(self): return len(self.shapeT)
    @property
    def shape(self): return tuple(dimv(n) for n in self.shapeT)
    @shape.setter
    def shape(self, s):
        r = reshape(self, s)
        self.__class__ = r.__class__; self.__dict__.update(r.__dict__)
    @property
    def sizeT(self):
        r = T1
        for n in self.shapeT: r = mul(r, n)
        return r
    @property
    def size(self): return dimv(self.sizeT)
    @property
    def dtype(self): return DTS[self.kind]
    @property
    def T(self): return self.transpose()
    @property
    def itemsize(self): return 16 if self.kind == 'c' else 8
    @property
    def nbytes(self): return self.size * self.itemsize
    def __array__(self, *a, **k): raise Unsupported('symbolic array passed to native numpy')
    def __bool__(self):
        if self.ndim == 0 or all(n is T1 for n in self.shapeT):
            return bool(mkb(mk_not(mk_eq(self.elem((T0,) * self.ndim), T0))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __float__(self): return float(self.item())
    def __len__(self):
        if self.ndim == 0: raise TypeError('len() of unsized object')
        return operator.index(dimv(self.shapeT[0]))
    def item(self, *a):
        if a: return self[a if len(a) > 1 else a[0]]
        if self.ndim == 0 or all(n is T1 for n in self.shapeT): return mkv(self.elem((T0,) * self.ndim), self.kind)
        raise ValueError('can only convert an array of size 1')
    def __iter__(self):
        if self.ndim == 0: raise TypeError('iteration over a 0-d array')
        if not is_cdim(self.shapeT[0]): raise Unsupported('native iteration over a symbolic array')
        for i in range(int(const_val(self.shapeT[0]))): yield self[i]
    def __format__(self, s): return '<arr>'
    # arithmetic
    def __add__(self, o): return nd_arith('add', self, o)
    def __radd__(self, o): return nd_arith('add', o, self)
    def __sub__(self, o): return nd_arith('sub', self, o)
    def __rsub__(self, o): return nd_arith('sub', o, self)
    def __mul__(self, o): return nd_arith('mul', self, o)
    def __rmul__(self, o): return nd_arith('mul', o, self)
    def __truediv__(self, o): return nd_arith('div', self, o)
    def __rtruediv__(self, o): return nd_arith('div', o, self)
    def __floordiv__(self, o): return nd_arith('fdiv', self, o)
    def __rfloordiv__(self, o): return nd_arith('fdiv', o, self)
    def __mod__(self, o): return nd_arith('mod', self, o)
    def __pow__(self, o): return nd_arith('pow', self, o)
    def __rpow__(self, o): return nd_arith('pow', o, self)
    def __matmul__(self, o): return dot(self, o)
    def __neg__(self): return elementwise(neg, self.kind, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(mk_abs, 'f' if self.kind == 'c' else self.kind, self)
    def __and__(self, o): return boolop('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return boolop('or', self, o)
    __ror__ = __or__
    def __xor__(self, o): return boolop('xor', self, o)
    def __invert__(self): return elementwise(lambda x: sub(T1, x), 'b', self)
    def __lt__(self, o): return nd_cmp('lt', self, o)
    def __gt__(self, o): return nd_cmp('gt', self, o)
    def __le__(self, o): return nd_cmp('le', self, o)
    def __ge__(self, o): return nd_cmp('ge', self, o)
    def __eq__(self, o):
        if o is None: return False
        return nd_cmp('eq', self, o)
    def __ne__(self, o):
        if o is None: return True
        return nd_cmp('ne', self, o)
    def _inplace(self, op, o):
        r = nd_arith(op, self, o)
        if KORD[r.kind] > KORD[self.kind] if isinstance(r, Arr) else False:
            if not (r.kind == 'i' and self.kind == 'b'):
                raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r.kind, self.kind))
        self[...] = r
        return self
    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('sub', o)
    def __imul__(self, o): return self._inplace('mul', o)
    def __itruediv__(self, o): return self._inplace('div', o)
    def __ipow__(self, o): return self._inplace('pow', o)
    def __ifloordiv__(self, o): return self._inplace('fdiv', o)
    @property
    def real(self):
        if self.kind == 'c': return PartView(self, 'real')
        return self
    @real.setter
    def real(self, v):
        if self.kind != 'c': self[...] = v
        else: self[...] = elementwise(lambda x, y: add(real_part(y), mul(I_, imag_part(x))), 'c', self, v)
    @property
    def imag(self):
        if self.kind == 'c': return PartView(self, 'imag')
        return zeros(self.shapeT, self.kind)
    @imag.setter
    def imag(self, v):
        self[...] = elementwise(lambda x, y: add(real_part(x), mul(I_, real_part(y))), 'c', self, v)
    def conjugate(self, *a): return elementwise(conj, self.kind, self)
    conj = conjugate
    def copy(self, order=None): return elementwise(lambda x: x, self.kind, self)
    __copy__ = copy
    def astype(self, d, copy=True, **kw):
        k = kind_of_dtype(d)
        if k == self.kind: return self.copy() if copy else self
        return elementwise(lambda x: lift(coerce(x, self.kind, k))[0], k, self)
    def fill(self, v): self[...] = v
    def flatten(self, order='C'):
        if order != 'C': raise Unsupported('memory order')
        return reshape(self, (-1,)).copy()
    def ravel(self, order='C'):
        if order != 'C': raise Unsupported('memory order')
        return reshape(self, (-1,))
    def reshape(self, *s, **kw):
        if kw.get('order', 'C') != 'C': raise Unsupported('memory order')
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        return reshape(self, s)
    def squeeze(self, axis=None):
        keep = [d for d, n in enumerate(self.shapeT) if n is not T1]
        ix = tuple(slice(None) if d in keep else 0 for d in range(self.ndim))
        return self[ix]
    def sum(self, axis=None, **kw): _kw(kw); return reduce_sum(self, axis)
    def mean(self, axis=None, **kw): _kw(kw); return reduce_mean(self, axis)
    def max(self, axis=None, **kw): _kw(kw); return reduce_ext('amax', self, axis)
    def min(self, axis=None, **kw): _kw(kw); return reduce_ext('amin', self, axis)
    def argmax(self, axis=None): return arg_ext('argmax', self)
    def argmin(self, axis=None): return arg_ext('argmin', self)
    def any(self, axis=None): return reduce_bool('any', self)
    def all(self, axis=None): return reduce_bool('all', self)
    def prod(self, axis=None):
        if isinstance(self, LA):
            r = T1
            for x in self.a.flat: r = mul(r, x)
            return mkv(r, self.kind)
        raise Unsupported('prod')
    def cumsum(self, axis=None): return cumsum(self)
    def dot(self, o): return dot(self, o)
    def tolist(self):
        if any(not is_cdim(n) for n in self.shapeT): return self.copy()      # (a list of symbolic length: only converted back to an array)
        return [x.tolist() if isinstance(x, Arr) else x for x in self]
    def std(self, *a, **k): raise Unsupported('std')
    def view(self, *a): 
        if not a: return self[...]
        raise Unsupported('view dtype')
    def setflags(self, *a, **k): pass
    @property
    def flags(self): return Flags()
    @property
    def flat(self): return reshape(self, (-1,))
    def tobytes(self, *a): raise Unsupported('tobytes')
    def tofile(self, *a): raise Unsupported('tofile')

def _kw(kw):
    for k, x in kw.items():
        if x is not None and not (k == 'keepdims' and x is False): raise Unsupported('option %s' % k)
class Flags:
    writeable = True
    c_contiguous = True
    def __getitem__(self, k): return True
    def __setitem__(self, k, v): pass

def conv_index(e, n):
    """scalar index -> T in [0,n)"""
    t, k = lift(e)
    if k == 'f' or k == 'c':
        raise IndexError('only integers, slices (`:`), ellipsis (`...`) are valid indices')
    c = ctx()
    if c is not None: t = c.rw(t)
    if is_const(t) and is_const(n):
        i, nn = const_val(t), const_val(n)
        if i < 0: i += nn
        if not 0 <= i < nn: raise IndexError('index out of bounds')
        return const_fr(i)
    s = sign_of(t)
    if s in ('neg',) or (s not in ('pos', 'nonneg', 'zero') and c.decide(mk_gt(T0, t))):
        t = add(t, n)
        if not c.decide(mk_ge(t, T0)): raise IndexError('index out of bounds')
        return t
    if not c.decide(mk_gt(n, t)): raise IndexError('index out of bounds')
    return t
def conv_slice(s, n):
    """-> (start T, step int, length T)"""
    step = 1 if s.step is None else operator.index(s.step)
    c = ctx()
    if step == -1 and s.start is None and s.stop is None:
        return sub(n, T1), -1, n
    if step < 0:
        if is_const(n) and all(x is None or is_const(lift(x)[0]) for x in (s.start, s.stop)):
            st, sp, stp = slice(*(None if x is None else int(const_val(lift(x)[0])) for x in (s.start, s.stop)), step).indices(int(const_val(n)))
            return const(st), step, const(len(range(st, sp, stp)))
        raise Unsupported('negative-step slice')
    def norm(x, default):
        if x is None: return default
        t, k = lift(x)
        if k in 'fc': raise TypeError('slice indices must be integers')
        if c is not None: t = c.rw(t)
        if t is n: return n
        if sign_of(t) in ('pos', 'nonneg', 'zero'): pass
        elif c.decide(mk_gt(T0, t)):
            t = add(t, n)
            if sign_of(t) not in ('pos', 'nonneg', 'zero') and c.decide(mk_gt(T0, t)): return T0
        if not t.p: return t
        if c.decide(mk_gt(t, n)): return n
        return t
    if s.start is None and s.stop is None: a, b = T0, n
    else: a, b = norm(s.start, T0), norm(s.stop, n)
    d = sub(b, a)
    if not d.p or (sign_of(d) not in ('pos', 'nonneg') and not ctx().decide(mk_ge(d, T0))): d = T0
    if step != 1 and d.p:
        d = mk_floor(scale(add(d, const(step - 1)), Fraction(1, step)))
    return a, step, d

def parse_index(key, shape):
    """-> list of per-source-dim specs: ('i',T) | ('s',start,step,len) | ('a',Arr) ; plus newaxis positions handled"""
    if not isinstance(key, tuple): key = (key,)
    nd = sum(1 for k in key if k is not None and k is not Ellipsis)
    out = []; d = 0
    if Ellipsis not in [k for k in key if not isinstance(k, (Arr, SV, SB))]:
        key = key + (Ellipsis,)
    newax = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen: continue
            seen = True
            for _ in range(len(shape) - nd):
                out.append(('s', T0, 1, shape[d])); d += 1
        elif k is None:
            out.append(('n',))
        elif isinstance(k, slice):
            out.append(('s',) + conv_slice(k, shape[d])); d += 1
        elif isinstance(k, (list,)) or (isinstance(k, Arr) and k.ndim > 0):
            out.append(('a', to_arr(k))); d += 1
        else:
            if d >= len(shape): raise IndexError('too many indices for array')
            out.append(('i', conv_index(k, shape[d]))); d += 1
    if d > len(shape): raise IndexError('too many indices for array')
    return out

class GA(Arr):
    """generic array view: buffer + affine index map"""
    def __init__(self, buf, shapeT=None, imap=None):
        self.buf = buf
        if shapeT is None:
            shapeT = buf.shape
            imap = tuple((d, T0, 1) for d in range(len(shapeT)))
        self.shapeT = tuple(shapeT)
        self.imap = imap       # per buffer dim: (viewdim or None, start T, step int)
        self.kind = buf.kind
    def __deepcopy__(self, memo):
        r = self.copy(); memo[id(self)] = r; return r
    def __repr__(self): return 'GA(%s)%s' % (','.join(tstr(n) for n in self.shapeT), tstr(self.elem(self.gidx()))[:400])
    def gidx(self): return tuple(from_atom(idx(n, d)) for d, n in enumerate(self.shapeT))
    def is_full(self):
        return len(self.shapeT) == len(self.buf.shape) and all(v == d and not s.p and st == 1 and self.shapeT[v] is self.buf.shape[d]
                                                         for d, (v, s, st) in enumerate(self.imap))
    def bidx(self, idxs):
        r = []
        for (v, s, st) in self.imap:
            if v is None: r.append(s)
            else: r.append(add(s, scale(idxs[v], Fraction(st))))
        return r
    def elem(self, idxs):
        b = self.buf
        mp = {}
        for d, e in enumerate(self.bidx(idxs)):
            a = idx(b.shape[d], d)
            if e is not from_atom(a): mp[a] = e
        return subst(b.body, mp) if mp else b.body
    def _view(self, specs):
        shape = []; vm = {}; newmap = {}
        vd = 0; sd = 0
        for s in specs:
            if s[0] == 'n': shape.append(T1); continue
            if s[0] == 'i': newmap[sd] = (None, s[1], 0)
            else:
                newmap[sd] = (len(shape), s[1], s[2]); shape.append(s[3])
            sd += 1
        imap = []
        for (v, st, step) in self.imap:
            if v is None: imap.append((None, st, 0))
            else:
                nv, s2, step2 = newmap[v]
                imap.append((nv, add(st, scale(s2, Fraction(step))), step * step2))
        return GA(self.buf, shape, tuple(imap))
    def __getitem__(self, key):
        if isinstance(key, Arr) and key.kind == 'b':
            return mask_select(self, key)
        specs = parse_index(key, self.shapeT)
        if any(s[0] == 'a' for s in specs):
            if len(specs) == 1:
                ia = specs[0][1]
                if ia.kind == 'b': return mask_select(self, ia)
                n = self.shapeT[0]
                return elementwise(lambda i: self.elem((wrap_neg(i, n),)), self.kind, ia)
            if sum(1 for s in specs if s[0] == 'a') == 1 and len(specs) == 2:
                p = [j for j, s in enumerate(specs) if s[0] == 'a'][0]
                ia = specs[p][1]; o = specs[1 - p]
                if o[0] == 'i':
                    f = lambda i: self.elem((i, o[1]) if p == 0 else (o[1], i))
                    return elementwise(f, self.kind, ia)
            raise Unsupported('fancy indexing')
        v = self._view(specs)
        if v.ndim == 0: return mkv(v.elem(()), self.kind)
        return v
    def __setitem__(self, key, val):
        if isinstance(key, Arr) and key.kind == 'b':
            if not is_scalar(val) and not (isinstance(val, Arr) and val.ndim == 0):
                raise Unsupported('masked assignment of an array')
            self[...] = where(key, val, self)
            return
        specs = parse_index(key, self.shapeT)
        if any(s[0] == 'a' for s in specs): raise Unsupported('fancy assignment')
        self._view(specs).store(val)
    def store(self, val):
        b = self.buf
        k = self.kind
        if isinstance(val, (list, tuple)): val = to_arr(val)
        if isinstance(val, Arr):
            val = broadcast_to(val, self.shapeT)
            kv = val.kind
            getv = val.elem
        else:
            if val is None: raise TypeError('float() argument must be a string or a real number')
            tv, kv = lift(val)
            getv = lambda i: tv
        if KORD[kv] > KORD[k]:
            if kv == 'c':
                if not (getv is None) and ctx() is not None: ctx().warn_complex_discard = True
            g0 = getv
            getv = lambda i: lift(coerce(g0(i), kv, k))[0]
        if self.is_full():
            b.body = getv(self.gidx()); return
        bix = b.ix()
        conds = []; vidx = [None] * len(self.shapeT)
        for d, (v, s, st) in enumerate(self.imap):
            j = from_atom(bix[d])
            if v is None:
                conds.append(mk_eq(j, s))
            else:
                L = self.shapeT[v]
                if st == 1:
                    if s.p: conds.append(mk_ge(j, s))
                    if add(s, L) is not b.shape[d]: conds.append(mk_gt(add(s, L), j))
                    vidx[v] = sub(j, s)
                elif st == -1:
                    if s is not sub(b.shape[d], T1): conds.append(mk_ge(s, j))
                    if sub(s, L) is not const(-1): conds.append(mk_gt(j, sub(s, L)))
                    vidx[v] = sub(s, j)
                else:
                    q = const(abs(st))
                    if st < 0: raise Unsupported('strided store')
                    conds.append(mk_eq(mk_mod(sub(j, s), q), T0)); conds.append(mk_ge(j, s))
                    conds.append(mk_gt(add(s, scale(L, Fraction(st))), j))
                    vidx[v] = scale(sub(j, s), Fraction(1, st))
        for i, x in enumerate(vidx):
            if x is None: vidx[i] = T0
        b.body = mk_ite(mk_and(*conds), getv(tuple(vidx)), b.body)
    def transpose(self, *axes):
        if self.ndim < 2: return self
        if axes and isinstance(axes[0], (tuple, list)): axes = axes[0]
        perm = list(axes) if axes else list(range(self.ndim))[::-1]
        inv = {p: i for i, p in enumerate(perm)}
        return GA(self.buf, [self.shapeT[p] for p in perm], tuple((None if v is None else inv[v], s, st) for v, s, st in self.imap))

class PartView(Arr):
    """write-through .real / .imag of a complex array"""
    def __init__(self, base, part):
        self.base_ = base; self.part = part; self.kind = 'f'
    @property
    def shapeT(self): return self.base_.shapeT
    def elem(self, i):
        return (real_part if self.part == 'real' else imag_part)(self.base_.elem(i))
    def __getitem__(self, k):
        r = self.base_[k]
        return r.real if self.part == 'real' else r.imag
    def __setitem__(self, k, v):
        b = self.base_[k]
        if not isinstance(b, Arr): b = to_arr(b)
        if self.part == 'real':
            self.base_[k] = elementwise(lambda x, y: add(real_part(y), mul(I_, imag_part(x))), 'c', b, v)
        else:
            self.base_[k] = elementwise(lambda x, y: add(real_part(x), mul(I_, real_part(y))), 'c', b, v)
    def __deepcopy__(self, memo): return self.copy()
    def transpose(self, *a): return self.copy().transpose(*a)
    def gidx(self): return tuple(from_atom(idx(n, d)) for d, n in enumerate(self.shapeT))
    @property
    def a(self):
        raise AttributeError

class LA(Arr):
    """array of concrete shape; numpy object array of T"""
    def __init__(self, a, kind):
        self.a = a; self.kind = kind
    def __deepcopy__(self, memo):
        r = self.copy(); memo[id(self)] = r; return r
    def __repr__(self): return 'LA%r' % ([tstr(x)[:80] for x in self.a.flat],)
    @property
    def shapeT(self): return tuple(const(int(s)) for s in self.a.shape)
    def gidx(self): return tuple(from_atom(idx(n, d)) for d, n in enumerate(self.shapeT))
    def elem(self, idxs):
        if all(is_const(i) for i in idxs):
            r = self.a[tuple(int(const_val(i)) for i in idxs)]
            return r
        if len(idxs) == 1:
            if self.a.size > 600: raise Unsupported('symbolic index into a large concrete array')
            out = T0
            vals = list(self.a)
            if all(v is vals[0] for v in vals): return vals[0]
            for j, v in enumerate(vals): 
                if v.p: out = add(out, mul(mk_ind(mk_eq(idxs[0], const(j))), v))
            return out
        for d, i in enumerate(idxs):
            if not is_const(i):
                out = T0
                for j in range(self.a.shape[d]):
                    out = add(out, mul(mk_ind(mk_eq(i, const(j))), self.elem(idxs[:d] + (const(j),) + idxs[d + 1:])))
                return out
    def _k(self, key):
        if isinstance(key, tuple): return tuple(self._k1(k) for k in key)
        return self._k1(key)
    def _k1(self, k):
        if isinstance(k, LA):
            v = [x for x in k.a.flat]
            if not all(is_const(x) for x in v): raise Unsupported('symbolic fancy index')
            v = [int(const_val(x)) for x in v]
            r = _np.array(v, dtype=bool if k.kind == 'b' else int).reshape(k.a.shape)
            return r
        if isinstance(k, list): return self._k1(to_arr(k))
        if isinstance(k, slice):
            return slice(*(None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)))
        if k is None or k is Ellipsis: return k
        if isinstance(k, float): raise IndexError('only integers are valid indices')
        return operator.index(k)
    def _symkey(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        for k in ks:
            if isinstance(k, (SV,)) and not is_const(ctx().rw(k.t)): return True
            if isinstance(k, GA): return True
            if isinstance(k, LA) and not all(is_const(x) for x in k.a.flat): return True
            if isinstance(k, slice) and any(isinstance(x, SV) and not is_const(ctx().rw(x.t)) for x in (k.start, k.stop)): return True
        return False
    def _as_ga(self):
        g = GA(Buf(self.shapeT, self.kind, None))
        g.buf.body = self.elem(tuple(from_atom(x) for x in g.buf.ix()))
        return g
    def __getitem__(self, key):
        if self._symkey(key):
            if isinstance(key, LA) and key.kind == 'b': return mask_select(self, key)
            return self._as_ga()[key]
        r = self.a[self._k(key)]
        if isinstance(r, T): return mkv(r, self.kind)
        return LA(r, self.kind)
    def __setitem__(self, key, val):
        k = self.kind
        if self._symkey(key):
            if isinstance(key, LA) and key.kind == 'b':
                self[...] = where(key, val, self); return
            g = self._as_ga(); g[key] = val
            for ix in _np.ndindex(*self.a.shape): self.a[ix] = g.elem(tuple(const(int(j)) for j in ix))
            return
        if isinstance(val, (list, tuple)): val = to_arr(val)
        if isinstance(val, (GA, PartView)):
            sh = self.a[self._k(key)].shape
            val = force_la(broadcast_to(val, tuple(const(int(s)) for s in sh)))
        if isinstance(val, LA):
            kv = val.kind; v = val.a
            if v.ndim == 0: v = v.item()
        else:
            if val is None: raise TypeError('float() argument must be a string or a real number')
            v, kv = lift(val)
        if KORD[kv] > KORD[k]:
            cv = lambda x: lift(coerce(x, kv, k))[0]
            v = cv(v) if isinstance(v, T) else _map(cv, v)
        kk = self._k(key)
        if isinstance(v, T): 
            tgt = self.a[kk]
            if isinstance(tgt, T): self.a[kk] = v
            elif isinstance(kk, _np.ndarray) or (isinstance(kk, tuple) and any(isinstance(x, _np.ndarray) for x in kk)):
                tmp = _np.empty(tgt.shape, object); tmp.fill(v); self.a[kk] = tmp
            else: tgt.fill(v)
        else: self.a[kk] = v
    def store(self, val): self[...] = val
    def transpose(self, *axes): return LA(self.a.transpose(*axes), self.kind)

def _map(f, a):
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape): out[i] = f(a[i])
    return out
def force_la(x):
    """array with constant shape -> LA"""
    if isinstance(x, LA): return x
    sh = tuple(int(const_val(n)) for n in x.shapeT)
    out = _np.empty(sh, dtype=object)
    for i in _np.ndindex(*sh): out[i] = x.elem(tuple(const(int(j)) for j in i))
    return LA(out, x.kind)
def wrap_neg(i, n):
    s = sign_of(i)
    if s in ('pos', 'nonneg', 'zero'): return i
    return mk_mod(i, n)

def mk_arr(shapeT, kind, f):
    """fresh array from an element function"""
    shapeT = tuple(shapeT)
    if all(is_const(n) for n in shapeT):
        sh = tuple(int(const_val(n)) for n in shapeT)
        tot = 1
        for s in sh: tot *= s
        if tot <= 4096:
            out = _np.empty(sh, dtype=object)
            for i in _np.ndindex(*sh): out[i] = f(tuple(const(int(j)) for j in i))
            return LA(out, kind)
    b = Buf(shapeT, kind, None)
    ix = b.ix(); _OPEN.append(ix)
    try: b.body = f(tuple(from_atom(x) for x in ix))
    except Nested:
        _OPEN.pop(); ix = None
        w = [fresh_bv(n) for n in shapeT]
        b.body = subst(f(tuple(from_atom(x) for x in w)), {x: from_atom(y) for x, y in zip(w, b.ix())})
    finally:
        if ix is not None: _OPEN.pop()
    return GA(b)
def zeros(shapeT, kind): return mk_arr(shapeT, kind, lambda i: T0)

def to_arr(x, kind=None):
    if isinstance(x, Arr): return x
    if isinstance(x, _np.ndarray):
        k = {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind)
        if k is None: raise Unsupported('native array dtype')
        return LA(_map(lambda v: lift(v.item() if hasattr(v, 'item') else v)[0], x), k)
    if isinstance(x, SymList): return x.to_arr()
    if isinstance(x, (list, tuple, range)):
        items = [to_arr(y) if isinstance(y, (list, tuple, Arr, _np.ndarray, range)) else y for y in x]
        if any(isinstance(y, Arr) for y in items):
            items = [to_arr(y) for y in items]
            if all(isinstance(y, LA) for y in items):
                k = kmax(*[y.kind for y in items])
                if len({y.a.shape for y in items}) != 1: raise ValueError('inhomogeneous shape')
                out = _np.empty((len(items),) + items[0].a.shape, dtype=object)
                for i, y in enumerate(items): out[i] = y.a if y.a.ndim else y.a.item()
                return LA(out, k)
            k = kmax(*[y.kind for y in items])
            sh = items[0].shapeT
            def f(ix):
                if is_const(ix[0]): return items[int(const_val(ix[0]))].elem(ix[1:])
                out = T0
                for j, y in enumerate(items): out = add(out, mul(mk_ind(mk_eq(ix[0], const(j))), y.elem(ix[1:])))
                return out
            return mk_arr((const(len(items)),) + sh, k, f)
        if not items: return LA(_np.empty((0,), dtype=object), 'f')
        ts = [lift(y) for y in items]
        k = kmax(*[k for _, k in ts])
        out = _np.empty((len(ts),), dtype=object)
        for i, (t, _) in enumerate(ts): out[i] = t
        return LA(out, k)
    t, k = lift(x)
    out = _np.empty((), dtype=object); out[()] = t
    return LA(out, k)

def same_dim(a, b):
    if a is b: return True
    if is_const(a) and is_const(b): return False
    c = ctx()
    return c.decide(mk_eq(a, b))
def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = T1
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0: continue
            n = s[j]
            if n is T1: continue
            if cur is T1: cur = n
            elif not same_dim(cur, n):
                if not is_const(n) and ctx().decide(mk_eq(n, T1)): continue
                if not is_const(cur) and ctx().decide(mk_eq(cur, T1)): cur = n; continue
                raise ValueError('operands could not be broadcast together with shapes %s' % ([tuple(map(tstr, s)) for s in shapes],))
        out.append(cur)
    return tuple(out)
def bc_elem(a, idxs, shape):
    """element of array a broadcast into `shape` at idxs"""
    off = len(shape) - len(a.shapeT)
    ix = []
    for d, n in enumerate(a.shapeT):
        ix.append(T0 if (n is T1 and shape[d + off] is not T1) else idxs[d + off])
    return a.elem(tuple(ix))
def broadcast_to(a, shapeT):
    if len(a.shapeT) == len(shapeT) and all(x is y for x, y in zip(a.shapeT, shapeT)): return a
    a0 = a
    while a0.ndim > len(shapeT):
        if a0.shapeT[0] is T1: a0 = a0[0] if a0.ndim > 1 else to_arr(a0[0])
        else: raise ValueError('could not broadcast input array')
    r = broadcast_shapes(a0.shapeT, shapeT)
    for x, y in zip(r, shapeT):
        if x is not y and not same_dim(x, y): raise ValueError('could not broadcast input array from shape')
    return mk_arr(shapeT, a0.kind, lambda i: bc_elem(a0, i, shapeT))

def elementwise(f, kind, *args):
    """apply f on element terms"""
    xs = []
    for a in args:
        if isinstance(a, (list, tuple, _np.ndarray, SymList)): a = to_arr(a)
        xs.append(a)
    arrs = [a for a in xs if isinstance(a, Arr)]
    if not arrs:
        return mkv(f(*[lift(a)[0] for a in xs]), kind)
    shape = broadcast_shapes(*[a.shapeT for a in arrs])
    lifted = [a if isinstance(a, Arr) else lift(a)[0] for a in xs]
    def g(i):
        return f(*[bc_elem(a, i, shape) if isinstance(a, Arr) else a for a in lifted])
    r = mk_arr(shape, kind, g)
    return r
def kind_of(a):
    if isinstance(a, Arr): return a.kind
    if isinstance(a, (list, tuple, _np.ndarray, SymList)): return to_arr(a).kind
    return lift(a)[1]

def unwrap0(r):
    """0-d results become scalars, like numpy ufuncs"""
    if isinstance(r, Arr) and r.ndim == 0: return mkv(r.elem(()), r.kind)
    return r
def nd_arith(op, a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None: 
        if isinstance(a, str): return a
        raise TypeError('unsupported operand')
    try: ka, kb = kind_of(a), kind_of(b)
    except TypeError: return NotImplemented
    kind = arith_kind(op, ka, kb)
    if op == 'pow' and kind == 'i' and isinstance(b, int) and b < 0:
        raise ValueError('Integers to negative integer powers are not allowed.')
    return unwrap0(elementwise(lambda x, y: arith_t(op, x, ka, y, kb)[0], kind, a, b))
def nd_cmp(op, a, b):
    return unwrap0(elementwise(lambda x, y: mk_ind(cmp_t(op, x, y)), 'b', a, b))

def where(c, x, y):
    k = kmax(kind_of(x), kind_of(y))
    return elementwise(lambda i, a, b: add(mul(i, a), mul(sub(T1, i), b)), k, c, x, y)

def mask_select(a, m):
    if isinstance(m, LA) and isinstance(a, LA) and a.ndim == 1:
        keep = []
        for x, i in zip(a.a, m.a):
            v = mkv(i, 'b')
            if bool(v): keep.append(x)
        out = _np.empty((len(keep),), dtype=object)
        for j, x in enumerate(keep): out[j] = x
        return LA(out, a.kind)
    # opaque selection: its length and elements are uninterpreted functions of mask and data
    if isinstance(m, LA): raise Unsupported('boolean mask selection')
    if a.ndim != 1 or m.ndim != 1 or not same_dim(a.shapeT[0], m.shapeT[0]): raise Unsupported('boolean mask selection')
    n = m.shapeT[0]
    v = fresh_bv(n); w = fresh_bv(n)
    LM = mk_lam([v], m.elem((from_atom(v),))); LX = mk_lam([w], a.elem((from_atom(w),)))
    cnt = mk_fn('count_true', n, LM, sign='nonneg', integer=True)
    return mk_arr((cnt,), a.kind, lambda i: mk_fn('masked', n, LM, LX, i[0], real=a.kind != 'c', integer=a.kind in 'ib'))

# ------------------------------------------------------------------ reductions
def _sum_dim(f, n):
    v = fresh_bv(n)
    return mk_sum(n, v, f(from_atom(v)))
def reduce_sum(a, axis=None):
    a = to_arr(a)
    k = a.kind if a.kind != 'b' else 'i'
    if axis is None:
        def go(pre, dims):
            if not dims: return a.elem(pre)
            if is_const(dims[0]):
                r = T0
                for j in range(int(const_val(dims[0]))): r = add(r, go(pre + (const(j),), dims[1:]))
                return r
            return _sum_dim(lambda v: go(pre + (v,), dims[1:]), dims[0])
        return mkv(go((), a.shapeT), k)
    ax = axis if axis >= 0 else a.ndim + axis
    n = a.shapeT[ax]
    def f(i):
        g = lambda v: a.elem(i[:ax] + (v,) + i[ax:])
        if is_const(n):
            r = T0
            for j in range(int(const_val(n))): r = add(r, g(const(j)))
            return r
        return _sum_dim(g, n)
    return unwrap0(mk_arr(a.shapeT[:ax] + a.shapeT[ax + 1:], k, f))
def reduce_mean(a, axis=None):
    a = to_arr(a)
    n = a.sizeT if axis is None else a.shapeT[axis]
    s = reduce_sum(a, axis)
    return s / mkv(n, 'i') if not isinstance(s, int) else SV(const(s), 'f') / mkv(n, 'i')
def reduce_ext(name, a, axis=None):
    a = to_arr(a)
    if axis is not None and a.ndim > 1: raise Unsupported('axis reduction ' + name)
    if isinstance(a, LA):
        vals = list(a.a.flat)
        if not vals: raise ValueError('zero-size array to reduction operation')
        r = vals[0]
        for v in vals[1:]:
            d = mkb(mk_gt(v, r) if name == 'amax' else mk_gt(r, v))
            if isinstance(d, bool): r = v if d else r
            else: r = v if ctx().decide(d.b) else r
        return mkv(r, a.kind)
    ends = _ends(name, a)
    if ends is not None: return mkv(a.elem(ends), a.kind)
    if a.ndim != 1:
        vs = [fresh_bv(n) for n in a.shapeT]
        body = a.elem(tuple(from_atom(v) for v in vs))
        s = sign_of(body) if is_real(body) else 'any'
        lam = mk_lam(vs, body)
        r = mk_fn(name + str(a.ndim), *a.shapeT, lam, sign=s if s in ('pos', 'nonneg') else 'any')
        if is_real(body):
            cx = ctx(); w = []
            for d, n in enumerate(a.shapeT):
                x = mk_fn('arg%s%d' % (name, a.ndim), const(d), *a.shapeT, lam, sign='nonneg', integer=True); w.append(x); cx.add(mk_gt(n, x))
            cx.add(mk_eq(r, a.elem(tuple(w))))
            cx.foralls.append(mk_lam(vs, mk_ind(mk_ge(r, body) if name == 'amax' else mk_ge(body, r))))
        return mkv(r, a.kind)
    n = a.shapeT[0]
    v = fresh_bv(n)
    body = a.elem((from_atom(v),))
    s = sign_of(body) if is_real(body) else 'any'
    r = mk_fn(name, n, mk_lam([v], body), sign=s if s in ('pos', 'nonneg') else 'any')
    if is_real(body) and v in body.free:
        # the extreme is attained, and no end of the array exceeds it
        cx = ctx()
        w = mk_fn('arg' + name, n, mk_lam([v], body), sign='nonneg', integer=True)
        cx.add(mk_gt(n, w)); cx.add(mk_eq(r, a.elem((w,))))
        for e in (T0, sub(n, T1)):
            y = a.elem((e,)); cx.add(mk_ge(r, y) if name == 'amax' else mk_ge(y, r))
        cx.foralls.append(mk_lam([v], mk_ind(mk_ge(r, body) if name == 'amax' else mk_ge(body, r))))
    return mkv(r, a.kind)
def _ends(name, a):
    """where an array that is affine and monotone in every index attains its extreme, or None"""
    if name not in ('amin', 'amax') or not a.ndim: return None
    cx = ctx(); vs = [fresh_bv(n) for n in a.shapeT]; out = []
    body = cx.rw(a.elem(tuple(from_atom(v) for v in vs)))
    if not is_real(body): return None
    for v, n in zip(vs, a.shapeT):
        ab = _lin_split(body, v)
        if ab is None: return None
        s = sign_of(ab[0])
        if s == 'any':
            if any(depends(ab[0], w) for w in vs): return None
            # dividing by what is known positive keeps the question linear
            q = ab[0]
            if cx.entails(mk_ge(q, T0)): s = 'nonneg'
            elif cx.entails(mk_ge(T0, q)): s = 'nonpos'
            else: return None
        up = s in ('pos', 'nonneg', 'zero')
        e = T0 if up == (name == 'amin') else sub(n, T1)
        out.append(e); body = add(mul(ab[0], e), ab[1])
    return tuple(out)
def _lin_split(t, v):
    """t = a*v + b with a, b free of v, or None"""
    a = b = T0
    for m, c in t.p.items():
        e = dict(m).get(v, 0)
        rest = mkT({tuple((x, k) for x, k in m if x is not v): c})
        if depends(rest, v) or e not in (0, 1): return None
        if e: a = add(a, rest)
        else: b = add(b, rest)
    return a, b
def _arg_known(name, body, v, n):
    body = ctx().rw(body)
    ab = _lin_split(body, v)
    if ab is not None and is_real(body):
        s = sign_of(ab[0])
        if s == 'pos': return T0 if name == 'argmin' else sub(n, T1)
        if s == 'neg': return T0 if name == 'argmax' else sub(n, T1)
        return None
    if name != 'argmin': return None
    at = None; co = T0
    for m, c in body.p.items():
        q = [(x, e) for x, e in m if x.kind == 'abs']
        if len(q) != 1 or q[0][1] != 1 or (at is not None and q[0][0] is not at): return None
        at = q[0][0]
        co = add(co, mkT({tuple((x, e) for x, e in m if x is not at): c}))
    if at is None or depends(co, v) or sign_of(co) != 'pos': return None
    ab = _lin_split(at.data, v)
    if ab is None or len(ab[0].p) != 1: return None
    k = neg(mul(ab[1], power(ab[0], -1)))       # the only zero of a non-negative function
    if not is_int(k): return None
    if ctx().entails(mk_and(mk_ge(k, T0), mk_gt(n, k))) is not True: return None
    return k
def arg_ext(name, a):
    a = to_arr(a)
    if a.ndim != 1: raise Unsupported('argmax nd')
    if isinstance(a, LA):
        best = 0
        for j in range(1, len(a.a)):
            x, y = a.a[j], a.a[best]
            if ctx().decide(mk_gt(x, y) if name == 'argmax' else mk_gt(y, x)): best = j
        return best
    n = a.shapeT[0]
    v = fresh_bv(n)
    body = a.elem((from_atom(v),))
    k = _arg_known(name, body, v, n)
    if k is not None: return mkv(k, 'i')
    r = mk_fn(name, n, mk_lam([v], body), sign='nonneg', integer=True)
    ctx().add(mk_gt(n, r))
    return mkv(r, 'i')
def reduce_bool(name, a):
    a = to_arr(a)
    if isinstance(a, LA):
        bs = [tob(mkv(x, 'b')) if a.kind == 'b' else mk_not(mk_eq(x, T0)) for x in a.a.flat]
        return mkb(mk_and(*bs) if name == 'all' else mk_or(*bs))
    ix = a.gidx()
    b = a.elem(ix)
    if a.kind != 'b': b = mk_ind(mk_not(mk_eq(b, T0)))
    if b is T1: return True
    if b is T0: return False
    c = mkv(b, 'b')
    c = tob(c)
    e = ctx().entails(c)
    if e is not None and name == 'all' and e: return True
    if e is not None and name == 'any' and not e: return False
    vs = [fresh_bv(n) for n in a.shapeT]
    lam = mk_lam(vs, subst(mk_ind(c), {idx(n, d): from_atom(v) for d, (n, v) in enumerate(zip(a.shapeT, vs))}))
    if name == 'all':
        return mkb(mk_pred('all', lam))
    nl = mk_lam(vs, subst(mk_ind(mk_not(c)), {idx(n, d): from_atom(v) for d, (n, v) in enumerate(zip(a.shapeT, vs))}))
    return mkb(mk_not(mk_pred('all', nl)))
def cumsum(a):
    a = to_arr(a)
    if isinstance(a, LA):
        out = []; r = T0
        for x in a.a.flat: r = add(r, x); out.append(r)
        o = _np.empty((len(out),), dtype=object)
        for i, x in enumerate(out): o[i] = x
        return LA(o, a.kind)
    n = a.shapeT[0]
    return mk_arr((n,), a.kind, lambda i: _sum_dim(lambda v: a.elem((v,)), add(i[0], T1)))
def dot(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.ndim == 1 and b.ndim == 1: return reduce_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return reduce_sum(a * b, 1)
    if a.ndim == 2 and b.ndim == 2:
        n = a.shapeT[1]
        if not same_dim(n, b.shapeT[0]): raise ValueError('shapes not aligned')
        def f(i):
            g = lambda v: mul(a.elem((i[0], v)), b.elem((v, i[1])))
            if is_const(n):
                r = T0
                for j in range(int(const_val(n))): r = add(r, g(const(j)))
                return r
            return _sum_dim(g, n)
        return mk_arr((a.shapeT[0], b.shapeT[1]), kmax(a.kind, b.kind), f)
    raise Unsupported('dot')

def reshape(a, s):
    if is_scalar(s): s = (s,)
    s = tuple(s)
    if isinstance(a, LA) and not any(isinstance(x, SV) for x in s):
        return LA(a.a.reshape(tuple(int(x) for x in s)), a.kind)
    if len(s) == 1:
        if a.ndim == 1: return a
        if a.ndim == 2:
            R, C = a.shapeT
            if R is T1: return a[0]
            if C is T1: return a[:, 0]
            # row-major flatten
            if is_const(R):
                r = int(const_val(R))
                def f(i):
                    out = T0
                    for j in range(r):
                        inb = mk_and(mk_ge(i[0], scale(C, Fraction(j))), mk_gt(scale(C, Fraction(j + 1)), i[0]))
                        out = add(out, mul(mk_ind(inb), a.elem((const(j), sub(i[0], scale(C, Fraction(j)))))))
                    return out
                return mk_arr((mul(R, C),), a.kind, f)
    if len(s) == 2 and a.ndim == 1:
        n = a.shapeT[0]
        if isinstance(s[0], int) and s[0] == 1: return a[None, :]
        if isinstance(s[1], int) and s[1] == 1: return a[:, None]
        d0 = None if (isinstance(s[0], int) and s[0] == -1) else dimT(s[0])
        d1 = None if (isinstance(s[1], int) and s[1] == -1) else dimT(s[1])
        if d0 is None: d0 = mul(n, power(d1, -1))
        if d1 is None: d1 = mul(n, power(d0, -1))
        if is_int(d0) and is_int(d1):
            if mul(d0, d1) is not n and not same_dim(mul(d0, d1), n): raise ValueError('cannot reshape')
            return mk_arr((d0, d1), a.kind, lambda i: a.elem((add(mul(i[0], d1), i[1]),)))
    if len(s) == a.ndim and all(same_dim(dimT(x), n) for x, n in zip(s, a.shapeT)): return a
    raise Unsupported('reshape')

class SymList:
    """python list of symbolic length (loop summaries): n elements f(0..n-1), then whatever the code appended"""
    def __init__(self, n, f, tail=(), kind='f'): self.n = dimT(n); self.f = f; self.tail = list(tail); self.kind = kind
    def append(self, x): self.tail.append(x)
    def length(self): return mkv(add(self.n, const(len(self.tail))), 'i')
    def to_arr(self):
        if self.tail: raise Unsupported('list of symbolic length with a tail to array')
        if self.kind == 'o': raise Unsupported('list of objects of symbolic length to array')
        if self.kind == 'b': return mk_arr((self.n,), 'b', lambda i: mk_ind(tob(self.f(mkv(i[0], 'i')))))
        return mk_arr((self.n,), self.kind, lambda i: lift(self.f(mkv(i[0], 'i')))[0])
    def _bad(self, *a, **k): raise Unsupported('operation on a list of symbolic length')
    __getitem__ = __setitem__ = __iter__ = __len__ = __add__ = __radd__ = __iadd__ = __mul__ = __contains__ = __eq__ = __bool__ = extend = insert = pop = sort = index = remove = copy = reverse = _bad
    __hash__ = object.__hash__
