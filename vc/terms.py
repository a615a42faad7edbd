"""Symbolic terms: polynomial normal forms over Q with hash-consed atoms.

Machine floats are read as the exact rational their decimal repr denotes; all
arithmetic is exact real/complex arithmetic.  Coefficients that agree to 1e-12
relative are identified (`snap`), so that constant folding done by CPython in
binary floating point does not produce spurious differences.
"""
from fractions import Fraction
import bisect, math
import mpmath

mpmath.mp.dps = 40

class Unsupported(BaseException):
    """The source uses something outside the verifier's reach."""

ZERO = Fraction(0); ONE = Fraction(1)
BIG = 10 ** 6

# ------------------------------------------------------------ coefficients
_snap_cache = {}
_snap_vals = []
def _approx(c):
    if c.denominator > 10 ** 45 or abs(c.numerator) > 10 ** 80:
        m = mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)
        return Fraction(mpmath.nstr(m, 30, strip_zeros=False, min_fixed=-1, max_fixed=1)) if m else ZERO
    return c
SIMPLE = 10 ** 11
def snap(c):
    if c.denominator <= BIG and abs(c.numerator) * c.denominator <= SIMPLE:
        return c
    r = _snap_cache.get(c)
    if r is not None:
        return r
    a = abs(c)
    s = a.limit_denominator(1000)
    if s and s.numerator * s.denominator <= 10 ** 8 and abs(s - a) <= a * Fraction(1, 10 ** 13):
        r = s
    else:
        i = bisect.bisect_left(_snap_vals, a)
        r = None
        for j in (i - 1, i):
            if 0 <= j < len(_snap_vals) and abs(_snap_vals[j] - a) <= a * Fraction(1, 10 ** 12):
                r = _snap_vals[j]
                break
        if r is None:
            r = a if c.denominator <= BIG else _approx(a)
            _snap_vals.insert(i, r)
    if c < 0:
        r = -r
    _snap_cache[c] = r
    return r

def from_mp(m):
    if m == 0:
        return ZERO
    return Fraction(mpmath.nstr(m, 32, strip_zeros=False, min_fixed=-1, max_fixed=1))

def to_mp(c):
    return mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)

def num(x):
    """python number -> Fraction"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant %r' % x)
        return Fraction(repr(x))
    raise Unsupported('number of type %s' % type(x).__name__)

# ------------------------------------------------------------------- atoms
_atoms = {}
_counter = [0]

class Atom:
    __slots__ = ('id', 'kind', 'data', 'real', 'sign', 'integer', 'free', 'height', 'meta', '_str')
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __repr__(self):
        return atom_str(self)
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self

def mk_atom(kind, data, real=True, sign='any', integer=False, free=None, height=0, meta=None):
    key = (kind, data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        _counter[0] += 1
        a.id = _counter[0]
        a.kind = kind; a.data = data
        a.real = real; a.sign = sign; a.integer = integer
        a.free = frozenset((a,)) if free is None else free
        a.height = height; a.meta = meta; a._str = None
        _atoms[key] = a
    return a

# -------------------------------------------------------------------- T
_terms = {}

class T:
    __slots__ = ('p', 'key', '_free', '_height', '_hash', '_conj', '_isreal')
    def __hash__(self): return self._hash
    def __eq__(self, o): return self is o
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return tstr(self)
    @property
    def free(self):
        f = self._free
        if f is None:
            s = set()
            for m in self.p:
                for a, e in m:
                    s |= a.free
            f = self._free = frozenset(s)
        return f
    @property
    def height(self):
        h = self._height
        if h is None:
            h = 0
            for m in self.p:
                for a, e in m:
                    if a.height > h: h = a.height
            self._height = h
        return h

def mkT(p):
    q = {}
    for m, c in p.items():
        if c:
            q[m] = snap(c)
    key = frozenset(q.items())
    t = _terms.get(key)
    if t is None:
        t = T()
        t.p = q; t.key = key; t._free = None; t._height = None; t._hash = hash(key); t._conj = None; t._isreal = None
        _terms[key] = t
    return t

_const_cache = {}
def const(c):
    t = _const_cache.get(c)
    if t is None:
        f = num(c)
        t = mkT({(): f} if f else {})
        _const_cache[c] = t
    return t

def from_atom(a, e=1):
    return mkT({((a, e),): ONE})

def is_const(t):
    return not t.p or (len(t.p) == 1 and () in t.p)
def const_val(t):
    return t.p.get((), ZERO)

TOL_CANCEL = Fraction(1, 10 ** 11)

def add(a, b):
    if not a.p: return b
    if not b.p: return a
    q = dict(a.p)
    for m, c in b.p.items():
        d = q.get(m)
        if d is None:
            q[m] = c
        else:
            s = c + d
            if s and abs(s) <= TOL_CANCEL * abs(c) and (c.denominator > 1000 or d.denominator > 1000):
                s = ZERO
            if s: q[m] = s
            else: del q[m]
    return mkT(q)

def scale(a, c):
    if not c: return T0
    if c == 1: return a
    return mkT({m: v * c for m, v in a.p.items()})

def neg(a): return scale(a, Fraction(-1))
def sub(a, b): return add(a, neg(b))

_mm_cache = {}
def mulmono(m1, m2):
    """product of two monomials -> T"""
    if not m1: return mkT({m2: ONE})
    if not m2: return mkT({m1: ONE})
    key = (m1, m2)
    r = _mm_cache.get(key)
    if r is not None: return r
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2:
        d[a] = d[a] + e if a in d else e
    coef = ONE
    extras = []
    exps = [a for a in d if a.kind == 'exp']
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        arg = T0
        for a in exps:
            arg = add(arg, scale(a.data, Fraction(d.pop(a))))
        extras.append(mk_exp(arg))
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]; continue
        if a.kind == 'I':
            k = e % 4
            del d[a]
            if k in (2, 3): coef = -coef
            if k in (1, 3): d[a] = 1
        elif a.kind == 'ind':
            if e > 0: d[a] = 1
        elif a.kind == 'base':
            if isinstance(e, Fraction) and e.denominator == 1:
                e = int(e); d[a] = e
            if isinstance(e, int) and e > 0:
                del d[a]
                extras.append(ipow(a.data, e))
            elif isinstance(e, Fraction) and e > 1:
                k = e.numerator // e.denominator
                d[a] = e - k
                extras.append(ipow(a.data, k))
        elif isinstance(e, Fraction) and e.denominator == 1:
            d[a] = int(e)
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    r = mkT({m: coef})
    for x in extras:
        r = mul(r, x)
    _mm_cache[key] = r
    return r

def mul(a, b):
    if not a.p or not b.p: return T0
    if is_const(a): return scale(b, const_val(a))
    if is_const(b): return scale(a, const_val(b))
    if len(a.p) * len(b.p) > 60000:
        raise Unsupported('term too large (%d x %d)' % (len(a.p), len(b.p)))
    q = {}
    mags = {}
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            r = mulmono(m1, m2)
            cc = c1 * c2
            for m, c in r.p.items():
                v = cc * c
                q[m] = q.get(m, ZERO) + v
                av = abs(v)
                if av > mags.get(m, ZERO): mags[m] = av
    for m in list(q):
        s = q[m]
        if s and abs(s) <= TOL_CANCEL * mags[m] and s.denominator > 1000:
            q[m] = ZERO
    return mkT(q)

def ipow(a, n):
    if n == 0: return T1
    r = None; b = a
    while n:
        if n & 1: r = b if r is None else mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

T0 = mkT({}); T1 = mkT({(): ONE})
AI = mk_atom('I', None, real=False)
I_ = from_atom(AI)

# ------------------------------------------------------------- predicates
def is_real(t):
    r = t._isreal
    if r is None:
        r = True
        for m in t.p:
            for a, e in m:
                if not a.real:
                    r = False; break
            if not r: break
        if not r:
            r = sub(t, conj(t)) is T0
        t._isreal = r
    return r

def is_int(t):
    for m, c in t.p.items():
        if c.denominator != 1: return False
        for a, e in m:
            if not a.integer or not isinstance(e, int) or e < 0: return False
    return True

def mono_sign(m):
    """'pos','nonneg','neg','nonpos','any' of a monomial (without coefficient)"""
    s = 'pos'
    for a, e in m:
        if a.kind == 'I' : return 'any'
        if not a.real: return 'any'
        if a.sign == 'pos': continue
        if isinstance(e, int) and e % 2 == 0:
            if s == 'pos': s = 'nonneg' if a.sign != 'nonzero' else 'pos'
            continue
        if a.sign == 'nonneg':
            if s == 'pos': s = 'nonneg'
            elif s == 'neg': s = 'nonpos'
            continue
        if a.sign == 'neg':
            s = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[s]
            continue
        return 'any'
    return s

def sign_of(t):
    """syntactic sign: 'zero','pos','nonneg','neg','nonpos','any'"""
    if not t.p: return 'zero'
    p = n = False; strict = False
    # pair conjugates: x * conj(x) is nonneg
    for m, c in t.p.items():
        s = mono_sign(m)
        if s == 'any':
            s = 'nonneg' if _is_absq(m) else 'any'
        if s == 'any': return 'any'
        if c < 0: s = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[s]
        if s == 'pos': p = True; strict = True
        elif s == 'nonneg': p = True
        elif s == 'neg': n = True; strict = True
        else: n = True
    if p and n: return 'any'
    if p: return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'

def _is_absq(m):
    """monomial of the form prod |a|^2 * (nonneg reals)"""
    d = dict(m)
    for a, e in m:
        if a.kind == 'I': return False
        if a.real:
            if a.sign in ('pos', 'nonneg'): continue
            if isinstance(e, int) and e % 2 == 0: continue
            return False
        ca = conj_atom(a)
        if len(ca.p) != 1: return False
        (cm, cc), = ca.p.items()
        if len(cm) != 1 or cc != 1: return False
        b, be = cm[0]
        if be != 1 or d.get(b) != e: return False
    return True

def conj_pairs(m):
    """the factors x**e * conj(x)**e (e > 0) of a monomial"""
    d = dict(m); out = ()
    for a, e in m:
        if a.real or a.kind in ('I', 'exp') or not isinstance(e, int) or e <= 0: continue
        try: ca = conj_atom(a)
        except Unsupported: continue
        if len(ca.p) != 1: continue
        (cm, cc), = ca.p.items()
        if len(cm) == 1 and cc == 1 and cm[0][1] == 1 and cm[0][0] is not a and d.get(cm[0][0]) == e: out += ((a, e),)
    return out
def absq_form(t):
    """x * conj(x) written as |x|**2 (same value; used where only the sign matters)"""
    out = {}
    for m, c in t.p.items():
        pr = conj_pairs(m)
        if not pr: out[m] = out.get(m, 0) + c; continue
        drop = {a for a, e in pr}
        r = mkT({tuple((a, e) for a, e in m if a not in drop): c})
        used = set()
        for a, e in pr:
            if a in used: continue
            (cm, cc), = conj_atom(a).p.items()
            used |= {a, cm[0][0]}
            r = mul(r, ipow(_abs_atom(a), 2 * e))
        for m2, c2 in r.p.items(): out[m2] = out.get(m2, 0) + c2
    return mkT({m: c for m, c in out.items() if c})

# ------------------------------------------------------------- powers
def common_mono(t):
    """largest monomial (with rational exps) dividing all terms, only 'plain' atoms"""
    it = iter(t.p)
    d = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(d):
            e2 = dm.get(a)
            if e2 is None:
                del d[a]
            else:
                d[a] = min(d[a], e2)
                if d[a] == 0: del d[a]
    for m in t.p:                        # negative exponents present in some terms only
        for a, e in m:
            if e < 0 and a not in d and a.kind not in ('exp', 'I'):
                d[a] = min(dict(m2).get(a, 0) for m2 in t.p)
    for a in list(d):
        if a.kind in ('ind', 'I', 'exp'): del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))

def minv(m):
    return tuple((a, -e) for a, e in m)

def lead(t):
    """deterministic leading monomial"""
    return max(t.p, key=_mono_key)
def _mono_key(m):
    return (sum(abs(e) for a, e in m), [(a.id, e) for a, e in m])

def power(t, q):
    """t ** q for rational q"""
    q = Fraction(q)
    if q == 1: return t
    if q == 0: return T1
    if not t.p:
        if q > 0: return T0
        raise ZeroDivisionError('symbolic division by zero')
    if q.denominator == 1 and q > 0 and (q <= 16):
        return ipow(t, int(q))
    if is_const(t):
        c = const_val(t)
        if q.denominator == 1:
            return const_fr(c ** int(q))
        if c > 0:
            return const_fr(from_mp(mpmath.power(to_mp(c), to_mp(q))))
        if q.denominator == 2:       # sqrt of negative constant: principal root
            return mul(ipow(I_, q.numerator % 4), const_fr(from_mp(mpmath.power(to_mp(-c), to_mp(q)))))
        raise Unsupported('power of a negative constant')
    if len(t.p) == 1:
        (m, c), = t.p.items()
        return _mono_power(m, c, q)
    # common factor
    cm = common_mono(t)
    r = t
    pre = T1
    if q.denominator == 1:
        if cm:
            r = mul(t, mkT({minv(cm): ONE}))
            pre = _mono_power(cm, ONE, q)
        # exponential common factor: pull the exp of the leading term when all have exp
        ex = _common_exp(r)
        if ex is not None:
            r = mul(r, mk_exp(neg(ex)))
            pre = mul(pre, mk_exp(scale(ex, q)))
        if len(r.p) == 1:
            return mul(pre, power(r, q))
        c = r.p[lead(r)]
        r = scale(r, 1 / c)
        pre = scale(pre, c ** int(q))
        den = [a for m in r.p for a, e in m if a.kind == 'base' and e < 0]
        return mul(pre, _base(r, q))
    pos = tuple((a, e) for a, e in cm if a.real and (a.sign == 'pos' or (a.sign == 'nonneg' and e > 0)))
    sq = perfect_square(t) if q.denominator == 2 else None
    if sq is not None:
        return ipow(mk_abs(sq), q.numerator) if q > 0 else power(mk_abs(sq), q.numerator)
    pos = pos + conj_pairs(cm)
    if pos:
        r = mul(t, mkT({minv(pos): ONE}))
        pre = _mono_power(pos, ONE, q)
    if len(r.p) == 1:
        return mul(pre, power(r, q))
    c = abs(r.p[lead(r)])
    r = scale(r, 1 / c)
    pre = mul(pre, power(const_fr(c), q))
    return mul(pre, _base(r, q))

def const_fr(f):
    return mkT({(): f} if f else {})

def _common_exp(t):
    args = []
    for m in t.p:
        e = [a.data for a, x in m if a.kind == 'exp']
        args.append(e[0] if e else T0)
    if all(a is T0 for a in args): return None
    # choose the exponent of the least term as the common factor when at least one nontrivial
    best = min(args, key=lambda x: tkey(x))
    return best if best is not T0 else None

def _base(r, q):
    s = sign_of(r)
    real = is_real(r)
    if q.denominator != 1 and not real:
        pass
    sg = 'pos' if (s == 'pos') else ('nonneg' if (real and q.denominator == 2) or s == 'nonneg' else 'any')
    a = mk_atom('base', r, real=real, sign=sg, free=r.free, height=r.height)
    if q.denominator == 1:
        # sign of an integer power of r, not of the sqrt: keep conservative
        if a.sign == 'nonneg' and s != 'nonneg': a.sign = 'any'
    e = int(q) if q.denominator == 1 else q
    if isinstance(e, Fraction) and e > 1:
        k = e.numerator // e.denominator
        return mul(mkT({((a, e - k),): ONE}), ipow(r, k))
    return mkT({((a, e),): ONE})

def _mono_power(m, c, q):
    r = T1
    if q.denominator == 1:
        k = int(q)
        d = []
        extras = T1
        for a, e in m:
            if a.kind == 'exp':
                extras = mul(extras, mk_exp(scale(a.data, Fraction(e) * k)))
            elif a.kind == 'I':
                extras = mul(extras, ipow(I_, (e * k) % 4))
            elif a.kind == 'ind':
                if k < 0: raise ZeroDivisionError('division by an indicator')
                d.append((a, 1))
            else:
                d.append((a, e * k))
        t = mulmono((), ())
        t = mkT({(): c ** k})
        for a, e in d:
            if a.kind == 'base':
                t = mul(t, power(from_base(a), Fraction(e)) if False else _bp(a, e))
            else:
                t = mul(t, mkT({((a, e if not (isinstance(e, Fraction) and e.denominator == 1) else int(e)),): ONE}))
        return mul(t, extras)
    # fractional power
    if c < 0:
        # sqrt of a negative monomial: only if rest known positive
        neg_atoms = [a for a, e in m if a.real and a.sign == 'neg' and e == 1]
        if len(neg_atoms) != 1:
            if q.denominator == 2 and mono_sign(m) in ('pos', 'nonneg'):
                return mul(ipow(I_, q.numerator % 4), _mono_power(m, -c, q))
            a = mk_atom('base', mkT({m: c}), real=True, sign='nonneg', free=mkT({m: c}).free, height=mkT({m: c}).height)
            return _bp(a, q)
    rest = []
    out = power(const_fr(abs(c)), q)
    d = dict(m)
    done = set()
    for a, e in m:
        if a in done: continue
        if a.kind == 'exp':
            arg = a.data
            if is_real(arg):
                out = mul(out, mk_exp(scale(arg, q * e)))
            else:
                rest.append((a, e))
        elif a.real and a.sign == 'pos':
            x = Fraction(e) * q
            out = mul(out, _bp(a, x))
        elif a.real and a.sign == 'nonneg' and e > 0:
            x = Fraction(e) * q
            out = mul(out, _bp(a, x))
        elif a.kind == 'ind':
            out = mul(out, from_atom(a))
        elif a.real and isinstance(e, int) and e % 2 == 0 and (e * q).denominator == 1 and q.denominator == 2:
            out = mul(out, power(mk_abs(from_atom(a)), e * q))
        elif not a.real and a.kind != 'I' and q.denominator == 2:
            ca = conj_atom(a)
            b = None
            if len(ca.p) == 1:
                (cm, cc), = ca.p.items()
                if len(cm) == 1 and cc == 1 and cm[0][1] == 1: b = cm[0][0]
            if b is not None and b is not a and d.get(b) == e:
                done.add(b)
                out = mul(out, power(mk_abs(from_atom(a)), 2 * e * q))
            else:
                rest.append((a, e))
        else:
            rest.append((a, e))
    if c < 0:
        rest.append(('neg', 1))
    if rest:
        cc = ONE
        if rest[-1][0] == 'neg':
            rest.pop(); cc = -ONE
        b = mkT({tuple(sorted(rest, key=lambda x: x[0].id)): cc})
        a = mk_atom('base', b, real=is_real(b), sign='nonneg' if is_real(b) else 'any', free=b.free, height=b.height)
        out = mul(out, _bp(a, q))
    return out

def _bp(a, e):
    """atom**e as a term"""
    if isinstance(e, Fraction) and e.denominator == 1: e = int(e)
    if e == 0: return T1
    if a.kind == 'base':
        if isinstance(e, int) and e > 0: return ipow(a.data, e)
        if isinstance(e, Fraction) and e > 1:
            k = e.numerator // e.denominator
            return mul(mkT({((a, e - k),): ONE}), ipow(a.data, k))
    return mkT({((a, e),): ONE})

def perfect_square(t):
    """t == s*s for a polynomial s with the obvious leading terms? returns s or None"""
    n = len(t.p)
    if n not in (3, 6): return None
    import itertools
    # candidates: monomials that are squares
    roots = []
    for m, c in t.p.items():
        if c > 0 and all((Fraction(e) / 2).denominator == 1 or a.kind == 'exp' for a, e in m):
            d = T1
            ok = True
            for a, e in m:
                if a.kind == 'exp': d = mul(d, mk_exp(scale(a.data, Fraction(1, 2))))
                elif a.kind in ('ind', 'I'): ok = False
                else: d = mul(d, _bp(a, Fraction(e) / 2))
            if ok:
                roots.append(mul(d, power(const_fr(c), Fraction(1, 2))))
    k = 2 if n == 3 else 3
    if len(roots) < k: return None
    for combo in itertools.combinations(roots, k):
        for signs in itertools.product((1, -1), repeat=k - 1):
            s = combo[0]
            for x, g in zip(combo[1:], signs):
                s = add(s, scale(x, Fraction(g)))
            if sub(mul(s, s), t) is T0 or not sub(mul(s, s), t).p:
                return s
    return None

# ------------------------------------------------------------- exponentials
def mk_exp(arg):
    if not arg.p: return T1
    if is_const(arg):
        return const_fr(from_mp(mpmath.e ** to_mp(const_val(arg))))
    out = T1
    keep = {}
    for m, c in arg.p.items():
        # c * log(x) -> x**c
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].data[0] == 'log' and c.denominator <= 12:
            out = mul(out, power(m[0][0].data[1], c)); continue
        if any(a.kind == 'I' for a, e in m):
            rest = tuple((a, e) for a, e in m if a.kind != 'I')
            # exp(i * 2pi * integer)
            if all(a.integer and isinstance(e, int) and e > 0 for a, e in rest) or not rest:
                x = to_mp(c) / (2 * mpmath.pi)
                k = mpmath.nint(x)
                if abs(x - k) < mpmath.mpf(10) ** -10:
                    continue
                if not rest:
                    v = mpmath.expjpi(2 * x)
                    out = mul(out, add(const_fr(_clean(v.real)), mul(I_, const_fr(_clean(v.imag)))))
                    continue
            # exp(i 2pi k mod(x,n)/n) = exp(i 2pi k x/n) for integer k
            md = [a for a, e in rest if a.kind == 'mod' and e == 1]
            if len(md) == 1:
                a = md[0]
                r = mkT({tuple(y for y in rest if y[0] is not a): c})
                if _is_2pi_int(mul(r, a.data[1])):
                    others = mkT({mm: cc for mm, cc in arg.p.items() if mm != m})
                    return mk_exp(add(others, mul(I_, mul(r, a.data[0]))))
            if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].kind == 'fn' and c.denominator == 1 and abs(c) <= 12:
                r = exp_i_fn(rest[0][0])
                if r is not None:
                    u, rc = r
                    out = mul(out, power(u if c > 0 else rc, abs(c))); continue
        keep[m] = c
    if len(keep) != len(arg.p):
        return mul(out, mk_exp(mkT(keep)))
    # pure imaginary constants are handled above; generic atom
    real = is_real(arg)
    a = mk_atom('exp', arg, real=real, sign='pos' if real else 'any', free=arg.free, height=arg.height)
    return from_atom(a)

def _is_2pi_int(t):
    for m, c in t.p.items():
        if not all(a.integer and isinstance(e, int) and e > 0 for a, e in m): return False
        x = to_mp(c) / (2 * mpmath.pi)
        if abs(x - mpmath.nint(x)) > mpmath.mpf(10) ** -10: return False
    return True
def _div_2pi(t):
    return mkT({m: Fraction(int(mpmath.nint(to_mp(c) / (2 * mpmath.pi)))) for m, c in t.p.items()})
def _clean(x):
    if abs(x) < mpmath.mpf(10) ** -15: return ZERO
    return from_mp(x)

def exp_i_fn(a):
    """(exp(i*f), exp(-i*f)) for f = asin/acos/atan/atan2/angle"""
    name = a.data[0]
    def pair(re, im): return add(re, mul(I_, im)), sub(re, mul(I_, im))
    if name == 'arcsin':
        x = a.data[1]
        return pair(power(sub(T1, mul(x, x)), Fraction(1, 2)), x)
    if name == 'arccos':
        x = a.data[1]
        return pair(x, power(sub(T1, mul(x, x)), Fraction(1, 2)))
    if name == 'arctan':
        x = a.data[1]
        d = power(add(T1, mul(x, x)), Fraction(-1, 2))
        return pair(d, mul(x, d))
    if name == 'arctan2':
        y, x = a.data[1], a.data[2]
        d = power(add(mul(x, x), mul(y, y)), Fraction(-1, 2))
        return pair(mul(x, d), mul(y, d))
    if name == 'angle':
        z = a.data[1]
        d = power(mk_abs(z), -1)
        return mul(z, d), mul(conj(z), d)
    return None

def mk_cos(x):
    e = mk_exp(mul(I_, x)); f = mk_exp(neg(mul(I_, x)))
    return scale(add(e, f), Fraction(1, 2))
def mk_sin(x):
    e = mk_exp(mul(I_, x)); f = mk_exp(neg(mul(I_, x)))
    return mul(scale(sub(e, f), Fraction(-1, 2)), I_)
def mk_cosh(x): return scale(add(mk_exp(x), mk_exp(neg(x))), Fraction(1, 2))
def mk_sinh(x): return scale(sub(mk_exp(x), mk_exp(neg(x))), Fraction(1, 2))

def mk_log(x):
    if is_const(x):
        c = const_val(x)
        if c <= 0: raise Unsupported('log of non-positive constant')
        return const_fr(from_mp(mpmath.log(to_mp(c))))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0 and all(a.real and a.sign == 'pos' for a, e in m) and (len(m) > 1 or c != 1 or m[0][1] != 1 or m[0][0].kind == 'exp'):
            r = mk_log(const_fr(c)) if c != 1 else T0
            for a, e in m:
                r = add(r, scale(a.data, Fraction(e)) if a.kind == 'exp' else scale(mk_fn('log', from_atom(a)), Fraction(e)))
            return r
    return mk_fn('log', x)

# ------------------------------------------------------------- generic fns
class Lam:
    """closed lambda over bound variables BV(height, 0..nvars-1)"""
    __slots__ = ('nvars', 'height', 'body', 'vs', '_h')
    def __hash__(self): return self._h
    def __eq__(self, o):
        return isinstance(o, Lam) and self.vs == o.vs and self.body is o.body
    def __deepcopy__(self, memo): return self
    def __repr__(self): return 'λ%d.%s' % (self.height, tstr(self.body))
    @property
    def free(self):
        f = self.body.free.difference(self.vs)
        for w in self.vs:
            if w.data[2] is not None: f = f | w.data[2].free
        return f

def bv(h, i=0, n=None):
    return mk_atom('bv', (h, i, n), integer=True, sign='nonneg')
def var_range(a):
    return a.data[-1] if a.kind in ('bv', 'tmp') else a.data[0]

def mk_lam(vars_, body):
    """abstract the given variable atoms out of body"""
    h = body.height + 1
    L = Lam()
    L.nvars = len(vars_); L.height = h
    L.vs = tuple(bv(h, i, var_range(v)) for i, v in enumerate(vars_))
    L.body = subst(body, {v: from_atom(w) for v, w in zip(vars_, L.vs)})
    for _ in range(6):
        if L.body.height + 1 == L.height: break   # (substitution can lower heights by simplification)
        L.height = L.body.height + 1
        vs = tuple(bv(L.height, i, var_range(v)) for i, v in enumerate(vars_))
        L.body = subst(L.body, {w: from_atom(x) for w, x in zip(L.vs, vs)})
        L.vs = vs
    L._h = hash((L.vs, L.body))
    return L

def lam_apply(L, args):
    return subst(L.body, dict(zip(L.vs, args)))
def lam_fresh(L):
    tmp = [fresh_bv(w.data[2]) for w in L.vs]
    return tmp, lam_apply(L, [from_atom(t) for t in tmp])

_fresh = [0]
def fresh_bv(n=None):
    _fresh[0] += 1
    return mk_atom('tmp', (_fresh[0], n), integer=True, sign='nonneg')

def lam_subst(L, mp):
    fr = L.free
    if not any(a in fr for a in mp): return L
    mp = {a: t for a, t in mp.items() if a in fr}
    tmp = [fresh_bv(subst(w.data[2], mp) if w.data[2] is not None else None) for w in L.vs]
    body = lam_apply(L, [from_atom(t) for t in tmp])
    body = subst(body, mp)
    return mk_lam(tmp, body)

def _free_of(x):
    if isinstance(x, (T, Lam)): return x.free
    if isinstance(x, B): return x.free
    if isinstance(x, tuple):
        s = frozenset()
        for y in x: s |= _free_of(y)
        return s
    return frozenset()
def _height_of(x):
    if isinstance(x, T): return x.height
    if isinstance(x, Lam): return x.height
    if isinstance(x, B): return x.height
    if isinstance(x, tuple):
        return max([_height_of(y) for y in x] + [0])
    return 0
def _subst_any(x, mp):
    if isinstance(x, T): return subst(x, mp)
    if isinstance(x, Lam): return lam_subst(x, mp)
    if isinstance(x, B): return bsubst(x, mp)
    if isinstance(x, tuple): return tuple(_subst_any(y, mp) for y in x)
    return x

def mk_fn(name, *args, real=True, sign='any', integer=False):
    data = (name,) + args
    a = mk_atom('fn', data, real=real, sign=sign, integer=integer, free=_free_of(data), height=_height_of(data),
                meta=(real, sign, integer))
    return from_atom(a)

# ------------------------------------------------------------- conj / abs
def conj(t):
    c = t._conj
    if c is not None: return c
    out = T0
    simple = {}
    for m, cf in t.p.items():
        if all(a.real for a, e in m):
            simple[m] = cf; continue
        r = const_fr(cf)
        for a, e in m:
            if a.real:
                r = mul(r, mkT({((a, e),): ONE}))
            elif a.kind == 'I':
                r = mul(r, neg(I_))
            elif a.kind == 'base' and Fraction(e).denominator == 1:
                r = mul(r, power(conj(a.data), Fraction(e)))
            else:
                ca = conj_atom(a)
                r = mul(r, ca if e == 1 else power(ca, Fraction(e)))
        out = add(out, r)
    c = add(out, mkT(simple))
    t._conj = c
    if c._conj is None: c._conj = t
    return c

def conj_atom(a):
    if a.real: return from_atom(a)
    k = a.kind
    if k == 'I': return neg(I_)
    if k == 'exp': return mk_exp(conj(a.data))
    if k == 'base': return _cbase(a)
    if k == 'conj': return from_atom(a.data)
    if k == 'fft':
        n, L, idx = a.data
        t = fresh_bv(n)
        body = conj(lam_apply(L, [from_atom(t)]))
        return mk_fft(n, t, body, mk_mod(neg(idx), n))
    if k == 'sum':
        n, L = a.data
        t = fresh_bv(n)
        return mk_sum(n, t, conj(lam_apply(L, [from_atom(t)])))
    return from_atom(mk_atom('conj', a, real=False, free=a.free, height=a.height))

def _cbase(a):
    c = conj(a.data)
    if len(c.p) > 1 and c.p[lead(c)] == 1 and lead(c):
        return from_atom(mk_atom('base', c, real=False, sign='any', free=c.free, height=c.height))
    raise Unsupported('conj of base')

def real_part(t):
    if is_real(t): return t
    return scale(add(t, conj(t)), Fraction(1, 2))
def imag_part(t):
    if is_real(t): return T0
    return mul(scale(sub(t, conj(t)), Fraction(-1, 2)), I_)

def mk_abs(t):
    if not t.p: return T0
    s = sign_of(t) if is_real(t) else 'any'
    if s in ('pos', 'nonneg', 'zero'): return t
    if s in ('neg', 'nonpos'): return neg(t)
    if len(t.p) == 1:
        (m, c), = t.p.items()
        r = const_fr(abs(c))
        for a, e in m:
            if a.kind == 'I': continue
            if a.kind == 'exp':
                if a.real: r = mul(r, mkT({((a, e),): ONE}))
                else: r = mul(r, mk_exp(scale(real_part(a.data), Fraction(e))))
            elif a.real and a.sign in ('pos', 'nonneg'):
                r = mul(r, _bp(a, e))
            elif a.kind == 'base' and isinstance(e, int):
                r = mul(r, power(mk_abs(a.data), e))
            else:
                ab = _abs_atom(a)
                r = mul(r, ab if e == 1 else power(ab, Fraction(e)))
        return r
    if not is_real(t):
        sq = mul(t, conj(t))
        return power(sq, Fraction(1, 2))
    # real polynomial of unknown sign: |t| = (t^2)^(1/2) with canonical sign/scale, no divisions inside
    f = _neg_content(t, lambda a: a.real)
    if f is not None:
        r = mk_abs(f[0])
        for a, e in f[1]: r = mul(r, power(mk_abs(a.data if a.kind == 'base' else from_atom(a)), -e))
        return r
    c = t.p[lead(t)]
    u = scale(t, 1 / c)
    b = mk_atom('abs', u, real=True, sign='nonneg', free=u.free, height=u.height)
    return scale(mkT({((b, 1),): ONE}), abs(c))

def _neg_content(t, ok):
    """t = r / prod a^e with no whole negative powers of the admitted atoms left in r: (r, [(a, e)]), or None"""
    if len(t.p) > 30: return None
    low = {}
    for m in t.p:
        for a, e in m:
            if isinstance(e, int) and e < 0 and a.kind not in ('exp', 'ind', 'I') and ok(a): low[a] = min(low.get(a, 0), e)
    if not low: return None
    r = T0
    for m, c in t.p.items():
        d = dict(m); x = const_fr(c)
        rest = tuple((a, e) for a, e in m if a not in low)
        if any(not isinstance(d.get(a, 0), int) for a in low): return None
        x = mul(x, mkT({rest: ONE}))
        for a, e in low.items():
            k = d.get(a, 0) - e
            if k: x = mul(x, ipow(a.data if a.kind == 'base' else from_atom(a), k))
        r = add(r, x)
        if len(r.p) > 200: return None
    return r, [(a, -e) for a, e in low.items()]

def _abs_atom(a):
    t = from_atom(a)
    if a.kind == 'conj': t = from_atom(a.data)
    b = mk_atom('abs', t, real=True, sign='nonneg', free=t.free, height=t.height)
    return from_atom(b)

# ------------------------------------------------------------- mod / floor
def idx(n, d=0):
    return mk_atom('idx', (n, d), integer=True, sign='nonneg', free=None)

def lin_reduce(t, n):
    """reduce integer multiples of n (a monomial c*m) out of t"""
    if len(n.p) == 1:
        (m, c), = n.p.items()
        if c.denominator == 1 and c > 0:
            v = t.p.get(m)
            if v is not None and v.denominator == 1:
                r = v % c
                if r != v:
                    d = dict(t.p)
                    if r: d[m] = r
                    else: del d[m]
                    return mkT(d)
            if m == () :
                pass
    return t

RANGE_HOOK = [None]      # decide(B) -> True/False/None, set by the engine

def mk_mod(t, n):
    """t mod n (n > 0), integers"""
    # unwrap inner mods
    for m, c in list(t.p.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'mod' and m[0][0].data[1] is n and c.denominator == 1:
            inner = scale(m[0][0].data[0], c)
            return mk_mod(add(sub(t, mkT({m: c})), inner), n)
    t = lin_reduce(t, n)
    if not t.p: return T0
    if is_const(t) and is_const(n):
        return const_fr(const_val(t) % const_val(n))
    if n is T1 and is_int(t): return T0
    if is_const(n) and is_int(t):
        # coefficients of integers modulo a number
        q = const_val(n)
        u = mkT({m: c % q for m, c in t.p.items() if c % q}) if all(c.denominator == 1 and all(a.integer and isinstance(e, int) and e > 0 for a, e in m) for m, c in t.p.items()) else t
        if u is not t: return mk_mod(u, n)
    if len(t.p) == 1 and not is_const(t):
        (m, c), = t.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('idx', 'tmp', 'bv') and var_range(m[0][0]) is n:
            return t
    if RANGE_HOOK[0] is not None:
        r = RANGE_HOOK[0](t, n)
        if r is not None: return r
    a = mk_atom('mod', (t, n), integer=True, sign='nonneg', free=t.free | n.free, height=max(t.height, n.height))
    return from_atom(a)

def mk_floor(t):
    if is_int(t): return t
    if is_const(t): return const_fr(Fraction(math.floor(const_val(t))))
    ip = {}; rest = {}
    for m, c in t.p.items():
        if all(a.integer and isinstance(e, int) and e > 0 for a, e in m):
            k = math.floor(c) if m else math.floor(c)
            if k: ip[m] = Fraction(k)
            if c - k: rest[m] = c - k
        else: rest[m] = c
    rt = mkT(rest)
    if not rt.p: return mkT(ip)
    if is_const(rt) and 0 <= const_val(rt) < 1: return mkT(ip)
    a = mk_atom('floor', rt, integer=True, free=rt.free, height=rt.height)
    return add(mkT(ip), from_atom(a))

# ------------------------------------------------------------- arrays
class ArrSym:
    """opaque array symbol"""
    __slots__ = ('name', 'real', 'sign', 'integer', 'rec')
    _tab = {}
    def __repr__(self): return self.name
    def __deepcopy__(self, memo): return self
def arrsym(name, real=True, sign='any', integer=False):
    key = (name, real, sign, integer)
    a = ArrSym._tab.get(key)
    if a is None:
        a = ArrSym(); a.name = name; a.real = real; a.sign = sign; a.integer = integer; a.rec = None
        ArrSym._tab[key] = a
    return a

def mk_sel(arr, idxs):
    if arr.rec is not None and len(idxs) == 1:
        t = idxs[0]
        c = t.p.get((), ZERO)
        if not t.p: return arr.rec[0]
        if c.denominator == 1 and c > 0 and c <= 64:
            prev = mk_sel(arr, (sub(t, T1),))
            return arr.rec[1](prev, sub(t, T1))
    data = (arr,) + tuple(idxs)
    a = mk_atom('sel', data, real=arr.real, sign=arr.sign, integer=arr.integer, free=_free_of(data[1:]) | frozenset((arr_leaf(arr),)),
                height=_height_of(data[1:]))
    return from_atom(a)
def arr_leaf(arr):
    return mk_atom('arrleaf', arr.name)

def depends(t, v):
    return v in t.free

def split_mono(m, v):
    """split monomial into (part independent of v, part depending on v)"""
    ind = tuple((a, e) for a, e in m if v not in a.free)
    dep = tuple((a, e) for a, e in m if v in a.free)
    return ind, dep

def split_exp(m, v):
    """like split_mono, but also splits exp arguments additively"""
    ind = []; dep = []
    ext_i = T1; ext_d = T1
    for a, e in m:
        if v not in a.free: ind.append((a, e))
        elif a.kind == 'exp':
            ai = {}; ad = {}
            for mm, c in a.data.p.items():
                if any(v in x.free for x, _ in mm): ad[mm] = c
                else: ai[mm] = c
            ext_i = mul(ext_i, mk_exp(mkT(ai))) if ai else ext_i
            ext_d = mul(ext_d, mk_exp(mkT(ad)))
        else: dep.append((a, e))
    return mul(mkT({tuple(ind): ONE}), ext_i), mul(mkT({tuple(dep): ONE}), ext_d)

def distribute_dep(body, v):
    """body = sum_j coef_j * dep_j; returns {dep T: coef T}"""
    out = {}
    for m, c in body.p.items():
        i, d = split_exp(m, v)
        # clean dep coefficient
        i = scale(i, c)
        out[d] = add(out.get(d, T0), i)
    return out

def occurrences(t, v, acc=None):
    """collect all ways v is used: set of ('mod', c T, sgn) / ('bare',)  """
    if acc is None: acc = set()
    for m in t.p:
        for a, e in m:
            if v in a.free: _occ_atom(a, v, acc)
    return acc
def _occ_any(x, v, acc):
    if isinstance(x, T): occurrences(x, v, acc)
    elif isinstance(x, Lam): occurrences(x.body, v, acc)
    elif isinstance(x, B): _occ_any(x.args, v, acc)
    elif isinstance(x, Atom): _occ_atom(x, v, acc)
    elif isinstance(x, tuple):
        for y in x: _occ_any(y, v, acc)
def _occ_atom(a, v, acc):
    if a is v: acc.add(('bare',)); return
    if a.kind == 'mod':
        t, n = a.data
        s = _lin_in(t, v)
        if s is not None and v not in n.free:
            acc.add(('mod', n, s[0], s[1])); return
    if a.kind == 'ind': _occ_any(a.data.args, v, acc); return
    _occ_any(a.data, v, acc)
def _lin_in(t, v):
    """t = sgn*v + c with sgn = +-1 -> (sgn, c)"""
    m = ((v, 1),)
    c = t.p.get(m)
    if c not in (1, -1): return None
    rest = sub(t, mkT({m: c}))
    if v in rest.free: return None
    return (int(c), rest)

def mk_sum(n, v, body):
    """sum_{v=0}^{n-1} body"""
    if not body.p: return T0
    if is_const(n):
        k = const_val(n)
        if k <= 0: return T0
        if k <= 12:
            r = T0
            for j in range(int(k)):
                r = add(r, subst(body, {v: const(j)}))
            return r
    # strip integer constants off the bound
    c = n.p.get((), ZERO)
    if c and c.denominator == 1 and 0 < abs(c) <= 8 and len(n.p) > 1 and all(x.denominator == 1 for x in n.p.values()):
        base = sub(n, const(int(c)))
        w = fresh_bv(base)
        r = mk_sum(base, w, subst(body, {v: from_atom(w)}))
        if c > 0:
            for j in range(int(c)): r = add(r, subst(body, {v: add(base, const(j))}))
        else:
            for j in range(int(-c)): r = sub(r, subst(body, {v: sub(base, const(j + 1))}))
        return r
    body = _abs_expand(body, v)
    out = T0
    for d, coef in distribute_dep(body, v).items():
        out = add(out, mul(coef, _sum1(n, v, d)))
    return out

def _abs_expand(body, v):
    """|z|^2 -> z*conj(z) for z a single monomial depending on v (canonical form inside sums)"""
    if not any(a.kind == 'abs' and isinstance(e, int) and e >= 2 and len(a.data.p) == 1 and v in a.free for m in body.p for a, e in m): return body
    out = T0
    for m, c in body.p.items():
        r = const_fr(c)
        for a, e in m:
            if a.kind == 'abs' and isinstance(e, int) and e >= 2 and len(a.data.p) == 1 and v in a.free:
                r = mul(r, ipow(mul(a.data, conj(a.data)), e // 2))
                if e % 2: r = mul(r, from_atom(a))
            else: r = mul(r, mkT({((a, e),): ONE}))
        out = add(out, r)
    return out

def _sum1(n, v, d):
    if v not in d.free: return mul(n, d)
    vt = from_atom(v)
    # indicator of a single point: sum_k [k == c] f(k) = f(c) when 0<=c<n is known
    if len(d.p) == 1:
        (m, c), = d.p.items()
        for a, e in m:
            if a.kind == 'ind' and a.data.op == 'eq':
                s = _lin_in(a.data.args[0], v)
                if s is not None:
                    pt = scale(s[1], Fraction(-s[0]))
                    if IN_RANGE_HOOK[0] is not None and IN_RANGE_HOOK[0](pt, n):
                        rest = mkT({tuple((b, x) for b, x in m if b is not a): c})
                        return subst(rest, {v: pt})
    # shift / reflection reindexing to canonical form
    occ = occurrences(d, v)
    if occ and all(o[0] == 'bare' or o[1] is n for o in occ):
        cands = [d]
        seen = set()
        for o in occ:
            if o[0] == 'bare': continue
            sgn, c = o[2], o[3]
            if (sgn, c) in seen: continue
            seen.add((sgn, c))
            # new v' = sgn*v + c  => v = sgn*(v' - c)
            cands.append(subst(d, {v: mk_mod(scale(sub(vt, c), Fraction(sgn)), n)}))
        if len(cands) > 1:
            d = min(cands, key=lambda t: (_nmods(t), tkey(t)))
        if len(d.p) != 1 or list(d.p.values()) != [ONE]:
            return mk_sum(n, v, d) if d is not cands[0] else _sum_atom(n, v, d)
        if d is not cands[0] and (_nmods(d), tkey(d)) < (_nmods(cands[0]), tkey(cands[0])): return _sum1(n, v, d)
    # Plancherel: sum_k fft(x)[k] * fft(y)[-k] = n * sum_j x[j]*y[j]
    if len(d.p) == 1:
        (m, c), = d.p.items()
        fs = [(a, e) for a, e in m if a.kind == 'fft' and a.data[0] is n]
        if len(m) == 2 and len(fs) == 2 and all(e == 1 for a, e in fs):
            (a1, _), (a2, _) = fs
            i1, i2 = a1.data[2], a2.data[2]
            if v not in a1.data[1].free and v not in a2.data[1].free:
                l1 = _idx_lin(i1, v, n); l2 = _idx_lin(i2, v, n)
                if l1 and l2 and l1[0] == -l2[0] and lin_reduce(add(l1[1], l2[1]), n) is T0:
                    w = fresh_bv(n)
                    body = mul(lam_apply(a1.data[1], [from_atom(w)]), lam_apply(a2.data[1], [from_atom(w)]))
                    return scale(mul(n, mk_sum(n, w, body)), c)
        # |fft|^2 -> fft * conj(fft)
        if len(m) == 1 and m[0][1] == 2 and m[0][0].kind == 'abs':
            x = m[0][0].data
            if len(x.p) == 1 and len(next(iter(x.p))) == 1 and next(iter(x.p))[0][0].kind == 'fft':
                y = mul(x, conj(x))
                if len(y.p) == 1 and y is not d: return scale(mk_sum(n, v, y), c)
        # sum_k fft(x)[k] = n*x[0]
        if len(m) == 1 and len(fs) == 1 and fs[0][1] == 1 and v not in fs[0][0].data[1].free:
            l1 = _idx_lin(fs[0][0].data[2], v, n)
            if l1:
                return scale(mul(n, lam_apply(fs[0][0].data[1], [T0])), c)
    return _sum_atom(n, v, d)

def _idx_lin(i, v, n):
    if len(i.p) == 1:
        (m, c), = i.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'mod' and m[0][0].data[1] is n:
            return _lin_in(m[0][0].data[0], v)
    return _lin_in(i, v)

def _sum_atom(n, v, d):
    if len(d.p) == 1:
        (m, c), = d.p.items()
        if c != 1:
            return scale(_sum_atom(n, v, mkT({m: ONE})), c)
    L = mk_lam([v], d)
    real = is_real(d)
    s = sign_of(d)
    sg = 'any'
    if s in ('pos', 'nonneg') : sg = 'nonneg'
    elif len(d.p) == 1 and _is_absq(next(iter(d.p))): sg = 'nonneg'; real = True
    a = mk_atom('sum', (n, L), real=real, sign=sg, free=n.free | L.free, height=max(n.height, L.height))
    return from_atom(a)

def _nmods(t):
    k = 0
    def walk(x):
        nonlocal k
        if isinstance(x, T):
            for m in x.p:
                for a, e in m: walk(a)
        elif isinstance(x, Atom):
            if x.kind == 'mod': k += 1
            if x.kind == 'ind': walk(x.data.args)
            elif x.kind in ('exp', 'base', 'abs', 'mod', 'floor', 'sel', 'fft', 'sum', 'fn', 'conj'): walk(x.data)
        elif isinstance(x, Lam): walk(x.body)
        elif isinstance(x, tuple):
            for y in x: walk(y)
        elif isinstance(x, B): walk(x.args)
    walk(t)
    return k

def mk_fft(n, v, body, k):
    """(forward DFT over v of body)[k] = sum_v body exp(-2 pi i v k / n), index k in [0,n)"""
    out = T0
    if not body.p: return T0
    for d, coef in distribute_dep(body, v).items():
        out = add(out, mul(coef, _fft1(n, v, d, k)))
    return out

def mk_ifft(n, v, body, k):
    return mul(power(n, -1), mk_fft(n, v, body, mk_mod(neg(k), n)))

def _fft1(n, v, d, k):
    vt = from_atom(v)
    if v not in d.free:
        # DFT of a constant
        return mul(mul(d, n), mk_ind(mk_eq(k, T0)))
    # shift theorem: a factor exp(2 pi i k0 v/n), k0 integer, displaces the index by k0
    if len(d.p) == 1:
        (m, c), = d.p.items()
        for a, e in m:
            if a.kind == 'exp' and e == 1 and v in a.free:
                lin = {}; rest = {}; bad = False
                for mm, cc in a.data.p.items():
                    ev = [x for b, x in mm if b is v]
                    if not any(v in b.free for b, x in mm): rest[mm] = cc
                    elif ev == [1] and not any(v in b.free for b, x in mm if b is not v): lin[tuple(y for y in mm if y[0] is not v)] = cc
                    else: bad = True; break
                if bad or not lin: continue
                q = mul(neg(I_), mul(mkT(lin), n))
                if is_real(q) and _is_2pi_int(q):
                    k0 = _div_2pi(q)
                    d2 = mul(mkT({tuple(y for y in m if y[0] is not a): c}), mk_exp(mkT(rest)))
                    return mk_fft(n, v, d2, mk_mod(sub(k, k0), n))
    # pull a reflection out
    occ = occurrences(d, v)
    mods = [o for o in occ if o[0] == 'mod']
    if occ and all(o[0] == 'bare' or o[1] is n for o in occ):
        refl = subst(d, {v: mk_mod(neg(vt), n)})
        def cost(t):
            o2 = occurrences(t, v)
            return (sum(1 for o in o2 if o[0] == 'mod' and o[2] == -1), _nmods(t), tkey(t))
        if cost(refl) < cost(d):
            if len(refl.p) == 1 and list(refl.p.values()) == [ONE]:
                return _fft2(n, v, refl, mk_mod(neg(k), n))
    return _fft2(n, v, d, k)

def _fft2(n, v, d, k):
    if len(d.p) == 1:
        (m, c), = d.p.items()
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            # fft(fft(x))[k] = n x[-k]
            if a.kind == 'fft' and a.data[0] is n and a.data[2] is from_atom(v) and v not in a.data[1].free:
                return scale(mul(n, lam_apply(a.data[1], [mk_mod(neg(k), n)])), c)
            if a.kind == 'ind' and a.data.op == 'eq':
                # DFT of a unit impulse at position c0
                s = _lin_in(a.data.args[0], v)
                if s is not None:
                    pt = scale(s[1], Fraction(-s[0]))
                    if IN_RANGE_HOOK[0] is not None and IN_RANGE_HOOK[0](pt, n):
                        ph = mul(mul(scale(I_, Fraction(-2)), const(math.pi)), mul(mul(pt, k), power(n, -1)))
                        return mk_exp(ph)
        if c != 1:
            return scale(_fft2(n, v, mkT({m: ONE}), k), c)
        # DFT of a product of two spectra: n times the circular convolution at -k
        if len(m) == 2 and all(a.kind == 'fft' and e == 1 and a.data[0] is n and v not in a.data[1].free for a, e in m):
            ls = [_idx_lin(a.data[2], v, n) for a, e in m]
            if all(l is not None and l[1] is T0 for l in ls):
                w = fresh_bv(n); wt = from_atom(w)
                at = lambda l, i: i if l[0] == 1 else mk_mod(neg(i), n)
                x = lam_apply(m[0][0].data[1], [at(ls[0], wt)])
                y = lam_apply(m[1][0].data[1], [at(ls[1], mk_mod(neg(add(k, wt)), n))])
                return mul(n, mk_sum(n, w, mul(x, y)))
    L = mk_lam([v], d)
    a = mk_atom('fft', (n, L, k), real=False, free=n.free | L.free | k.free, height=max(n.height, L.height, k.height))
    return from_atom(a)

IN_RANGE_HOOK = [None]   # (t, n) -> True if provably 0 <= t < n

# ------------------------------------------------------------- conditions
_bs = {}
class B:
    __slots__ = ('op', 'args', 'free', 'height', '_h')
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __deepcopy__(self, memo): return self
    def __repr__(self): return bstr(self)
def mkB(op, *args):
    key = (op,) + args
    b = _bs.get(key)
    if b is None:
        b = B(); b.op = op; b.args = args; b.free = _free_of(args); b.height = _height_of(args); b._h = hash(key)
        _bs[key] = b
    return b
BT = mkB('true'); BF = mkB('false')

def mk_gt(a, b):
    """a > b over reals"""
    t = sub(a, b)
    s = sign_of(t)
    if s == 'pos': return BT
    if s in ('zero', 'neg', 'nonpos'): return BF
    t0 = t; t = absq_form(t)
    if t is not t0:
        s = sign_of(t)
        if s == 'pos': return BT
        if s in ('zero', 'neg', 'nonpos'): return BF
    if not is_real(t): raise Unsupported('ordering of complex terms')
    f = _neg_content(t, lambda a: a.kind == 'abs')      # a magnitude that is divided by is positive
    if f is not None: return mk_gt(f[0], T0)
    c0 = t.p.get((), 0)
    if c0 and Fraction(c0).denominator != 1:
        p = sub(t, const(c0))
        if p.p and is_int(p):                      # p > -c0 for an integer p
            t = sub(p, const(math.floor(-Fraction(c0))))
    c = abs(t.p[lead(t)]) if t.p else ONE
    if not is_int(t): t = scale(t, 1 / c)
    return mkB('gt', t)
def mk_ge(a, b): return mk_not(mk_gt(b, a))
def mk_eq(a, b):
    t = sub(a, b)
    if not t.p: return BT
    if is_const(t): return BF
    s = sign_of(t) if is_real(t) else 'any'
    if s in ('pos', 'neg'): return BF
    if is_real(t):
        l = lead(t)
        t = scale(t, 1 / t.p[l]) if not is_int(t) else (t if t.p[l] > 0 else neg(t))
    return mkB('eq', t)
def mk_not(b):
    if b is BT: return BF
    if b is BF: return BT
    if b.op == 'not': return b.args[0]
    return mkB('not', b)
def mk_and(*bs):
    out = []
    for b in bs:
        if b is BF: return BF
        if b is BT or b in out: continue
        if b.op == 'and':
            for x in b.args:
                if x not in out: out.append(x)
        else: out.append(b)
    for b in out:
        if mk_not(b) in out: return BF
    if not out: return BT
    if len(out) == 1: return out[0]
    return mkB('and', *out)
def mk_or(*bs):
    return mk_not(mk_and(*[mk_not(b) for b in bs]))
def mk_ind(b):
    if b is BT: return T1
    if b is BF: return T0
    if b.op == 'not': return sub(T1, mk_ind(b.args[0]))
    if b.op == 'and':
        r = T1
        for x in b.args: r = mul(r, mk_ind(x))
        return r
    a = mk_atom('ind', b, integer=True, sign='nonneg', free=b.free, height=b.height)
    return from_atom(a)
def mk_ite(b, x, y):
    if b is BT: return x
    if b is BF: return y
    if x is y: return x
    i = mk_ind(b)
    return add(mul(i, sub(x, y)), y)
def bsubst(b, mp):
    if not any(a in b.free for a in mp): return b
    if b.op == 'gt': return mk_gt(subst(b.args[0], mp), T0)
    if b.op == 'eq': return mk_eq(subst(b.args[0], mp), T0)
    if b.op == 'not': return mk_not(bsubst(b.args[0], mp))
    if b.op == 'and': return mk_and(*[bsubst(x, mp) for x in b.args])
    return mkB(b.op, *[_subst_any(x, mp) for x in b.args])
def mk_pred(name, *args):
    return mkB('pred', name, *args)

# ------------------------------------------------------------- substitution
def subst(t, mp):
    if not mp: return t
    fr = t.free
    mp = {a: x for a, x in mp.items() if a in fr}
    if not mp: return t
    return _subst(t, mp, {})

def _subst(t, mp, memo):
    out = T0
    same = {}
    keys = mp.keys()
    for m, c in t.p.items():
        if not any((not a.free.isdisjoint(keys)) for a, e in m):
            same[m] = c; continue
        r = const_fr(c)
        for a, e in m:
            if a.free.isdisjoint(keys):
                r = mul(r, mkT({((a, e),): ONE}))
            else:
                x = memo.get(a)
                if x is None:
                    x = memo[a] = _subst_atom(a, mp, memo)
                if e == 1: r = mul(r, x)
                else: r = mul(r, power(x, Fraction(e)))
            if not r.p: break
        out = add(out, r)
    return add(out, mkT(same))

def _subst_atom(a, mp, memo):
    x = mp.get(a)
    if x is not None: return x
    k = a.kind
    if k == 'exp': return mk_exp(subst(a.data, mp))
    if k == 'base':
        return subst(a.data, mp)
    if k == 'abs': return mk_abs(subst(a.data, mp))
    if k == 'mod': return mk_mod(subst(a.data[0], mp), subst(a.data[1], mp))
    if k == 'floor': return mk_floor(subst(a.data, mp))
    if k == 'ind': return mk_ind(bsubst(a.data, mp))
    if k == 'conj': return conj(_subst_atom(a.data, mp, memo))
    if k == 'sel':
        leaf = arr_leaf(a.data[0])
        idxs = tuple(subst(i, mp) for i in a.data[1:])
        if leaf in mp:
            return mp[leaf](idxs)
        return mk_sel(a.data[0], idxs)
    if k == 'fft':
        n, L, i = a.data
        n2 = subst(n, mp)
        t = fresh_bv(n2)
        body = subst(lam_apply(L, [from_atom(t)]), mp)
        return mk_fft(n2, t, body, subst(i, mp))
    if k == 'sum':
        n, L = a.data
        n2 = subst(n, mp)
        t = fresh_bv(n2)
        body = subst(lam_apply(L, [from_atom(t)]), mp)
        return mk_sum(n2, t, body)
    if k == 'fn':
        args = _subst_any(a.data[1:], mp)
        return rebuild_fn(a.data[0], args, a.meta)
    if k == 'idx':
        return from_atom(a)
    raise Unsupported('subst in ' + k)

# ------------------------------------------------------------- derivatives
def diff(t, v):
    """exact derivative of a term with respect to a real variable (atom)"""
    out = T0
    for m, c in t.p.items():
        for j, (a, e) in enumerate(m):
            if v not in a.free: continue
            if a.kind == 'base': d = mul(scale(power(a.data, Fraction(e) - 1), Fraction(e)), diff(a.data, v))
            else:
                d = diff_atom(a, v)
                if e != 1: d = mul(d, mkT({((a, e - 1),): Fraction(e)}))
            out = add(out, mul(d, mkT({m[:j] + m[j + 1:]: c})))
    return out
def diff_atom(a, v):
    if a is v: return T1
    if a.kind == 'exp': return mul(from_atom(a), diff(a.data, v))
    if a.kind == 'fn':
        name = a.data[0]; x = a.data[1]
        if len(a.data) == 2 and isinstance(x, T):
            dx = diff(x, v)
            if name == 'arcsin': return mul(dx, power(sub(T1, mul(x, x)), Fraction(-1, 2)))
            if name == 'arccos': return neg(mul(dx, power(sub(T1, mul(x, x)), Fraction(-1, 2))))
            if name == 'arctan': return mul(dx, power(add(T1, mul(x, x)), -1))
            if name == 'log': return mul(dx, power(x, -1))
            if name.startswith('F_'): return mul(dx, mk_fn(name + "'", x, real=a.real))
        elif name.startswith('F_') and all(isinstance(x, T) for x in a.data[1:]):
            # partial derivatives
            r = T0
            for j, x in enumerate(a.data[1:]):
                dx = diff(x, v)
                if dx.p: r = add(r, mul(dx, mk_fn("%s'%s" % (name, j or ''), *a.data[1:], real=a.real)))
            return r
    raise Unsupported('derivative of ' + atom_str(a)[:60])

FN_REBUILD = {}
def rebuild_fn(name, args, meta):
    f = FN_REBUILD.get(name)
    if f is not None:
        r = f(*args)
        if r is not None: return r
    return mk_fn(name, *args, real=meta[0], sign=meta[1], integer=meta[2])
FN_REBUILD['log'] = mk_log

# ------------------------------------------------------------- printing / ordering
def atom_str(a):
    if a._str is not None: return a._str
    k = a.kind
    d = a.data
    if k == 'I': s = 'i'
    elif k == 'sym': s = d if isinstance(d, str) else d[0]
    elif k == 'idx': s = 'k%d' % d[1] + ('<%s>' % tstr(d[0]))
    elif k == 'bv': s = 'b%d_%d' % d[:2]
    elif k == 'tmp': s = 't%d' % d[0]
    elif k == 'exp': s = 'exp(%s)' % tstr(d)
    elif k == 'base': s = '(%s)' % tstr(d)
    elif k == 'abs': s = '|%s|' % tstr(d)
    elif k == 'ind': s = '[%s]' % bstr(d)
    elif k == 'sel': s = '%s[%s]' % (d[0].name, ','.join(tstr(x) for x in d[1:]))
    elif k == 'fft': s = 'fft<%s>(%s)[%s]' % (tstr(d[0]), d[1], tstr(d[2]))
    elif k == 'sum': s = 'sum<%s>(%s)' % (tstr(d[0]), d[1])
    elif k == 'conj': s = 'conj(%s)' % atom_str(d)
    elif k == 'mod': s = 'mod(%s,%s)' % (tstr(d[0]), tstr(d[1]))
    elif k == 'floor': s = 'floor(%s)' % tstr(d)
    elif k == 'fn': s = '%s(%s)' % (d[0], ','.join(str(x) for x in d[1:]))
    elif k == 'arrleaf': s = '@' + d
    else: s = k + repr(d)
    if k != 'tmp' and len(s) < 4000: a._str = s
    return s
def fstr(c):
    if c.denominator == 1: return str(c.numerator)
    if c.denominator < 1000: return '%d/%d' % (c.numerator, c.denominator)
    return '%.12g' % float(c) if abs(c) < 10**300 else mpmath.nstr(to_mp(c), 12)
def tstr(t):
    if not t.p: return '0'
    parts = []
    for m, c in t.p.items():
        f = '*'.join(atom_str(a) if e == 1 else '%s^%s' % (atom_str(a), e) for a, e in m)
        if not m: parts.append(fstr(c))
        elif c == 1: parts.append(f)
        else: parts.append(fstr(c) + '*' + f)
    parts.sort()
    return ' + '.join(parts)
def bstr(b):
    if b.op in ('gt', 'eq'): return '%s %s 0' % (tstr(b.args[0]), '>' if b.op == 'gt' else '==')
    if b.op == 'not': return '!(%s)' % bstr(b.args[0])
    if b.op == 'and': return ' & '.join(bstr(x) for x in b.args)
    if b.op in ('true', 'false'): return b.op
    return '%s%r' % (b.op, b.args)
def tkey(t):
    s = tstr(t)
    return (len(s), s)

# ------------------------------------------------------------- symbols
def sym(name, real=True, sign='any', integer=False):
    return from_atom(mk_atom('sym', (name, real, sign, integer), real=real, sign=sign, integer=integer))

# ------------------------------------------------------------- zero test
def clear_den(t):
    """multiply by powers of base atoms so that no negative exponents remain; returns numerator"""
    for _ in range(40):
        mins = {}
        for m in t.p:
            for a, e in m:
                if a.kind in ('base', 'abs'):
                    if e < mins.get(a, 0): mins[a] = e
        if not mins:
            return t
        # outermost first: the base with the largest string (contains others)
        a = max(mins, key=lambda x: (len(atom_str(x)), x.id))
        e = -mins[a]
        # multiply by a^e
        out = T0
        for m, c in t.p.items():
            d = dict(m)
            x = d.pop(a, 0) + e
            rest = mkT({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
            if a.kind == 'abs': out = add(out, mul(rest, mkT({((a, x),): ONE}) if x else T1))
            else: out = add(out, mul(rest, _bp(a, Fraction(x))))
        t = out
    raise Unsupported('denominator clearing did not terminate')

def is_zero(t):
    if not t.p: return True
    u = clear_den(t)
    if not u.p: return True
    if _absfix(u): return True
    return False

def same_roots(t):
    """c1 m1 - c2 m2 == 0 for nonnegative m1, m2 (roots in their domain): both raised to the power that removes the roots"""
    if len(t.p) != 2: return False
    (m1, c1), (m2, c2) = t.p.items()
    if not (isinstance(c1, Fraction) and isinstance(c2, Fraction)) or c1 * c2 >= 0: return False
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) - e
    d = {a: Fraction(e) for a, e in d.items() if e}
    q = 1
    for a, e in d.items():
        if not a.real: return False
        if e.denominator == 1 and a.sign not in ('pos', 'nonneg'): return False
        q = q * e.denominator // math.gcd(q, e.denominator)
    if q == 1 or q > 4: return False
    x, y = const_fr(abs(c1) ** q), const_fr(abs(c2) ** q)
    for a, e in d.items():
        k = int(e * q); b = a.data if a.kind == 'base' else from_atom(a)
        if abs(k) > 8: return False
        if len(b.p) > 40 or max(len(x.p), len(y.p)) > 200: return False
        if k > 0: x = mul(x, ipow(b, k))
        else: y = mul(y, ipow(b, -k))
    if len(x.p) + len(y.p) > 60: return False
    try: return is_zero(sub(x, y))
    except Unsupported: return False

def _absfix(u):
    """replace |z|^2 by z*conj(z) and retry"""
    out = T0
    changed = False
    for m, c in u.p.items():
        r = const_fr(c)
        for a, e in m:
            if a.kind == 'abs' and isinstance(e, int) and e >= 2:
                z = a.data
                changed = True
                sq = mul(z, conj(z))
                r = mul(r, ipow(sq, e // 2))
                if e % 2: r = mul(r, from_atom(a))
            else:
                r = mul(r, mkT({((a, e),): ONE}))
        out = add(out, r)
    if not changed: return False
    return not out.p or is_zero(out)

# ------------------------------------------------------------- |z|^2 -> z conj(z), everywhere
def deep_abs(t, memo=None):
    """the term with every even power of a modulus of a complex quantity written as z conj(z), inside binders too"""
    if memo is None: memo = {}
    out = T0
    for m, c in t.p.items():
        r = const_fr(c)
        for a, e in m:
            if a.kind == 'abs' and isinstance(e, int) and e >= 2 and not is_real(a.data):
                z = deep_abs(a.data, memo)
                r = mul(r, ipow(mul(z, conj(z)), e // 2))
                if e % 2: r = mul(r, mk_abs(z))
                continue
            x = memo.get(a)
            if x is None: x = memo[a] = _deep_atom(a, memo)
            r = mul(r, x) if e == 1 else mul(r, power(x, Fraction(e)))
        out = add(out, r)
    return out
def _deep_any(x, memo):
    if isinstance(x, T): return deep_abs(x, memo)
    if isinstance(x, Lam):
        vs, body = lam_fresh(x)
        return mk_lam(vs, deep_abs(body, memo))
    if isinstance(x, tuple): return tuple(_deep_any(y, memo) for y in x)
    return x
def _deep_atom(a, memo):
    k = a.kind
    if k == 'exp': return mk_exp(deep_abs(a.data, memo))
    if k == 'base': return deep_abs(a.data, memo)
    if k == 'abs': return mk_abs(deep_abs(a.data, memo))
    if k == 'conj': return conj(_deep_atom(a.data, memo))
    if k == 'fft':
        n, L, i = a.data; v = fresh_bv(n)
        return mk_fft(n, v, deep_abs(lam_apply(L, [from_atom(v)]), memo), deep_abs(i, memo))
    if k == 'sum':
        n, L = a.data; v = fresh_bv(n)
        return mk_sum(n, v, deep_abs(lam_apply(L, [from_atom(v)]), memo))
    if k == 'fn': return rebuild_fn(a.data[0], _deep_any(a.data[1:], memo), a.meta)
    return from_atom(a)
