"""Path conditions, entailment (z3), obligation discharge."""
import time, itertools, math
from fractions import Fraction
import z3
from .terms import *
from . import terms as TM

class Stop(BaseException):
    """current path is infeasible / finished"""
class BudgetExceeded(Unsupported):
    pass

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'nf': 0, 'z3': 0, 'split': 0}

# ------------------------------------------------------------ z3 translation
class Z3Env:
    def __init__(self):
        self.vars = {}
        self.facts = []
        self.pending = []
        self.memo = {}
    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = z3.Real('a%d' % a.id)
            self.vars[a] = v
            self.pending.append(a)
        return v
    def t(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        if not all(a.real for m in t.p for a, e in m):
            if not is_real(t): raise ValueError('complex')
            r = self.memo[t] = self.ri(t)[0]
            return r
        terms = []
        for m, c in t.p.items():
            r = z3.RealVal(str(c)) if (not m or c != 1) else None
            for a, e in m:
                if not a.real: raise ValueError('complex')
                x = self.powr(a, e)
                r = x if r is None else r * x
            terms.append(r)
        if not terms: r = z3.RealVal(0)
        elif len(terms) == 1: r = terms[0]
        else: r = z3.Sum(terms)
        self.memo[t] = r
        return r
    def ri(self, t):
        """real and imaginary part of a term with i and exp(x + i y) in it"""
        R, I = [], []
        for m, c in t.p.items():
            r, i = z3.RealVal(str(c)), None
            for a, e in m:
                if a.real:
                    x = self.powr(a, e); r = None if r is None else r * x; i = None if i is None else i * x
                    continue
                if a.kind == 'I':
                    if not isinstance(e, int): raise ValueError('complex')
                    for _ in range(e % 4): r, i = (None if i is None else -i), r
                    continue
                if a.kind != 'exp': raise ValueError('complex')
                y = scale(imag_part(a.data), Fraction(e)); x = scale(real_part(a.data), Fraction(e))
                if x.p:
                    x = self.t(mk_exp(x)); r = None if r is None else r * x; i = None if i is None else i * x
                co, si = self.cs(y)
                def lin(p, q, f, g):
                    ts = ([p * f] if p is not None else []) + ([q * g] if q is not None else [])
                    return None if not ts else ts[0] if len(ts) == 1 else ts[0] + ts[1]
                r, i = lin(r, i, co, -si), lin(r, i, si, co)
            if r is not None: R.append(r)
            if i is not None: I.append(i)
        s = lambda L: z3.RealVal(0) if not L else L[0] if len(L) == 1 else z3.Sum(L)
        return s(R), s(I)
    def cs(self, y):
        """cosine and sine of a real term"""
        sg = 1
        if y.p and y.p[lead(y)] < 0: y = neg(y); sg = -1
        k = ('cs', y); p = self.vars.get(k)
        if p is None:
            co, si = z3.Real('cos%d' % len(self.vars)), z3.Real('sin%d' % len(self.vars))
            self.vars[k] = p = (co, si); self.facts.append(co * co + si * si == 1)
            self.facts += [co <= 1, co >= -1, si <= 1, si >= -1]
        return p[0], (p[1] if sg == 1 else -p[1])
    def powr(self, a, e):
        v = self.var(a)
        if e == 1: return v
        if isinstance(e, int) and e > 0:
            r = v
            for _ in range(e - 1): r = r * v
            return r
        key = ('pow', a, e)
        p = self.vars.get(key)
        if p is None:
            p = z3.Real('p%d_%s' % (a.id, str(e).replace('/', 'o')))
            self.vars[key] = p
            e = Fraction(e)
            d, nmr = e.denominator, e.numerator
            def ip(x, k):
                r = x
                for _ in range(k - 1): r = r * x
                return r
            if d <= 4 and abs(nmr) <= 6:
                lhs = ip(p, d)
                if nmr > 0: self.facts.append(lhs == ip(v, nmr))
                else: self.facts.append(z3.Implies(v != 0, lhs * ip(v, -nmr) == 1))
            if d % 2 == 0: self.facts.append(p >= 0)
            self.facts.append(z3.Implies(v > 0, p > 0))
            if nmr < 0 and d == 1 and nmr % 2: self.facts.append(z3.Implies(v < 0, p < 0))
        return p
    def flush(self):
        while self.pending:
            a = self.pending.pop()
            v = self.vars[a]
            try: self.atom_facts(a, v)
            except ValueError: pass
        return self.facts
    def atom_facts(self, a, v):
        F = self.facts
        if a.sign == 'pos':
            F.append(v >= 1 if a.integer else v > 0)
        elif a.sign == 'nonneg': F.append(v >= 0)
        elif a.sign == 'neg': F.append(v < 0)
        k = a.kind
        if k in ('idx', 'tmp', 'bv'):
            n = var_range(a)
            if n is not None: F.append(v <= self.t(n) - 1)
        elif k == 'mod':
            F.append(v <= self.t(a.data[1]) - 1)
            t, n = self.t(a.data[0]), self.t(a.data[1])
            F.append(z3.Implies(z3.And(t >= 0, t <= n - 1), v == t))
            F.append(z3.Implies(z3.And(t >= n, t <= 2 * n - 1), v == t - n))
            F.append(z3.Implies(z3.And(t >= -n, t <= -1), v == t + n))
        elif k == 'ind':
            F.append(z3.Or(v == 0, v == 1))
            b = self.b(a.data)
            F.append(b == (v == 1))
        elif k == 'base':
            F.append(v == self.t(a.data))
        elif k == 'abs':
            if is_real(a.data):
                x = self.t(a.data)
                F.append(z3.Or(v == x, v == -x))
        elif k == 'floor':
            x = self.t(a.data)
            F.append(v <= x); F.append(x < v + 1)
        elif k == 'fn':
            f = Z3_FN_FACTS.get(a.data[0])
            if f: f(self, a, v)
        elif k == 'exp':
            # e^x >= 1 + x
            if is_real(a.data): F.append(v >= 1 + self.t(a.data))
    def b(self, b):
        if b is BT: return z3.BoolVal(True)
        if b is BF: return z3.BoolVal(False)
        if b.op == 'not': 
            x = b.args[0]
            if x.op == 'gt' and is_int(x.args[0]): return self.t(x.args[0]) <= 0
            if x.op == 'eq' and is_real(x.args[0]) and is_int(x.args[0]):
                t = self.t(x.args[0]); return z3.Or(t >= 1, t <= -1)
            return z3.Not(self.b(x))
        if b.op == 'and': return z3.And([self.b(x) for x in b.args])
        if b.op == 'gt':
            t = b.args[0]
            return self.t(t) >= 1 if is_int(t) else self.t(t) > 0
        if b.op == 'eq':
            t = b.args[0]
            if is_real(t): return self.t(t) == 0
            try: return z3.And(self.t(real_part(t)) == 0, self.t(imag_part(t)) == 0)
            except ValueError: pass
        v = self.vars.get(b)
        if v is None:
            v = self.vars[b] = z3.Bool('b%d' % len(self.vars))
        return v

Z3_FN_FACTS = {}
def _arctan2_f(env, a, v): env.facts += [v <= 3.1415926535897936, v >= -3.1415926535897936]
Z3_FN_FACTS['arctan2'] = _arctan2_f
Z3_FN_FACTS['angle'] = _arctan2_f

def z3_check(facts, goal_neg, timeout=2000, want_model=False):
    env = Z3Env()
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        try: s.add(env.b(f))
        except ValueError: pass
    if goal_neg is not None:
        try: s.add(env.b(goal_neg))
        except ValueError: return ('unknown', None)
    for f in env.flush(): s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['z3_queries'] += 1; STATS['z3_time'] += time.time() - t0
    if r == z3.unsat: return ('unsat', None)
    if r == z3.sat:
        m = {}
        if want_model:
            mod = s.model()
            for a, v in env.vars.items():
                if isinstance(a, Atom) and a.kind in ('sym', 'idx'):
                    x = mod.eval(v, model_completion=True)
                    try:
                        m[a] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(12).as_fraction())
                    except Exception: pass
        return ('sat', m)
    return ('unknown', None)

# ------------------------------------------------------------ context
class Ctx:
    def __init__(self, prefix=()):
        self.facts = []          # list of B, conjunctive
        self.factset = set()
        self.prefix = list(prefix)
        self.trail = []          # decisions taken (bool) ; forks recorded
        self.forks = []          # alternative prefixes to explore
        self.cache = {}
        self.foralls = []; self.points = []; self.witnesses = []
        self.assumed = []        # (label) trusted facts used
        self.rewrites = {}       # sym atom -> T
        self.max_forks = 60
        self.deadline = None
    def key(self): return len(self.facts)
    def add(self, b):
        if b is BT: return
        if b.op == 'and':
            for x in b.args: self.add(x)
            return
        if b not in self.factset:
            self.factset.add(b); self.facts.append(b)
            if b.op == 'eq': self._solve(b.args[0])
            if b.op == 'not' and b.args[0].op == 'gt':
                t = self.rw(b.args[0].args[0])
                if len(t.p) == 1:
                    (m, c), = t.p.items()
                    if c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and m[0][0].sign == 'nonneg': self._solve(t)
            if b.op in ('eq', 'gt'): self._pinned()
            if b.op == 'pred' and b.args[0] == 'all':
                self.foralls.append(b.args[1])
                for w in self.points: self.instance(b.args[1], w)
            if b.op == 'not' and b.args[0].op == 'pred' and b.args[0].args[0] == 'all':
                lam = b.args[0].args[1]
                w = []
                for d, v in enumerate(lam.vs):
                    Ctx.nwit += 1
                    x = sym('witness!%d' % Ctx.nwit, sign='nonneg', integer=True); w.append(x)
                    n = var_range(v)
                    if n is not None: self.add(mk_gt(n, x))
                self.witnesses.append(tuple(w))
                self.add(mk_eq(self.applied(lam, w), T0))
    nwit = 0
    def applied(self, lam, w): return subst(lam.body, {v: x for v, x in zip(lam.vs, w)})
    def instance(self, lam, w):
        if len(w) == len(lam.vs): self.add(mk_not(mk_eq(self.applied(lam, w), T0)))
    def point(self, w):
        """instantiate what is known for all indices at this one"""
        w = tuple(w); self.points.append(w)
        for lam in list(self.foralls): self.instance(lam, w)
    def _pinned(self):
        """a < 1 for a natural number: a == 0"""
        for f in self.facts:
            if f.op != 'gt' or len(f.args[0].p) > 3: continue
            t = self.rw(f.args[0])
            if len(t.p) != 2 or t.p.get(()) is None: continue
            for m, c in t.p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and m[0][0].integer and m[0][0].sign == 'nonneg' and c < 0 and -t.p[()] / c <= 1:
                    a = m[0][0]
                    if a not in self.rewrites: self._solve(from_atom(a))
                    break
    def _solve(self, t):
        """equality t == 0: orient into a rewrite of a plain symbol if linear in it"""
        t = self.rw(t)
        if not is_real(t): return
        best = None
        for m, c in t.p.items():
            for a, e in m:
                if e not in (1, -1) or a.kind != 'sym': continue
                others = [(b, x) for b, x in m if b is not a]
                if any(not (b.real and b.sign == 'pos') or a in b.free for b, x in others): continue
                rest = sub(t, mkT({m: c}))
                if a in rest.free: continue
                v = scale(rest, -1 / c)
                for b, x in others: v = mul(v, power(from_atom(b), -x))
                if e == -1:
                    if not v.p: continue
                    v = power(v, -1)
                if a.integer and not is_int(v): continue
                if best is None or a.id > best[0].id: best = (a, v)
        if best:
            a, v = best
            for k in list(self.rewrites): self.rewrites[k] = subst_all(self.rewrites[k], {a: v})
            self.rewrites[a] = v
    def rw(self, t):
        if not self.rewrites: return t
        return subst_all(t, self.rewrites)
    def brw(self, b):
        if not self.rewrites: return b
        return bsubst_all(b, self.rewrites)
    def entails(self, b, timeout=1500):
        """True if provable, False if negation provable, None otherwise"""
        if b is BT: return True
        if b is BF: return False
        if b in self.factset: return True
        nb = mk_not(b)
        if nb in self.factset: return False
        k = (b, len(self.facts))
        if k in self.cache: return self.cache[k]
        r = None
        b2 = self.brw(b)
        if b2 is BT: r = True
        elif b2 is BF: r = False
        elif b2.op == 'eq' and is_zero(b2.args[0]): r = True
        elif b2.op == 'pred' or (b2.op == 'eq' and not is_real(b2.args[0])): 
            r = None
        else:
            fs = self.relevant(b2)
            st, _ = z3_check(fs, mk_not(b2), timeout)
            if st == 'unsat': r = True
            else:
                st, _ = z3_check(fs, b2, timeout)
                if st == 'unsat': r = False
        self.cache[k] = r
        return r
    def relevant(self, b):
        """facts sharing symbols (transitively) with b"""
        need = set(_syms(b))
        out = []
        left = [(f, _syms(f)) for f in self.facts]
        ch = True
        while ch:
            ch = False
            for i, (f, s) in enumerate(left):
                if f is None: continue
                if not s or s & need:
                    need |= s; out.append(f); left[i] = (None, None); ch = True
        return out
    def decide(self, b):
        if b is BT: return True
        if b is BF: return False
        r = self.entails(b)
        if r is not None: return r
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = True
            self.forks.append(self.trail[:] + [False])
            if len(self.trail) > self.max_forks: raise BudgetExceeded('too many forks')
            if self.deadline and time.time() > self.deadline: raise BudgetExceeded('time budget')
        self.trail.append(d)
        self.add(b if d else mk_not(b))
        return d
    def choose(self, tag=''):
        """nondeterministic binary choice (no fact)"""
        i = len(self.trail)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            d = True
            self.forks.append(self.trail[:] + [False])
        self.trail.append(d)
        return d

_sy_memo = {}
def _syms(b):
    r = _sy_memo.get(b)
    if r is None:
        s = set()
        for a in b.free:
            if a.kind in ('idx', 'tmp', 'bv'):
                s.add(a)
                n = var_range(a)
                if n is not None: s |= n.free
            else: s.add(a)
        r = _sy_memo[b] = frozenset(s)
    return r

def subst_all(t, mp):
    """substitution that also rewrites the ranges of index atoms"""
    full = dict(mp)
    todo = [t]
    for a in list(t.free):
        if a.kind in ('idx',):
            n = a.data[0]
            n2 = subst(n, mp)
            if n2 is not n: full[a] = from_atom(idx(n2, a.data[1]))
    return subst(t, full)
def bsubst_all(b, mp):
    full = dict(mp)
    for a in list(b.free):
        if a.kind == 'idx':
            n2 = subst(a.data[0], mp)
            if n2 is not a.data[0]: full[a] = from_atom(idx(n2, a.data[1]))
    return bsubst(b, full)

CTX = [None]
def ctx(): return CTX[0]

def _range_hook(t, n):
    for a in t.free:
        if a.kind in ('idx', 'tmp', 'bv'): return None
    c = CTX[0]
    if c is None: return None
    if c.entails(mk_and(mk_ge(t, T0), mk_gt(n, t)), 300) is True: return t
    return None
TM.RANGE_HOOK[0] = _range_hook
def _in_range(t, n):
    c = CTX[0]
    if c is None: return None
    return c.entails(mk_and(mk_ge(t, T0), mk_gt(n, t)), 500) is True
TM.IN_RANGE_HOOK[0] = _in_range

# ------------------------------------------------------------ proving
def _inds(t, acc, depth=0):
    for m in t.p:
        for a, e in m:
            if a.kind == 'ind': acc.setdefault(a, 0)
            if a.kind == 'ind': acc[a] += 1
            if a.kind in ('ind',):
                continue
            if a.kind in ('exp', 'base', 'abs', 'floor'): _inds(a.data, acc)
            elif a.kind == 'mod': _inds(a.data[0], acc)
            elif a.kind == 'sel':
                for x in a.data[1:]: _inds(x, acc)
            elif a.kind == 'fft': _inds(a.data[2], acc)
            elif a.kind == 'conj': 
                if a.data.kind == 'sel':
                    for x in a.data.data[1:]: _inds(x, acc)
            elif a.kind == 'fn':
                for x in a.data[1:]:
                    if isinstance(x, T): _inds(x, acc)
def _mods(t, acc, kind='mod'):
    def walk(x):
        if isinstance(x, T):
            for m in x.p:
                for a, e in m: walk(a)
        elif isinstance(x, Atom):
            if x.kind == kind:
                walk(x.data[0] if kind == 'mod' else x.data); acc.append(x)
            elif x.kind == 'ind': walk(x.data.args)
            elif x.kind in ('exp', 'base', 'abs', 'floor', 'mod', 'sel', 'fn', 'conj', 'fft'): walk(x.data)
        elif isinstance(x, tuple):
            for y in x: walk(y)
        elif isinstance(x, B): walk(x.args)
    walk(t)

def _atom_subst(t, a, v):
    return subst_atoms(t, {a: v})

def subst_atoms(t, mp):
    """replace composite atoms (e.g. ind/mod) by terms, recursively outside binders"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        out = T0
        for m, c in t.p.items():
            r = const_fr(c)
            for a, e in m:
                x = ga(a)
                r = mul(r, x if e == 1 else power(x, Fraction(e)))
            out = add(out, r)
        memo[t] = out
        return out
    def gb(b):
        if b.op == 'gt': return mk_gt(go(b.args[0]), T0)
        if b.op == 'eq': return mk_eq(go(b.args[0]), T0)
        if b.op == 'not': return mk_not(gb(b.args[0]))
        if b.op == 'and': return mk_and(*[gb(x) for x in b.args])
        return b
    def ga(a):
        if a in mp: return mp[a]
        k = a.kind
        if k == 'exp': return mk_exp(go(a.data))
        if k == 'base': return go(a.data)
        if k == 'abs': return mk_abs(go(a.data))
        if k == 'mod': return mk_mod(go(a.data[0]), go(a.data[1]))
        if k == 'floor': return mk_floor(go(a.data))
        if k == 'ind': return mk_ind(gb(a.data))
        if k == 'conj': return conj(ga(a.data))
        if k == 'sel': return mk_sel(a.data[0], tuple(go(i) for i in a.data[1:]))
        if k == 'fft':
            n, L, i = a.data
            i2 = go(i)
            if i2 is i: return from_atom(a)
            tmp, body = lam_fresh(L)
            return mk_fft(n, tmp[0], body, i2)
        if k == 'fn':
            args = tuple(go(x) if isinstance(x, T) else x for x in a.data[1:])
            return rebuild_fn(a.data[0], args, a.meta)
        return from_atom(a)
    return go(t)

def facts_rw(facts, cx):
    """equalities among facts on plain index/sym -> substitution"""

def prove_zero(t, cx, budget=None, depth=0):
    """prove t == 0 under cx.facts"""
    if budget is None: budget = [400]
    budget[0] -= 1
    if budget[0] < 0: return False
    t = cx.rw(t)
    if not t.p: return True
    try:
        if is_zero(t) or TM.same_roots(t): STATS['nf'] += 1; return True
    except ZeroDivisionError:
        pass
    # dead path?
    if depth and z3_check(cx.facts, None, 1000)[0] == 'unsat': return True
    # linear index equalities k == c known from the path: substitute
    for f in cx.facts:
        if f.op == 'eq':
            e = cx.rw(f.args[0])
            for m, c in e.p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'idx' and m[0][0] in t.free:
                    a = m[0][0]
                    rest = sub(e, mkT({m: c}))
                    if a not in rest.free:
                        v = scale(rest, -1 / c)
                        t2 = subst(t, {a: v})
                        if not t2.p or is_zero(t2): return True
    # neither greater nor smaller: equal
    ng = [f.args[0].args[0] for f in cx.facts if f.op == 'not' and f.args[0].op == 'gt']
    for e in ng:
        if any(x is neg(e) for x in ng):
            for m, c in e.p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'abs':
                    rest = sub(e, mkT({m: c}))
                    t2 = subst_atoms(t, {m[0][0]: scale(rest, -1 / c)})
                    if not t2.p or is_zero(t2): return True
                    break
    inds = {}
    _inds(t, inds)
    if inds:
        a = max(inds, key=lambda x: (inds[x], -x.id))
        STATS['split'] += 1
        r = cx.entails(a.data)
        if r is not None:
            try: u = subst_atoms(t, {a: T1 if r else T0})
            except ZeroDivisionError: return False
            return prove_zero(u, cx, budget, depth)
        for val in (True, False):
            c2 = fork_ctx(cx, a.data if val else mk_not(a.data))
            try: u = subst_atoms(t, {a: T1 if val else T0})
            except ZeroDivisionError:
                # undefined in this case: it must not arise
                if z3_check(c2.facts, None, 2000)[0] == 'unsat': continue
                return False
            if not prove_zero(u, c2, budget, depth + 1): return False
        return True
    fl = []
    _mods(t, fl, 'floor')
    for a in fl:
        if any(b.kind in ('bv', 'tmp') for b in a.free) or not is_real(a.data): continue
        # the integer part is the same in every state of this path?
        fs = cx.facts
        env = Z3Env(); s = z3.Solver(); s.set('timeout', 1000)
        try:
            for f in fs:
                try: s.add(env.b(f))
                except ValueError: pass
            x = env.t(a.data)
        except ValueError: continue
        for f in env.flush(): s.add(f)
        if s.check() != z3.sat: continue
        try:
            val = s.model().eval(x, model_completion=True)
            c = math.floor(float(val.as_fraction()) if z3.is_rational_value(val) else float(val.approx(12).as_fraction()))
        except Exception: continue
        if cx.entails(mk_and(mk_ge(a.data, const(c)), mk_gt(const(c + 1), a.data))) is True:
            STATS['split'] += 1
            return prove_zero(subst_atoms(t, {a: const(c)}), cx, budget, depth)
    mods = []
    _mods(t, mods)
    for a in mods:
        x, n = a.data
        if any(b.kind in ('bv', 'tmp') for b in a.free): continue
        STATS['split'] += 1
        lo = mk_ge(x, T0)
        # locate x within [-n, 2n)
        if cx.entails(mk_and(mk_ge(x, neg(n)), mk_gt(scale(n, Fraction(2)), x))) is True:
            opts = [(mk_and(mk_ge(x, T0), mk_gt(n, x)), x),
                    (mk_ge(x, n), sub(x, n)),
                    (mk_gt(T0, x), add(x, n))]
            ok = True
            for cond, v in opts:
                if cx.entails(cond) is False: continue
                c2 = fork_ctx(cx, cond)
                if not prove_zero(subst_atoms(t, {a: v}), c2, budget, depth + 1): ok = False; break
            return ok
    if merge_sums(t, cx, budget, depth): return True
    try: u = TM.deep_abs(t)
    except Unsupported: u = t
    if u is not t and not (u.p == t.p): return prove_zero(u, cx, budget, depth)
    # abs / sign splitting and arithmetic facts: z3
    if is_real(t):
        try:
            st, _ = z3_check(cx.relevant(mk_eq(t, T0)) if not depth else cx.facts, mk_not(mkB('eq', t)), 4000)
            if st == 'unsat': STATS['z3'] += 1; return True
        except ValueError: pass
    else:
        ok = True
        try:
            for p in (real_part(t), imag_part(t)):
                if not p.p: continue
                st, _ = z3_check(cx.relevant(mk_eq(p, T0)) if not depth else cx.facts, mk_not(mkB('eq', p)), 3000)
                if st != 'unsat': ok = False; break
            if ok: STATS['z3'] += 1; return True
        except (ValueError, Unsupported): pass
    return False

def merge_sums(t, cx, budget, depth):
    """a combination of sums over one range is zero if the combined summand is zero at every index"""
    n = None; parts = []
    for m, c in t.p.items():
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if len(ss) != 1 or ss[0][1] != 1: return False
        a = ss[0][0]
        if n is None: n = a.data[0]
        elif n is not a.data[0]: return False
        parts.append((mkT({tuple(y for y in m if y[0] is not a): c}), a.data[1]))
    if n is None or len(parts) < 2: return False
    if depth > 3: return False
    w = idx(n, 70 + depth); wt = from_atom(w)
    # alignments of the summation indices: the identity, or such that one array is read at the same place by all summands
    al = []
    for coef, L in parts:
        v = fresh_bv(n); b = lam_apply(L, [from_atom(v)]); d = {}
        for arr, i in _reads(b, v):
            o = _lin_mod(i, v, n)
            if o is not None: d.setdefault(arr, []).append(mk_mod(scale(sub(wt, o[1]), Fraction(o[0])), n))
        al.append(d)
    tries = [[wt] * len(parts)]
    for arr in al[0]:
        if all(arr in d for d in al): tries.append([d[arr][0] for d in al])
    c2 = fork_ctx(cx, mk_gt(n, wt))
    for combo in tries[:6]:
        u = T0
        for (coef, L), x in zip(parts, combo): u = add(u, mul(coef, lam_apply(L, [x])))
        if prove_zero(u, c2, [200], depth + 1): return True
    return False

def _reads(t, v):
    """(array, index) for every array element read whose position depends on v"""
    out = []
    def walk(x):
        if isinstance(x, T):
            for m in x.p:
                for a, e in m: walk(a)
        elif isinstance(x, Atom):
            if v not in x.free: return
            if x.kind == 'sel':
                if len(x.data) == 2: out.append((x.data[0], x.data[1]))
            elif x.kind == 'ind': walk(x.data.args)
            else: walk(x.data)
        elif isinstance(x, B): walk(x.args)
        elif isinstance(x, tuple):
            for y in x: walk(y)
    walk(t)
    return out

def _lin_mod(i, v, n):
    """i = sgn*v + c modulo n"""
    c = T0; s = None
    for m, k in i.p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'mod' and m[0][0].data[1] is n and v in m[0][0].free and k in (1, -1):
            l = TM._lin_in(m[0][0].data[0], v)
            if l is None or s is not None: return None
            s = l[0] * int(k); c = add(c, scale(l[1], k))
        elif len(m) == 1 and m[0][0] is v:
            if k not in (1, -1) or m[0][1] != 1 or s is not None: return None
            s = int(k)
        elif any(v in a.free or a is v for a, e in m): return None
        else: c = add(c, mkT({m: k}))
    return None if s is None else (s, c)

def fork_ctx(cx, b):
    c2 = Ctx()
    c2.facts = list(cx.facts); c2.factset = set(cx.factset); c2.rewrites = dict(cx.rewrites); c2.deadline = cx.deadline
    c2.add(b)
    return c2

def prove(b, cx):
    if b is BT: return True
    if b.op == 'and': return all(prove(x, cx) for x in b.args)
    if b in cx.factset: return True
    if b.op == 'eq':
        return prove_zero(b.args[0], cx)
    b2 = cx.brw(b)
    if b2 is BT: return True
    if b2.op == 'not' and b2.args[0].op == 'and':
        pass
    # split on indicators inside ordering atoms
    t = b2.args[0] if b2.op == 'gt' else (b2.args[0].args[0] if b2.op == 'not' and b2.args[0].op in ('gt', 'eq') else None)
    try:
        st, _ = z3_check(cx.relevant(b2), mk_not(b2), 5000)
    except ValueError:
        st = 'unknown'
    if st == 'unsat': STATS['z3'] += 1; return True
    if t is not None:
        u = clear_pos_den(t)
        if u is not None and u is not t:
            b3 = mk_gt(u, T0) if b2.op == 'gt' else None
            if b3 is None and b2.args[0].op == 'gt': b3 = mk_not(mk_gt(u, T0))
            if b3 is not None:
                if b3 is BT: return True
                st, _ = z3_check(cx.relevant(b3), mk_not(b3), 5000)
                if st == 'unsat': STATS['z3'] += 1; return True
    return False

def clear_pos_den(t):
    try:
        mins = {}
        for m in t.p:
            for a, e in m:
                if e < 0 and a.real and a.sign == 'pos' and e < mins.get(a, 0): mins[a] = e
        if not mins: return None
        return mul(t, mkT({tuple(sorted(((a, -e) for a, e in mins.items()), key=lambda x: x[0].id)): ONE}))
    except Unsupported:
        return None
