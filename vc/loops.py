"""Loop rule.

A loop over a concrete, short sequence is unrolled.  Every other loop is verified with an invariant:
 entry:  the invariant holds when the loop is reached,
 body:   from an arbitrary state satisfying it at iteration k, one execution of the loop body re-establishes it at k+1,
 exit:   the code after the loop runs from an arbitrary state satisfying it when the loop ends.
The state is every local variable of the function and everything reachable from them.  What the body does not modify is
unchanged (checked: a component that turns out to be modified restarts the analysis), what it modifies is arbitrary unless a
closed form (overwritten value, accumulated sum, geometric progression, array written at index k) has been inferred from one
iteration - and then verified by the body obligation - or a contract supplies the invariant (`v.loop`)."""
import types, numbers, builtins, copy
from fractions import Fraction
import numpy as rnp
from .terms import *
from . import terms as TM, engine as E
from .symval import *
from .engine import ctx, Stop, prove

class Restart(BaseException):
    """the assumed form of the loop reached with the decisions `at` was wrong: redo the paths through it"""
    def __init__(self, at): self.at = at

class Poison:
    """value of unknown type: any use is outside the verifier's reach"""
    def __init__(self, path): object.__setattr__(self, '_p', path)
    def _bad(self, *a, **k): raise Unsupported('value of %s after/inside a loop is unknown' % object.__getattribute__(self, '_p'))
    def __getattr__(self, k):
        if k.startswith('__') : raise AttributeError(k)
        self._bad()
    for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow neg pos abs call getitem setitem len iter bool lt gt le ge eq ne float int complex index contains iadd isub imul').split():
        locals()['__%s__' % _n] = _bad
    __hash__ = object.__hash__
UNDEF = object()

ATOMIC = (int, float, complex, bool, str, bytes, type(None), SV, SB)

def gbase(a):
    while a.base is not None and isinstance(a.base, rnp.ndarray): a = a.base
    return a

class Comp:
    __slots__ = ('path', 'val', 'set')
    def __init__(self, path, val, set_): self.path = path; self.val = val; self.set = set_

def walk_state(loc, setloc, is_own):
    """ordered dict path -> Comp"""
    out = {}
    seen = set()
    keep = []
    def put(path, v, setter):
        """component for the binding, then what it refers to"""
        if isinstance(v, ATOMIC):
            out[path] = Comp(path, v, setter); return
        out[path] = Comp(path, v, setter)
        keep.append(v)
        if isinstance(v, GA):
            b = v.buf
            if id(b) not in seen:
                seen.add(id(b)); keep.append(b)
                def sb(x, b=b): b.body = x[1]
                out['*' + path] = Comp('*' + path, ('buf', b.body, b), sb)
        elif isinstance(v, LA):
            b = gbase(v.a)
            if id(b) not in seen:
                seen.add(id(b)); keep.append(b)
                def sl(x, b=b): b.reshape(-1)[:] = x[1] if isinstance(x[1], list) else list(x[1])
                flat = b.reshape(-1)
                def sl(x, b=b):
                    for i, j in enumerate(rnp.ndindex(*b.shape)): b[j] = x[1][i]
                out['*' + path] = Comp('*' + path, ('la', tuple(b.flat), b), sl)
        elif isinstance(v, PartView):
            put(path + '.base', v.base_, lambda x: None)
        elif id(v) in seen: return
        elif isinstance(v, list):
            seen.add(id(v))
            out[path + '#len'] = Comp(path + '#len', len(v), None)
            for i, x in enumerate(v): put('%s[%d]' % (path, i), x, (lambda y, v=v, i=i: v.__setitem__(i, y)))
        elif isinstance(v, tuple):
            seen.add(id(v))
            for i, x in enumerate(v): put('%s[%d]' % (path, i), x, None)
        elif isinstance(v, dict):
            seen.add(id(v))
            out[path + '#keys'] = Comp(path + '#keys', tuple(sorted(map(repr, v))), None)
            for k in v: put('%s[%r]' % (path, k), v[k], (lambda y, v=v, k=k: v.__setitem__(k, y)))
        elif is_own(type(v)) and hasattr(v, '__dict__'):
            seen.add(id(v))
            d = v.__dict__
            for k in sorted(d):
                put('%s.%s' % (path, k), d[k], (lambda y, d=d, k=k: d.__setitem__(k, y)))
            for c in type(v).__mro__:
                if is_own(c) and id(c) not in seen:
                    seen.add(id(c))
                    for k in sorted(vars(c)):
                        x = vars(c)[k]
                        if k.startswith('__') or isinstance(x, (types.FunctionType, staticmethod, classmethod, property)): continue
                        put('<%s>.%s' % (c.__name__, k), x, (lambda y, c=c, k=k: setattr(c, k, y)))
    for k in sorted(loc):
        if k.startswith('vc__'): continue
        put(k, loc[k], (lambda y, k=k: setloc({k: y})))
    out['\0keep'] = keep
    return out

def same(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and a[0] in ('buf', 'la') and b and b[0] == a[0]:
        if a[0] == 'buf': return a[1] is b[1]
        return len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
    if isinstance(a, SV) and isinstance(b, SV): return a.t is b.t and a.k == b.k
    if isinstance(a, SB) and isinstance(b, SB): return a.b is b.b
    if isinstance(a, (SV, SB, Arr)) or isinstance(b, (SV, SB, Arr)):
        if isinstance(a, GA) and isinstance(b, GA) and a.buf is b.buf:
            return a.imap == b.imap and a.shapeT == b.shapeT
        if isinstance(a, LA) and isinstance(b, LA): return a.a is b.a
        return False
    if type(a) is type(b) and isinstance(a, (int, float, complex, str, bytes)): return a == b
    if type(a) is type(b) and isinstance(a, types.MethodType): return a.__func__ is b.__func__ and a.__self__ is b.__self__
    return False

def numeric(v): return isinstance(v, (int, float, complex, SV)) and not isinstance(v, bool)

def terms_of(v):
    """list of T for a component value, or None"""
    if numeric(v): return [lift(v)[0]]
    if isinstance(v, (bool, SB)): return [mk_ind(tob(v))]
    if isinstance(v, tuple) and v and v[0] == 'buf': return [v[1]]
    if isinstance(v, tuple) and v and v[0] == 'la': return list(v[1])
    return None

class LoopState:
    """handed to contract-supplied invariants"""
    def __init__(self, mgr, get, set_, k, entry, key, phase):
        self.k = k; self._get = get; self._set = set_; self.entry = entry; self.key = key; self.phase = phase; self.cx = ctx()
    @property
    def vars(self): return self._get()
    def __getitem__(self, n):
        d = self._get()
        if n not in d: raise Unsupported('the loop of %s has no variable %s' % (self.key, n))
        return d[n]
    def __setitem__(self, n, x):
        if n not in self._get(): raise Unsupported('the loop of %s has no variable %s' % (self.key, n))
        self._set({n: x})
    def put(self, n, x): self._set({n: x})
    def fresh(self, name, kind='f', pos=False, nonneg=False):
        return SV(sym('%s~%s%s' % (name, self.key, self.phase), real=kind != 'c', sign='pos' if pos else 'nonneg' if nonneg else 'any', integer=kind == 'i'), kind)
    def fresh_arr(self, name, n, kind='c'):
        a = arrsym('%s~%s%s' % (name, self.key, self.phase), real=kind != 'c')
        return mk_arr((dimT(n),), kind, lambda i: mk_sel(a, i))

class LoopMgr:
    LIMIT = 200
    def __init__(self): self.info = {}; self.occ = {}; self.hooks = {}; self.runner = None
    def attach(self, info): self.info = info
    def enter(self, at):
        """remember the obligations recorded when a loop is first reached"""
        k = ('snap', at)
        if k not in self.info and self.runner is not None: self.info[k] = copy.deepcopy(self.runner.res.obl)
    def is_own(self, c):
        m = getattr(c, '__module__', '') or ''
        return m.startswith('pynlo') or m.startswith('props') or getattr(c, '_vc_ghost', False)
    # ------------------------------------------------------------------ front ends
    def for_(self, it, get, set_, key):
        from .loader import SymRange, SymEnum, SymZip
        hook = self.hooks.get(key.split(':')[0]) or self.hooks.get(key)
        symb = isinstance(it, (SymRange, SymEnum, SymZip, SymList)) or (isinstance(it, GA) and not is_const(it.shapeT[0]))
        if not symb and hook is None and not (isinstance(it, range) and len(it) > self.LIMIT):
            return iter(it)
        n, item = self.seq(it)
        return self.symbolic(n, item, None, get, set_, key, hook)
    def while_(self, cond, get, set_, key):
        hook = self.hooks.get(key.split(':')[0]) or self.hooks.get(key)
        at = tuple(ctx().trail)
        self.enter(at)
        if hook is not None or self.info.get(('sym', key, at)):
            yield from self.symbolic(None, None, cond, get, set_, key, hook); return
        n = 0; forks = 0
        while True:
            t = len(ctx().trail)
            if not cond(): return
            if len(ctx().trail) > t: forks += 1
            if forks > 4 or n > self.LIMIT:
                self.info[('sym', key, at)] = True; raise Restart(at)
            yield n
            n += 1
    def seq(self, it):
        from .loader import SymRange, SymEnum, SymZip
        if isinstance(it, range):
            return const(len(it)), (lambda k: mkv(add(const(it.start), scale(k, Fraction(it.step))), 'i'))
        if isinstance(it, SymRange):
            n = lift(it.count())[0]
            lo = lift(it.lo)[0]; st = it.step
            if not isinstance(st, int): raise Unsupported('symbolic range step')
            return n, (lambda k: mkv(add(lo, scale(k, Fraction(st))), 'i'))
        if isinstance(it, GA) and it.ndim == 1: return it.shapeT[0], (lambda k: mkv(it.elem((k,)), it.kind))
        if isinstance(it, Arr): return it.shapeT[0], (lambda k: it[mkv(k, 'i')])
        if isinstance(it, SymEnum):
            n, f = self.seq(it.x); s = lift(it.start)[0]
            return n, (lambda k: (mkv(add(s, k), 'i'), f(k)))
        if isinstance(it, SymZip):
            fs = [self.seq(x) for x in it.xs]
            n = fs[0][0]
            for m, _ in fs[1:]:
                if not prove(mk_eq(m, n), ctx()): raise Unsupported('zip of different lengths')
            return n, (lambda k: tuple(f(k) for _, f in fs))
        if isinstance(it, SymList):
            return it.n, (lambda k: it.f(k))
        if isinstance(it, (list, tuple)):
            raise Unsupported('contract invariant on a loop over a list')
        raise Unsupported('symbolic iteration over %s' % type(it).__name__)
    # ------------------------------------------------------------------ the rule
    def symbolic(self, n, item, cond, get, set_, key, hook):
        cx = ctx()
        occ = self.occ[key] = self.occ.get(key, 0) + 1
        ik = '%s.%d' % (key, occ)
        at0 = tuple(cx.trail)
        self.enter(at0)
        info = self.info.setdefault((ik, at0), {'mod': {}, 'peel': False})
        mod = info['mod']
        lo = T0
        if cond is None:
            if not cx.decide(mk_gt(n, T0)): return
            if info['peel']:
                yield item(T0)
                lo = T1
                if not cx.decide(mk_gt(n, T1)): return
        elif info['peel']:
            if not cond(): return
            yield 0
            lo = T1
        S0 = walk_state(get(), set_, self.is_own)
        if info.get('mat'):                      # attributes the body gives to an object whose class holds a default: start from the default
            for par, nm in info['mat']:
                o = S0[par].val
                if nm not in o.__dict__: o.__dict__[nm] = getattr(o, nm)
            S0 = walk_state(get(), set_, self.is_own)
        if hook is not None:
            hook['check'](LoopState(self, get, set_, mkv(lo, 'i'), get(), ik, 'e'), 'entry')
        body = cx.choose('loop ' + ik)
        ph = 'b' if body else 'x'
        k = sym('k~%s%s' % (ik, ph), sign='nonneg', integer=True)
        if cond is None:
            if body:
                if lo.p: cx.add(mk_ge(k, lo))
                cx.add(mk_gt(n, k))
            else: k = n
        elif lo.p: cx.add(mk_ge(k, lo))
        # ---- put every modified component into its arbitrary / closed-form state at k
        havoc = {}
        at = {}
        for p, m in mod.items():
            if p not in S0:
                if m['t'] == 'over' and not body:
                    v = self.tmpl(m, None, sub(k, T1)); 
                    if v is not None: set_({p: v}); continue
                if not body and not p.startswith('*') and '.' not in p and '[' not in p: set_({p: Poison(p)})
                continue
            c = S0[p]
            v = self.value(p, c, m, k, ik, ph, havoc, body)
            if c.set is None: raise Unsupported('loop modifies %s' % p)
            c.set(v); at[p] = v
        managed = set()
        if hook is not None:
            before = walk_state(get(), set_, self.is_own)
            hook['setup'](LoopState(self, get, set_, mkv(k, 'i'), get(), ik, ph))
            after = walk_state(get(), set_, self.is_own)
            for p in after:
                if p == '\0keep': continue
                if p not in before or not same(before[p].val, after[p].val): managed.add(p)
        if not body:
            if cond is not None and cond(): raise Stop()
            if any(m['t'] != 'havoc' for m in mod.values()):
                rep = self.info.setdefault('report', [])
                for p, m in mod.items():
                    s = '%s: %s %s' % (ik, p, m['t'])
                    if s not in rep: rep.append(s)
            return
        if cond is not None:
            if not cond(): raise Stop()
            yield 0
        else:
            yield item(k)
        # ---- end of one iteration: the invariant at k+1
        S1 = walk_state(get(), set_, self.is_own)
        byid = {}
        for p, c in S0.items():
            if p != '\0keep' and isinstance(c.val, tuple) and c.val and c.val[0] in ('buf', 'la'): byid[id(c.val[2])] = p
        new = {}
        for p, c in S1.items():
            if p == '\0keep': continue
            q = byid.get(id(c.val[2])) if isinstance(c.val, tuple) and c.val and c.val[0] in ('buf', 'la') else p
            new[q if q is not None else p] = c
        changed = False
        for p, c in S0.items():
            if p == '\0keep' or p in managed: continue
            c1 = new.get(p)
            base = at.get(p, c.val)
            if c1 is None:
                if p.startswith('*') and isinstance(c.val, tuple) and c.val[0] == 'buf':
                    b = c.val[2]
                    v1 = ('buf', b.body, b)
                elif p.startswith('*') and isinstance(c.val, tuple) and c.val[0] == 'la':
                    v1 = ('la', tuple(c.val[2].flat), c.val[2])
                else:
                    # no longer reachable: only its owner matters
                    continue
            else: v1 = c1.val
            m = mod.get(p)
            if m is None:
                if same(base, v1) or self.equal(base, v1): continue
                if p.endswith('#len') or p.endswith('#keys'): raise Unsupported('loop %s changes %s' % (ik, p))
                if c.val is None or (numeric(v1) and not numeric(c.val)) or (isinstance(v1, Arr) and not isinstance(c.val, Arr)):
                    if not info['peel']: info['peel'] = True; mod.clear(); raise Restart(at0)
                mod[p] = {'t': 'havoc', 'tried': set(), 'kind': self.kind_of(c.val, v1)}
                changed = True
                continue
            if m['t'] == 'havoc':
                kk = self.kind_of(base, v1)
                if m['kind'] is not None and kk != m['kind']:
                    m['kind'] = kk; changed = True; continue
                if m['kind'] is None: continue
                t = self.infer(p, base, v1, k, havoc, m, lo, c.val)
                if t: mod[p] = t; changed = True
                continue
            if not self.verify(m, base, v1, k):
                mod[p] = {'t': 'havoc', 'tried': m['tried'] | {m['t']}, 'kind': m['kind']}
                changed = True
        for p, c in new.items():
            if p in S0 or p in managed: continue
            if p.startswith('*') : continue
            if '.' in p or '[' in p or '#' in p:
                root = p.replace('[', '.').split('.')[0]
                if root in S0 and not (root in mod): 
                    if p not in mod and ('.' in p):      # new attribute on an existing object
                        par = p.rsplit('.', 1)[0]
                        if par in S0:
                            o = S0[par].val; nm = p.rsplit('.', 1)[1]; d = next((vars(b)[nm] for b in type(o).__mro__ if nm in vars(b)), None) if hasattr(o, '__dict__') else None
                            if isinstance(d, (int, float)):
                                info.setdefault('mat', []).append((par, nm)); mod.clear(); raise Restart(at0)
                            if not info['peel']: info['peel'] = True; mod.clear(); raise Restart(at0)
                continue
            m = mod.get(p)
            if m is None:
                m = {'t': 'temp', 'tried': set(), 'kind': None}
                if isinstance(c.val, SV) or (numeric(c.val) and not isinstance(c.val, bool)):
                    t = lift(c.val)[0]
                    if not self.uses(t, havoc): m = {'t': 'over', 'tried': set(), 'kind': lift(c.val)[1], 'g': [t], 'k': k, 'scalar': True}
                mod[p] = m; changed = True
            elif m['t'] == 'over':
                ok = numeric(c.val)
                if ok:
                    g = self.inst(m, k)[0]
                    ok = lift(c.val)[1] == m['kind'] and self.zero(sub(lift(c.val)[0], g))
                if not ok: mod[p] = {'t': 'temp', 'tried': set(), 'kind': None}; changed = True
        if changed: raise Restart(at0)
        if hook is not None:
            hook['check'](LoopState(self, get, set_, mkv(add(k, T1), 'i'), get(), ik, 'c'), 'preserved')
        raise Stop()
    # ------------------------------------------------------------------ pieces
    def kind_of(self, a, b):
        if numeric(a) and numeric(b): return kmax(lift(a)[1], lift(b)[1])
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)): return 'b'
        if isinstance(a, tuple) and a and a[0] == 'buf': return a[2].kind
        if isinstance(a, tuple) and a and a[0] == 'la': return 'c' if any(not is_real(t) for t in list(a[1]) + list(b[1])) else 'f'
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shapeT == b.shapeT: return 'A' + kmax(a.kind, b.kind)
        return None
    def fresh_value(self, p, c, kind, tag):
        v = c.val
        nm = '%s~%s' % (p, tag)
        if kind is None: return Poison(p)
        if kind == 'b': return SB(mk_not(mk_eq(sym(nm, sign='nonneg', integer=True), T0)))
        if isinstance(v, tuple) and v[0] == 'buf':
            b = v[2]
            a = arrsym(nm, real=kind != 'c', integer=kind == 'i')
            return ('buf', mk_sel(a, [from_atom(x) for x in b.ix()]), b)
        if isinstance(v, tuple) and v[0] == 'la':
            a = arrsym(nm, real=kind != 'c', integer=kind == 'i')
            return ('la', tuple(mk_sel(a, [const(i)]) for i in range(len(v[1]))), v[2])
        if kind[0] == 'A':
            a = arrsym(nm, real=kind[1] != 'c', integer=kind[1] == 'i')
            return mk_arr(v.shapeT, kind[1], lambda i: mk_sel(a, i))
        return SV(sym(nm, real=kind != 'c', integer=kind == 'i'), kind)
    def value(self, p, c, m, k, ik, ph, havoc, body):
        if m['t'] == 'havoc' or m['t'] == 'temp':
            v = self.fresh_value(p, c, m['kind'], ik + ph)
            ts = terms_of(v)
            if ts is None and isinstance(v, Arr):
                ts = [v.elem(tuple(from_atom(idx(n, d)) for d, n in enumerate(v.shapeT)))]
            if ts:
                for t in ts: havoc_add(havoc, t)
            return v
        return self.closed(m, c, k)
    def closed(self, m, c, k):
        v = c.val
        S = terms_of(v)
        out = []
        g = None
        if m['t'] == 'over':
            g = self.inst(m, sub(k, T1))
            first = m.get('lo', T0)
            for s, x in zip(S, g): out.append(x if ctx().entails(mk_gt(k, first)) else mk_ite(mk_gt(k, first), x, s))
        elif m['t'] == 'acc':
            lo = m.get('lo', T0)
            for s, d in zip(S, m['g']):
                w = fresh_bv(sub(k, lo))
                out.append(add(s, mk_sum(sub(k, lo), w, subst(d, {atom_of(m['k']): add(lo, from_atom(w))}))))
        elif m['t'] == 'map':
            b = v[2]; ax = m['ax']
            j = from_atom(idx(b.shape[ax], ax))
            g = subst(m['g'][0], {atom_of(m['k']): j})
            lo = m.get('lo', T0)
            out.append(mk_ite(mk_and(mk_ge(j, lo), mk_gt(k, j)) if lo.p else mk_gt(k, j), g, S[0]))
        return self.pack(v, out, m['kind'])
    def pack(self, v, ts, kind):
        if isinstance(v, tuple) and v and v[0] == 'buf': return ('buf', ts[0], v[2])
        if isinstance(v, tuple) and v and v[0] == 'la': return ('la', tuple(ts), v[2])
        return mkv(ts[0], kind)
    def inst(self, m, k): return [subst(g, {atom_of(m['k']): k}) for g in m['g']]
    def tmpl(self, m, c, k):
        try: return mkv(self.inst(m, k)[0], m['kind'])
        except Unsupported: return None
    def uses(self, t, havoc): return any(id(a) in havoc for a in t.free)
    def zero(self, t):
        if not t.p: return True
        try: return E.prove_zero(t, ctx())
        except E.BudgetExceeded: return False
    def equal(self, a, b):
        x, y = terms_of(a), terms_of(b)
        if x is None or y is None or len(x) != len(y): return False
        if numeric(a) and lift(a)[1] != lift(b)[1]: return False
        return all(self.zero(sub(p, q)) for p, q in zip(x, y))
    def infer(self, p, base, v1, k, havoc, m, lo, entry):
        X, Y = terms_of(base), terms_of(v1)
        if X is None or Y is None or len(X) != len(Y): return None
        mk = lambda t, g, **kw: dict(t=t, tried=m['tried'], kind=m['kind'], g=g, k=k, lo=lo, **kw)
        if 'over' not in m['tried'] and not any(self.uses(y, havoc) for y in Y): return mk('over', Y)
        if 'acc' not in m['tried']:
            D = [sub(y, x) for x, y in zip(X, Y)]
            if not any(self.uses(d, havoc) for d in D): return mk('acc', D)
        if 'map' not in m['tried'] and isinstance(base, tuple) and base[0] == 'buf':
            b = base[2]
            for ax in range(len(b.shape)):
                ia = idx(b.shape[ax], ax)
                j = from_atom(ia)
                # one iteration writes exactly the entries with index k on this axis
                g = subst(Y[0], {ia: ctx().rw(k)})
                g0 = g
                if self.uses(g, havoc): g = self.from_entry(g, X[0], entry[1], b)
                if self.uses(g, havoc) or ia in g.free: continue
                if self.zero(sub(Y[0], mk_ite(mk_eq(j, k), g0, X[0]))): return mk('map', [g], ax=ax)
        return None
    def from_entry(self, g, X, S, b):
        """an entry updated in place: what the iteration reads of the array itself is still the value at entry"""
        (mono, c), = X.p.items()
        leaf = mono[0][0].data[0]
        return subst(g, {arr_leaf(leaf): lambda ix: subst(S, {idx(n, d): x for d, (n, x) in enumerate(zip(b.shape, ix))})})
    def verify(self, m, base, v1, k):
        X, Y = terms_of(base), terms_of(v1)
        if X is None or Y is None or len(X) != len(Y): return False
        g = self.inst(m, k)
        if m['t'] == 'over': return all(self.zero(sub(y, a)) for y, a in zip(Y, g))
        if m['t'] == 'acc': return all(self.zero(sub(y, add(x, a))) for x, y, a in zip(X, Y, g))
        if m['t'] == 'map':
            b = base[2]; j = from_atom(idx(b.shape[m['ax']], m['ax']))
            return self.zero(sub(Y[0], mk_ite(mk_eq(j, k), g[0], X[0])))
        return False

def atom_of(t):
    (m, c), = t.p.items()
    return m[0][0]
def havoc_add(havoc, t):
    for a in t.free:
        if a.kind in ('sym', 'arrleaf'): havoc[id(a)] = a
