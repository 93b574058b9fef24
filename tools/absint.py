"""Abstract interpreter for the image functions: symbolic polynomials, trace partitioning, closed-form loops.

It walks the LLVM IR of a function (callees inlined) over an abstract state: integers are polynomials over symbols,
pointers are (object, byte offset polynomial), path conditions are polynomial inequalities, loops are summarised by
closed forms init + k*step with a trip count obtained from the exit test.  Every load and store yields the obligation
'0 <= offset and offset + size <= size of the object', discharged by poly.Prover (a polyhedral entailment test)."""
import sys
import ir
import numpy as np
from poly import Poly, ZERO, ONE, Symbols, Prover, LARGE
sys.setrecursionlimit(20000)

EMPTY = frozenset()

class Undecided(Exception):
    """The analysis cannot represent something; the function is reported as not decided."""
class Fork(Exception):
    def __init__(self, alts, sure=False): self.alts = alts; self.sure = sure   # list of lists of (kind, poly): facts to assume

class Unswitch(Exception):
    """a case split inside a loop whose condition does not change in the loop: the loop is analysed once per case"""
    def __init__(self, level, alts, sure=False): self.level = level; self.alts = alts; self.sure = sure
class Throws(Exception):
    """raised by a contract: the modelled function certainly throws"""

class Int:
    __slots__ = ('p', 'w', 'taint')
    def __init__(self, p, w, taint=EMPTY): self.p = p; self.w = w; self.taint = taint
    def __eq__(self, o): return isinstance(o, Int) and self.p == o.p and self.w == o.w
    def __hash__(self): return hash((self.p, self.w))
    def __repr__(self): return 'Int(%s)' % (self.p.t,)
class Ptr:
    __slots__ = ('o', 'p')
    def __init__(self, o, p): self.o = o; self.p = p      # o None: null
    def __eq__(self, o): return isinstance(o, Ptr) and self.o == o.o and self.p == o.p
    def __hash__(self): return hash((self.o, self.p))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.p.t)
class Fn:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Fn) and self.n == o.n
    def __hash__(self): return hash(self.n)
class Unk:
    """unknown pointer / opaque scalar (floating point, aggregates)"""
    def __init__(self, taint=EMPTY, kind='x', why=''): self.taint = taint; self.kind = kind; self.why = why
    def __eq__(self, o): return isinstance(o, Unk) and self.taint == o.taint and self.kind == o.kind
    def __hash__(self): return hash((self.taint, self.kind))
class Vec:
    """byte lanes: each (taint, const or None)"""
    __slots__ = ('l',)
    def __init__(self, l): self.l = tuple(l)
    def __eq__(self, o): return isinstance(o, Vec) and self.l == o.l
    def __hash__(self): return hash(self.l)
class Cat:
    """several values packed in one register: list of (offset, size, value)"""
    def __init__(self, parts): self.parts = tuple(parts)
    def __eq__(self, o): return isinstance(o, Cat) and self.parts == o.parts
    def __hash__(self): return hash(self.parts)
class Agg:
    def __init__(self, v): self.v = tuple(v)
    def __eq__(self, o): return isinstance(o, Agg) and self.v == o.v
    def __hash__(self): return hash(self.v)
class Cond:
    """i1: ('cmp', pred, a, b) | ('not', c) | ('and', c, d) | ('or', c, d) | ('data', taint)"""
    def __init__(self, k, *a): self.k = k; self.a = a
    def __eq__(self, o): return isinstance(o, Cond) and self.k == o.k and self.a == o.a
    def __hash__(self): return hash((self.k, self.a))
class JoinPtr:
    """one of several pointers (chosen by data)"""
    def __init__(self, ps, taint): self.ps = tuple(ps); self.taint = taint
    def __eq__(self, o): return isinstance(o, JoinPtr) and self.ps == o.ps
    def __hash__(self): return hash(self.ps)

INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

class Obj:
    __slots__ = ('id', 'kind', 'label', 'esize', 'meta', 'depth')
    def __init__(self, id, kind, label, esize=1, meta=None): self.id = id; self.kind = kind; self.label = label; self.esize = esize; self.meta = meta

class State:
    __slots__ = ('env', 'mem', 'size', 'facts', 'ne', 'sub', 'log', 'bulk', 'reads')
    def __init__(self):
        self.env = {}; self.mem = {}; self.size = {}; self.facts = (); self.ne = (); self.sub = {}; self.log = (); self.bulk = {}; self.reads = {}
    def copy(self):
        s = State(); s.env = dict(self.env); s.mem = dict(self.mem); s.size = dict(self.size); s.facts = self.facts; s.ne = self.ne
        s.sub = self.sub; s.log = self.log; s.bulk = dict(self.bulk); s.reads = self.reads
        return s

class Event:
    __slots__ = ('rw', 'o', 'off', 'n', 'loops', 'val', 'loc', 'cond')
    def __init__(self, rw, o, off, n, loops, val, loc): self.rw = rw; self.o = o; self.off = off; self.n = n; self.loops = loops; self.val = val; self.loc = loc
    def key(self): return (self.rw, self.o, self.off, self.n, self.loops)
    def with_loops(self, loops): return Event(self.rw, self.o, self.off, self.n, loops, self.val, self.loc)

class Outcome:
    __slots__ = ('kind', 'st', 'pred', 'blk', 'val')
    def __init__(self, kind, st, pred=None, blk=None, val=None): self.kind = kind; self.st = st; self.pred = pred; self.blk = blk; self.val = val

class Region:
    __slots__ = ('loop', 'stop', 'forced', 'rec', 'first')
    def __init__(self, loop=None, stop=None, forced=None, rec=None): self.loop = loop; self.stop = stop; self.forced = forced or {}; self.rec = rec

class Frame:
    __slots__ = ('fn', 'cfg', 'args', 'objs', 'caller')
    def __init__(self, fn, args, caller): self.fn = fn; self.cfg = fn.cfg(); self.args = args; self.objs = []; self.caller = caller

def taint_of(v, S):
    if isinstance(v, Int):
        t = v.taint
        for s in v.p.syms():
            if S[s].taint: t = t | S[s].taint
        return t
    if isinstance(v, Unk): return v.taint
    if isinstance(v, Vec):
        t = EMPTY
        for l in v.l: t = t | l[0]
        return t
    if isinstance(v, Ptr):
        t = EMPTY
        for s in v.p.syms(): t = t | S[s].taint
        return t
    if isinstance(v, Cat):
        t = EMPTY
        for _, _, x in v.parts: t = t | taint_of(x, S)
        return t
    if isinstance(v, Agg):
        t = EMPTY
        for x in v.v: t = t | taint_of(x, S)
        return t
    if isinstance(v, Cond):
        if v.k == 'data': return v.a[0]
        t = EMPTY
        for x in v.a:
            if not isinstance(x, str): t = t | taint_of(x, S)
        return t
    if isinstance(v, JoinPtr):
        t = v.taint
        for x in v.ps: t = t | taint_of(x, S)
        return t
    return EMPTY

class Machine:
    MAXSTATES = 4000
    def __init__(self, mods):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.S = Symbols(); self.P = Prover(self.S)
        self.objs = []; self.obl = {}; self.check = True; self.loops = ()
        self.contracts = []; self.callhooks = []; self.unroll = False; self.addr = {}; self.wrapsyms = frozenset()
        self.gobj = {}; self.divcache = {}
        self.unwind = False      # exceptional paths run their clean-up code
        self.steps = 0; self.maxsteps = 400000
        self.dry = 0; self.optimistic = 0; self.lossy = 0; self.canonk = []
        self.unknown_calls = set(); self.callstack = []; self.loopstack = []
        self.funcs = {}
        for m in self.mods:
            for n, f in m.functions.items():
                if n not in self.funcs or (self.funcs[n].decl and not f.decl): self.funcs[n] = f
        self.onaccess = None
        self.accesses = 0
        self.throws = []
    # ---- symbols, objects
    def sym(self, name, lo=None, hi=None, taint=EMPTY, data=False, gen=None): return Poly.sym(self.S.new(name, lo, hi, taint, data, gen))
    def newobj(self, st, kind, label, size, esize=1, meta=None):
        o = Obj(len(self.objs), kind, label, esize, meta); self.objs.append(o)
        st.size[o.id] = size
        if kind == 'cells': st.mem[o.id] = {}
        else: st.bulk[o.id] = EMPTY
        return o
    def is_data(self, v):
        if isinstance(v, Int): return bool(v.taint) or any(self.S[s].data for s in v.p.syms())
        if isinstance(v, Ptr): return any(self.S[s].data for s in v.p.syms())
        if isinstance(v, Cond):
            if v.k == 'data': return True
            return any(self.is_data(x) for x in v.a if not isinstance(x, str))
        if isinstance(v, (Unk, Vec, JoinPtr)): return True
        return False
    # ---- facts
    def norm(self, st, p): return p.subst(st.sub) if st.sub else p
    def prove(self, st, p):
        p = self.norm(st, p)
        c = p.cval()
        if c is not None: return c >= 0
        return self.P.prove(st.facts, p)
    def feasible(self, st): return not self.P.infeasible(st.facts)
    def add(self, st, p):
        """assume p >= 0; False if trivially contradictory"""
        p = self.norm(st, p)
        c = p.cval()
        if c is not None: return c >= 0
        if p in st.facts: return True
        lo, _ = self.P.interval(p)
        if lo is not None and lo >= 0: return True
        if len(p.t) <= 2 and p.degree() == 1:
            m, a = [x for x in p.t.items() if x[0]][0]; x = self.S[m[0]]
            if len(p.t) == 1 + (() in p.t):
                if a > 0:
                    lo = -(p.c0() // a)
                    if x.lo is not None and x.lo >= lo: return True
                    if x.hi is not None and lo > x.hi: return False
                    if x.hi is not None and lo == x.hi: return self._subst(st, m[0], Poly.const(lo))
                else:
                    hi = p.c0() // -a
                    if x.hi is not None and x.hi <= hi: return True
                    if x.lo is not None and hi < x.lo: return False
                    if x.lo is not None and hi == x.lo: return self._subst(st, m[0], Poly.const(hi))
        if -p in st.facts: return self.add_eq(st, p)
        st.facts = st.facts + (p,)
        return True
    def add_eq(self, st, p):
        p = self.norm(st, p)
        c = p.cval()
        if c is not None: return c == 0
        # substitution when it isolates a symbol as constant or other symbol
        if p.degree() == 1:
            items = [(m, c) for m, c in p.t.items() if m]
            if len(items) == 1 and p.c0() % items[0][1] == 0:
                v = -p.c0() // items[0][1]; s = items[0][0][0]
                x = self.S[s]
                if (x.lo is not None and v < x.lo) or (x.hi is not None and v > x.hi): return False
                return self._subst(st, s, Poly.const(v))
            if len(items) == 1 and p.c0() % items[0][1]: return False
            if len(items) == 2 and p.c0() == 0 and sorted(c for _, c in items) == [-1, 1]:
                a, b = items[0][0][0], items[1][0][0]
                if a < b: a, b = b, a
                sa, sb = self.S[a], self.S[b]
                if sa.lo is not None and (sb.lo is None or sb.lo < sa.lo): self.add(st, Poly.sym(b) - sa.lo)
                if sa.hi is not None and (sb.hi is None or sb.hi > sa.hi): self.add(st, Poly({(b,): -1, (): sa.hi}))
                return self._subst(st, a, Poly.sym(b))
        if len(p.t) == 1:      # a product of positive numbers is not zero
            mo = next(iter(p.t))
            if all(self.prove(st, Poly.sym(x) - 1) for x in set(mo)): return False
        # a symbol that occurs alone with coefficient +-1 is replaced by the rest (highest symbol first; counters stay)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1 and self.S[m[0]].name not in ('k', 'n') and not any(m[0] in o for o in p.t if o != m):
                if best is None or self.S[best].data < self.S[m[0]].data or (self.S[best].data == self.S[m[0]].data and m[0] > best): best = m[0]
        if best is not None:
            c = p.t[(best,)]; rest = Poly({m: v for m, v in p.t.items() if m != (best,)}) * (-c)
            x = self.S[best]
            lo, hi = self.P.interval(rest)
            if x.lo is not None and (lo is None or lo < x.lo) and not self.add(st, rest - x.lo): return False
            if x.hi is not None and (hi is None or hi > x.hi) and not self.add(st, Poly.const(x.hi) - rest): return False
            rest = self.norm(st, rest)
            if best in rest.syms(): return True
            return self._subst(st, best, rest)
        for q in (p, -p):
            if q not in st.facts: st.facts = st.facts + (q,)
        return True
    def _subst(self, st, s, p):
        mp = {s: p}
        sub = {k: v.subst(mp) for k, v in st.sub.items()}; sub[s] = p
        st.sub = sub
        nf = []
        for f in st.facts:
            g = f.subst(mp)
            c = g.cval()
            if c is not None:
                if c < 0: return False
                continue
            nf.append(g)
        st.facts = tuple(dict.fromkeys(nf))
        for q in st.ne:
            c = q.subst(mp).cval()
            if c == 0: return False
        st.ne = tuple(q.subst(mp) for q in st.ne)
        return True
    def add_ne(self, st, p):
        p = self.norm(st, p)
        c = p.cval()
        if c is not None: return c != 0
        if self.prove(st, p): return self.add(st, p - 1)
        if self.prove(st, -p): return self.add(st, -p - 1)
        st.ne = st.ne + (p,)
        return True
    def assume(self, st, kind, p):
        if kind == 'ge': return self.add(st, p)
        if kind == 'eq': return self.add_eq(st, p)
        return self.add_ne(st, p)
    # ---- integer interpretation
    def rng(self, w, signed): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    def interp(self, st, v, signed):
        """the mathematical value of an Int under the (un)signed reading, as a polynomial in range"""
        if isinstance(v, Cond):
            v = self.cond_int(st, v, 1)
        if not isinstance(v, Int): raise Undecided('integer expected, got %s' % type(v).__name__)
        p = self.norm(st, v.p); lo, hi = self.rng(v.w, signed)
        c = p.cval()
        if c is not None:
            c &= (1 << v.w) - 1
            if signed and c > hi: c -= 1 << v.w
            return Poly.const(c)
        a, b = self.P.interval(p)
        if a is not None and a >= lo and b is not None and b <= hi: return p
        if v.w >= 64 and not (self.wrapsyms and set(p.syms()) <= self.wrapsyms):
            return p      # 64-bit address arithmetic is assumed not to wrap
        m = 1 << v.w
        data = self.is_data(v)
        if data:
            if a is not None and b is not None:
                for sh in (m, -m):
                    if a + sh >= lo and b + sh <= hi: return p + sh
            # values read from memory that the path has compared with something
            ds = [x for x in p.syms() if self.S[x].data]
            if len(p.t) <= 6 and ds and not self.dry and all((self.S[x].hi or LARGE) < LARGE or any(x in f.syms() for f in st.facts) for x in ds):
                if (a is not None and a >= lo or self.prove(st, p - lo)) and self.prove(st, Poly.const(hi) - p): return p
            return self.sym('wrap', lo, hi, taint_of(v, self.S), True)
        if self.optimistic: return p
        inl = self.prove(st, p - lo); inh = self.prove(st, Poly.const(hi) - p)
        if inl and inh: return p
        if self.prove(st, p - m - lo) and self.prove(st, Poly.const(hi + m) - p): return p - m
        if self.prove(st, p + m - lo) and self.prove(st, Poly.const(hi - m) - p): return p + m
        k = (p.c0() + (m >> 1)) // m
        if abs(k) > 1:
            for j in (k, k - 1, k + 1):
                if self.prove(st, p - j * m - lo) and self.prove(st, Poly.const(hi + j * m) - p): return p - j * m
        alts = []
        big = self.prove(st, p - hi - 1)
        small = self.prove(st, Poly.const(lo - 1) - p)
        if big or small:   # certainly wraps, by an unknown multiple
            memo = self.__dict__.setdefault('wraps', {}); x = memo.get((p, lo, hi))
            if x is None:
                x = self.sym('wrapped', lo, hi, taint_of(v, self.S), False, gen=lambda s: s.exact(p, lo, m))
                self.S[x.t and next(iter(x.t))[0]].dep = set(p.syms()); memo[(p, lo, hi)] = x
            return x
        alts.append([('ge', p - lo), ('ge', Poly.const(hi) - p)])
        if not inh: alts.append([('ge', p - hi - 1)])
        if not inl: alts.append([('ge', Poly.const(lo - 1) - p)])
        raise Fork(alts, True)
    def U(self, st, v): return self.interp(st, v, False)
    def Sg(self, st, v): return self.interp(st, v, True)
    def cond_int(self, st, c, w):
        d = self.decide(st, c)
        if d is not None: return Int(ONE if d else ZERO, w)
        if self.is_data(c): return Int(self.sym('b', 0, 1, taint_of(c, self.S), True), w)
        raise Fork([[('cond', c, True)], [('cond', c, False)]])
    # ---- conditions
    def abs_addr(self, a, b):
        """pointers into different objects whose addresses are modelled, as numbers"""
        x, y = [v.parts[0][2] if isinstance(v, Cat) and len(v.parts) == 1 else v for v in (a, b)]
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o != y.o and x.o in self.addr and y.o in self.addr:
            return Int(self.addr[x.o] + x.p, 64), Int(self.addr[y.o] + y.p, 64)
        return a, b
    def num_addr(self, v):
        x = v.parts[0][2] if isinstance(v, Cat) and len(v.parts) == 1 else None
        return Int(self.addr[x.o] + x.p, 64) if isinstance(x, Ptr) and x.o in self.addr else v
    def cmp_poly(self, st, c):
        """polynomials (a, b) compared by c in the reading of its predicate, or None"""
        pred, a, b = c.a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Int) and a.p.cval() == 0: a = Ptr(None, ZERO)
            if isinstance(b, Int) and b.p.cval() == 0: b = Ptr(None, ZERO)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o: return self.norm(st, a.p), self.norm(st, b.p)
                return None
            return None
        if isinstance(a, Cond): a = self.cond_int(st, a, 1)
        if isinstance(b, Cond): b = self.cond_int(st, b, 1)
        if not (isinstance(a, Int) and isinstance(b, Int)): return None
        sg = pred[0] == 's'
        if pred in ('eq', 'ne'):
            # equality modulo 2^w: prefer whichever reading is provable
            for s in (False, True):
                try:
                    return self.interp(st, a, s), self.interp(st, b, s)
                except Fork as f:
                    err = f
            raise err
        return self.interp(st, a, sg), self.interp(st, b, sg)
    def as_cond(self, c):
        if isinstance(c, Cond): return c
        if isinstance(c, Int): return Cond('cmp', 'ne', c, Int(ZERO, c.w))
        return Cond('data', taint_of(c, self.S))
    def decide(self, st, c):
        if c is True or c is False: return c
        c = self.as_cond(c)
        if c.k == 'not':
            d = self.decide(st, c.a[0]); return None if d is None else not d
        if c.k == 'and':
            a = self.decide(st, c.a[0]); b = self.decide(st, c.a[1])
            if a is False or b is False: return False
            return True if a and b else None
        if c.k == 'or':
            a = self.decide(st, c.a[0]); b = self.decide(st, c.a[1])
            if a or b: return True
            return False if a is False and b is False else None
        if c.k == 'data': return None
        pred, a, b = c.a
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): r = a == b
            elif (isinstance(a, Ptr) and a.o is None) or (isinstance(b, Ptr) and b.o is None): r = False
            else: return None
            return r if pred == 'eq' else (not r if pred == 'ne' else None)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o != b.o:
            return {'eq': False, 'ne': True}.get(pred)
        if self.is_data(c):
            # only interval reasoning for data comparisons
            try: ab = self.cmp_poly(st, c)
            except Fork: return None
            if ab is None: return None
            lo, hi = self.P.interval(ab[0] - ab[1])
            return self._dec(pred, lo, hi)
        ab = self.cmp_poly(st, c)
        if ab is None: return None
        d = ab[0] - ab[1]
        cv = d.cval()
        if cv is not None: return self._dec(pred, cv, cv)
        q = pred[-2:] if pred not in ('eq', 'ne') else pred
        pr = lambda p: self.prove(st, p)
        if q == 'lt':
            if pr(-d - 1): return True
            if pr(d): return False
        elif q == 'le':
            if pr(-d): return True
            if pr(d - 1): return False
        elif q == 'gt':
            if pr(d - 1): return True
            if pr(-d): return False
        elif q == 'ge':
            if pr(d): return True
            if pr(-d - 1): return False
        else:
            if pr(d - 1) or pr(-d - 1): return q == 'ne'
            if pr(d) and pr(-d): return q == 'eq'
            dn = self.norm(st, d)
            if dn in st.ne or -dn in st.ne: return q == 'ne'
        return None
    def _dec(self, pred, lo, hi):
        q = pred[-2:] if pred not in ('eq', 'ne') else pred
        if q == 'lt': return True if hi is not None and hi < 0 else (False if lo is not None and lo >= 0 else None)
        if q == 'le': return True if hi is not None and hi <= 0 else (False if lo is not None and lo > 0 else None)
        if q == 'gt': return True if lo is not None and lo > 0 else (False if hi is not None and hi <= 0 else None)
        if q == 'ge': return True if lo is not None and lo >= 0 else (False if hi is not None and hi < 0 else None)
        ne = (lo is not None and lo > 0) or (hi is not None and hi < 0)
        if ne: return q == 'ne'
        if lo == 0 and hi == 0: return q == 'eq'
        return None
    def take(self, st, c, truth):
        """assume condition; returns False when impossible"""
        if c is True or c is False: return c == truth
        c = self.as_cond(c)
        if c.k == 'not': return self.take(st, c.a[0], not truth)
        if c.k == 'and':
            if truth: return self.take(st, c.a[0], True) and self.take(st, c.a[1], True)
            return True
        if c.k == 'or':
            if not truth: return self.take(st, c.a[0], False) and self.take(st, c.a[1], False)
            return True
        if c.k == 'data': return True
        pred, a, b = c.a
        if not truth: pred = INV[pred]
        try: ab = self.cmp_poly(st, c)
        except Fork: return True
        if ab is None: return True
        d = ab[0] - ab[1]
        if sum(1 for s in d.syms() if self.S[s].raw) > 1: return True     # two pixel values compared: nothing to learn about positions
        q = pred[-2:] if pred not in ('eq', 'ne') else pred
        if q == 'lt': return self.add(st, -d - 1)
        if q == 'le': return self.add(st, -d)
        if q == 'gt': return self.add(st, d - 1)
        if q == 'ge': return self.add(st, d)
        if q == 'eq': return self.add_eq(st, d)
        return self.add_ne(st, d)
    # ---- operand evaluation
    def ty(self, fr, t): return fr.fn.mod.types[t]
    def const(self, fr, o, st):
        k = o[0]
        if k == 'i': return Int(Poly.const(int(o[2])), o[1]) if o[1] != 1 else (int(o[2]) == 1)
        if k == 'n': return Ptr(None, ZERO)
        if k == 'f': return Unk(EMPTY, 'f')
        if k in ('u', 'poison', 'z'):
            t = fr.fn.mod.types[o[1]]
            return self.zero(fr, t, o[1]) if k == 'z' else self.undef(t)
        if k == 'g': return self.globalv(fr, o[1], st)
        if k == 'agg':
            t = fr.fn.mod.types[o[1]]
            if t['k'] == 'vec':
                l = []
                es = fr.fn.mod.types[t['e']].get('size', 1)
                for x in o[2]:
                    if x[0] == 'i':
                        v = int(x[2])
                        if x[1] == 1: l.append((EMPTY, v)); continue
                        for b in range(es): l.append((EMPTY, (v >> (8 * b)) & 255))
                    else:
                        for b in range(es): l.append((EMPTY, None))
                return Vec(l)
            return Agg([self.const(fr, x, st) for x in o[2]])
        if k == 'ce':
            e = o[1]
            if e['op'] == 'getelementptr':
                b = self.const(fr, e['ops'][0], st)
                if isinstance(b, Ptr) and not e['vars']: return Ptr(b.o, b.p + e['off'])
            if e['op'] in ('bitcast', 'addrspacecast'): return self.const(fr, e['ops'][0], st)
            return Unk(EMPTY, 'ce')
        if k == 'md': return Unk(EMPTY, 'md')
        return Unk(EMPTY, 'x')
    def zero(self, fr, t, tid):
        if t['k'] == 'vec': return Vec([(EMPTY, 0)] * t['size'])
        if t['k'] == 'int': return Int(ZERO, t['w']) if t['w'] != 1 else False
        if t['k'] == 'ptr': return Ptr(None, ZERO)
        if t['k'] in ('struct',): return Agg([self.zero(fr, fr.fn.mod.types[e[0]], e[0]) for e in t['el']])
        if t['k'] == 'array': return Agg([self.zero(fr, fr.fn.mod.types[t['e']], t['e'])] * min(t['n'], 64))
        return Unk(EMPTY, 'f')
    def undef(self, t):
        if t['k'] == 'int' and t['w'] == 1: return Cond('data', EMPTY)
        if t['k'] == 'int': return Int(self.sym('undef', 0, (1 << t['w']) - 1, EMPTY, True), t['w'])
        if t['k'] == 'vec': return Vec([(EMPTY, None)] * t.get('size', 1))
        if t['k'] == 'struct': return Agg([Unk()] * len(t.get('el', [])))
        return Unk(EMPTY, 'undef')
    def globalv(self, fr, name, st):
        if name in self.funcs: return Fn(name)
        if name not in self.gobj:
            g = fr.fn.mod.globals.get(name)
            o = Obj(len(self.objs), 'global', 'global ' + (g['dem'] if g else name)); self.objs.append(o)
            o.meta = (g, fr.fn.mod)
            self.gobj[name] = o
        o = self.gobj[name]
        if o.id not in st.size:
            g = o.meta[0]
            st.size[o.id] = Poly.const(fr.fn.mod.tsize(g['ty']) if g else 0)
            st.bulk[o.id] = EMPTY
        return Ptr(o.id, ZERO)
    def val(self, fr, st, o):
        k = o[0]
        if k == 'v':
            v = st.env.get(o[1])
            if v is None: raise Undecided('value %s used before definition' % o[1])
        elif k == 'a': v = fr.args[o[1]]
        else: return self.const(fr, o, st)
        if st.sub:
            if isinstance(v, Int): v = Int(v.p.subst(st.sub), v.w, v.taint)
            elif isinstance(v, Ptr): v = Ptr(v.o, v.p.subst(st.sub))
        return v
    # ---- memory
    def access(self, fr, st, ins, ptr, n, rw, val=None):
        """bounds obligation and log entry; n: int or Poly"""
        if isinstance(n, int): n = Poly.const(n)
        if isinstance(ptr, JoinPtr):
            for p in ptr.ps: self.access(fr, st, ins, p, n, rw, val)
            return
        loc = (fr.fn, ins)
        if not isinstance(ptr, Ptr):
            why = getattr(ptr, 'why', '')
            raise Undecided('%s through a pointer the analysis cannot resolve at %s %s' % ('load' if rw == 'R' else 'store', fr.fn.where(ins), why))
        if ptr.o is None:
            self.oblige(fr, st, ins, None, 'null pointer dereference', False, ptr, n); return
        o = self.objs[ptr.o]
        off = self.norm(st, ptr.p)
        if not self.dry:
            self.accesses += 1
            if o.kind != 'cells' or off.cval() is None:
                size = self.norm(st, st.size[o.id])
                lo = self.prove(st, off)
                hi = self.prove(st, size - off - n)
                self.oblige(fr, st, ins, o, 'access outside the object', lo and hi, ptr, n, detail=(off, n, size, lo, hi), rw=rw)
                if self.onaccess: self.onaccess(self, fr, st, ins, o, off, n, rw, val)
            else:
                size = self.norm(st, st.size[o.id]); c = size.cval()
                if c is not None and n.cval() is not None:
                    ok = 0 <= off.cval() and off.cval() + n.cval() <= c
                    self.oblige(fr, st, ins, o, 'access outside the object', ok, ptr, n, detail=(off, n, size, ok, ok), rw=rw)
        if o.kind in ('image', 'vec', 'heap', 'arr'):
            if rw == 'W' and st.reads: st.reads = {k: v for k, v in st.reads.items() if k[0] != o.id}
            st.log = st.log + (Event(rw, o.id, off, n, (), val, loc),)
    def oblige(self, fr, st, ins, o, what, ok, ptr, n, detail=None, rw=None):
        if self.dry: return
        key = (fr.fn.name, ins['id'], o.label if o else 'null', what)
        r = self.obl.get(key)
        if r is None: r = self.obl[key] = dict(fn=fr.fn, ins=ins, obj=o.label if o else 'null', what=what, ok=0, bad=[], rw=rw, stack=list(self.callstack))
        if ok: r['ok'] += 1
        elif len(r['bad']) < 3:
            d = self.describe(st, detail) if detail else ''
            goals = None
            if detail:
                off, n, size, lo, hi = detail
                goals = ([] if lo else [off]) + ([] if hi else [size - off - n])
            r['bad'].append((d, [f.show(self.S) for f in st.facts], st.facts if detail else None, goals))
    def describe(self, st, d):
        off, n, size, lo, hi = d
        return 'offset %s, size %s, object size %s%s%s' % (off.show(self.S), n.show(self.S), size.show(self.S), '' if lo else ' [lower bound not implied]', '' if hi else ' [upper bound not implied]')
    def read(self, fr, st, ins, ptr, t):
        """load of type t"""
        n = t.get('size', 0)
        if isinstance(ptr, JoinPtr):
            vs = [self.read(fr, st, ins, p, t) for p in ptr.ps]
            v = vs[0]
            for x in vs[1:]: v = self.merge_val(st, v, x, ptr.taint, (st, st))
            return v
        self.access(fr, st, ins, ptr, n, 'R')
        if ptr.o is None: return self.undef(t)
        o = self.objs[ptr.o]; off = self.norm(st, ptr.p)
        if o.kind == 'cells':
            c = off.cval()
            if c is None:
                # variable index into a local array: all its bytes
                tt = EMPTY
                for (a, (s, v)) in st.mem[o.id].items(): tt = tt | taint_of(v, self.S)
                for x in off.syms(): tt = tt | self.S[x].taint
                return self.fresh(t, 'elem', tt)
            return self.read_cell(st, o, c, n, t)
        if o.kind == 'global':
            g, mod = o.meta
            c = off.cval()
            if g and g.get('const') and 'init' in g and c is not None:
                v = self.init_at(fr, st, g['init'], mod, mod.types[g['ty']], c, t)
                if v is not None: return v
            if g and g.get('const') and c is not None and t['k'] in ('int', 'vec') and n and ('str' in g or 'init' in g):
                if 'str' in g: bs = [ord(g['str'][c + x]) if c + x < len(g['str']) else None for x in range(n)]
                else: bs = [self.init_byte(g['init'], mod, mod.types[g['ty']], c + x) for x in range(n)]
                if all(b is not None and b < 128 for b in bs): return self.retype(Vec([(EMPTY, b) for b in bs]), t)
            if g and g.get('const'):
                tt = EMPTY
                for x in off.syms(): tt = tt | self.S[x].taint
                return self.fresh(t, 'const', tt)
            return self.fresh(t, o.label, EMPTY, data=False)
        # bulk
        nn = n
        tt = EMPTY
        for x in off.syms(): tt = tt | self.S[x].taint
        if o.kind in ('image', 'vec', 'arr', 'heap'):
            if t['k'] == 'vec':
                return Vec([(frozenset([(o.id, off + i, 1)]) | tt, None) for i in range(n)])
            if o.meta and isinstance(o.meta, dict) and o.meta.get('ptrs'):
                return Unk(tt, 'ptr', 'element of %s' % o.label)
            key = (o.id, off, nn)
            if key in st.reads: return st.reads[key]
            v = self.fresh(t, o.label, frozenset([(o.id, off, nn)]) | tt | st.bulk.get(o.id, EMPTY) if o.kind == 'image' else frozenset([(o.id, off, nn)]) | tt)
            if isinstance(v, Int): st.reads = dict(st.reads); st.reads[key] = v
            return v
        return self.fresh(t, o.label, tt)
    def init_at(self, fr, st, init, mod, ty, off, t):
        k = init[0]
        if k == 'z':
            return self.zero(fr, t, None)
        if ty['k'] == 'int' or ty['k'] == 'ptr':
            if off == 0:
                v = self.const(fr, init, st)
                if isinstance(v, bool): v = Int(ONE if v else ZERO, 8)
                return v
            return None
        if k == 'agg' and ty['k'] == 'array':
            et = mod.types[ty['e']]; i = off // et['size']
            if i < len(init[2]): return self.init_at(fr, st, init[2][i], mod, et, off - i * et['size'], t)
        if k == 'agg' and ty['k'] == 'vec' and off == 0: return self.const(fr, init, st)
        if k == 'agg' and ty['k'] == 'struct':
            for i, (et, eo) in reversed(list(enumerate(ty['el']))):
                if off >= eo: return self.init_at(fr, st, init[2][i], mod, mod.types[et], off - eo, t)
        return None
    def fresh(self, t, name, taint=EMPTY, data=True):
        k = t['k']
        if k == 'int':
            if t['w'] == 1: return Cond('data', taint)
            z = self.S.new(name, 0, (1 << t['w']) - 1, taint, data); self.S[z].raw = bool(taint)
            return Int(Poly.sym(z), t['w'])
        if k in ('float', 'double'): return Unk(taint, 'f')
        if k == 'vec': return Vec([(taint, None)] * t['size'])
        if k == 'ptr': return Unk(taint, 'ptr', name)
        if k == 'struct': return Agg([Unk(taint)] * len(t.get('el', [])))
        return Unk(taint, k)
    def read_cell(self, st, o, off, n, t):
        cells = st.mem[o.id]
        c = cells.get(off)
        if c and c[0] == n:
            v = c[1]
            return self.retype(v, t)
        parts = sorted((a, s, v) for a, (s, v) in cells.items() if a < off + n and a + s > off) if cells else []
        parts = sorted([(a, s, v) for a, (s, v) in cells.items() if a < off + n and a + s > off], key=lambda x: x[0])
        if parts and parts[0][0] == off and all(a + s <= off + n for a, s, v in parts):
            v = Cat([(a - off, s, x) for a, s, x in parts])
            return self.retype(v, t)
        if len(parts) == 1:
            a, s, v = parts[0]
            if isinstance(v, Cat):
                for (pa, ps, pv) in v.parts:
                    if a + pa == off and ps == n: return self.retype(pv, t)
            if isinstance(v, Vec):
                return self.retype(Vec(v.l[off - a:off - a + n]), t)
            if isinstance(v, Int) and v.p.cval() is not None:
                return Int(Poly.const((v.p.cval() >> (8 * (off - a))) & ((1 << (8 * n)) - 1)), 8 * n)
            return self.fresh(t, 'part', taint_of(v, self.S))
        if not parts:
            v = self.fresh(t, 'uninit:' + o.label, EMPTY)
            nc = dict(cells); nc[off] = (n, v); st.mem[o.id] = nc
            return v
        tt = EMPTY
        for a, s, v in parts: tt = tt | taint_of(v, self.S)
        return self.fresh(t, 'mix', tt)
    def retype(self, v, t):
        k = t['k']
        if k == 'int' and isinstance(v, Int):
            if v.w == t['w']: return v
            return Int(v.p, t['w'], v.taint) if v.w < t['w'] else Int(v.p, t['w'], v.taint)
        if k == 'int' and isinstance(v, bool): return Int(ONE if v else ZERO, t['w'])
        if k == 'int' and isinstance(v, Vec):
            if all(l[1] is not None for l in v.l):
                return Int(Poly.const(sum(l[1] << (8 * i) for i, l in enumerate(v.l))), t['w'])
            if t['w'] > 64: return v
            return Int(self.sym('vecpart', 0, (1 << t['w']) - 1, taint_of(v, self.S), True), t['w'])
        if k == 'int' and isinstance(v, Unk): return Int(self.sym('opaque', 0, (1 << t['w']) - 1, v.taint, True), t['w'])
        if k == 'int' and isinstance(v, Cat) and all(isinstance(x, Int) and x.p.cval() is not None for _, _, x in v.parts):
            return Int(Poly.const(sum((x.p.cval() & ((1 << (8 * s)) - 1)) << (8 * a) for a, s, x in v.parts)), t['w'])
        if k == 'ptr' and isinstance(v, Int) and v.p.cval() == 0: return Ptr(None, ZERO)
        if k == 'vec' and not isinstance(v, Vec):
            if isinstance(v, Int) and v.p.cval() is not None:
                c = v.p.cval(); return Vec([(EMPTY, (c >> (8 * i)) & 255) for i in range(t['size'])])
            if isinstance(v, Cat):
                l = [(EMPTY, None)] * t['size']
                for a, s, x in v.parts:
                    y = self.retype(x, dict(k='vec', size=s))
                    for i in range(s):
                        if a + i < len(l): l[a + i] = y.l[i]
                return Vec(l)
            return Vec([(taint_of(v, self.S), None)] * t['size'])
        if k in ('float', 'double') and not isinstance(v, Unk): return Unk(taint_of(v, self.S), 'f')
        return v
    def write_cell(self, st, oid, off, n, v):
        cells = dict(st.mem[oid])
        for a in [a for a, (s, _) in cells.items() if a < off + n and a + s > off and not (a == off and s == n)]:
            s, old = cells.pop(a)
            # keep the untouched parts of a packed value
            if isinstance(old, Cat):
                for pa, ps, pv in old.parts:
                    if a + pa + ps <= off or a + pa >= off + n: cells[a + pa] = (ps, pv)
            elif isinstance(old, Vec):
                if a < off: cells[a] = (off - a, Vec(old.l[:off - a]))
                if a + s > off + n: cells[off + n] = (a + s - off - n, Vec(old.l[off + n - a:]))
        if isinstance(v, Cat):
            for pa, ps, pv in v.parts: cells[off + pa] = (ps, pv)
        else: cells[off] = (n, v)
        st.mem[oid] = cells
    def write(self, fr, st, ins, ptr, v, n):
        if isinstance(ptr, JoinPtr): raise Undecided('store through a joined pointer at %s' % fr.fn.where(ins))
        self.access(fr, st, ins, ptr, n, 'W', v)
        if not isinstance(ptr, Ptr) or ptr.o is None: return
        o = self.objs[ptr.o]; off = self.norm(st, ptr.p)
        if o.kind == 'cells':
            c = off.cval()
            if c is None:
                # variable index into a local object: forget its contents
                tt = taint_of(v, self.S)
                for (a, (s, x)) in st.mem[o.id].items(): tt = tt | taint_of(x, self.S)
                st.mem[o.id] = {0: (max(1, self.norm(st, st.size[o.id]).cval() or 1), Unk(tt, 'smear'))}
                return
            self.write_cell(st, o.id, c, n, v)
        elif o.kind == 'global': pass
        else:
            if isinstance(v, (Ptr, JoinPtr)) or (isinstance(v, Unk) and v.kind == 'ptr'):
                if o.meta is None: o.meta = {}
                if isinstance(o.meta, dict): o.meta['ptrs'] = True
    # ---- merging
    def merge_val(self, st, a, b, taint, states):
        if type(a) is type(b) and a == b: return a
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Cond) or isinstance(b, Cond):
            return Cond('data', taint | (taint_of(a, self.S) if not isinstance(a, bool) else EMPTY) | (taint_of(b, self.S) if not isinstance(b, bool) else EMPTY))
        if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w:
            pa, pb = self.norm(states[0], a.p), self.norm(states[1], b.p)
            la, ha = self.P.interval(pa); lb, hb = self.P.interval(pb)
            lo = min(la, lb) if la is not None and lb is not None else None
            hi = max(ha, hb) if ha is not None and hb is not None else None
            t = taint | taint_of(a, self.S) | taint_of(b, self.S)
            s = self.sym('join', lo, hi, t, True)
            d0 = pa - pb; d = d0.cval()
            if d is not None:
                mn, mx = (pb, pa) if d > 0 else (pa, pb)
                self.add(st, s - mn); self.add(st, mx - s)
            else:
                if any(self.S[x].raw for x in d0.syms()): pass
                elif self.P.prove(states[0].facts, pb - pa) and self.P.prove(states[1].facts, pb - pa):
                    self.add(st, s - pa); self.add(st, pb - s)
                elif self.P.prove(states[0].facts, pa - pb) and self.P.prove(states[1].facts, pa - pb):
                    self.add(st, s - pb); self.add(st, pa - s)
            return Int(s, a.w)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                x = self.merge_val(st, Int(a.p, 64), Int(b.p, 64), taint, states)
                return Ptr(a.o, x.p)
            return JoinPtr([a, b], taint)
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.l) == len(b.l):
            return Vec([(x[0] | y[0] | taint, x[1] if x[1] == y[1] else None) for x, y in zip(a.l, b.l)])
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            return Agg([self.merge_val(st, x, y, taint, states) for x, y in zip(a.v, b.v)])
        if isinstance(a, Cat) and isinstance(b, Cat) and [(x[0], x[1]) for x in a.parts] == [(x[0], x[1]) for x in b.parts]:
            return Cat([(x[0], x[1], self.merge_val(st, x[2], y[2], taint, states)) for x, y in zip(a.parts, b.parts)])
        k = 'ptr' if isinstance(a, (Ptr, JoinPtr)) or isinstance(b, (Ptr, JoinPtr)) else 'x'
        return Unk(taint | taint_of(a, self.S) | taint_of(b, self.S), k, 'joined value')
    def merge_states(self, sts, taint):
        """control-flow join after a data dependent branch"""
        base = sts[0]
        for other in sts[1:]:
            m = State()
            fb = set(other.facts); fa = set(base.facts)
            keep = [f for f in base.facts if f in fb or self.prove(other, f)]
            for f in other.facts:
                if f not in fa and self.prove(base, f): keep.append(f)
            m.facts = tuple(keep)
            nb = set(other.ne); m.ne = tuple(q for q in base.ne if q in nb)
            if base.sub == other.sub: m.sub = base.sub
            else:
                m.sub = {k: v for k, v in base.sub.items() if other.sub.get(k) == v}
                # facts rewritten by dropped substitutions stay valid only if present in both: handled by the intersection above
            pair = (base, other)
            for k in base.env:
                if k in other.env:
                    a, b = base.env[k], other.env[k]
                    m.env[k] = a if a is b else self.merge_val(m, a, b, taint, pair)
            for o in base.mem:
                if o in other.mem:
                    ca, cb = base.mem[o], other.mem[o]
                    if ca is cb: m.mem[o] = ca; continue
                    c = {}
                    for off in set(ca) | set(cb):
                        if off in ca and off in cb and ca[off][0] == cb[off][0]:
                            a, b = ca[off][1], cb[off][1]
                            c[off] = (ca[off][0], a if a is b else self.merge_val(m, a, b, taint, pair))
                        elif (off in ca) != (off in cb):
                            sz, v = (ca.get(off) or cb.get(off))
                            c[off] = (sz, Unk(taint_of(v, self.S) | taint, 'ptr' if isinstance(v, Ptr) else 'x'))
                    m.mem[o] = c
            for o in base.size:
                if o in other.size:
                    a, b = base.size[o], other.size[o]
                    if a == b: m.size[o] = a
                    else: m.size[o] = self.merge_val(m, Int(a, 64), Int(b, 64), taint, pair).p
            for o in base.bulk:
                m.bulk[o] = base.bulk[o] | other.bulk.get(o, EMPTY)
            m.reads = {k: v for k, v in base.reads.items() if k in other.reads and other.reads[k] == v}
            # must-log: events present on both sides
            la, lb = base.log, other.log
            i = 0
            while i < len(la) and i < len(lb) and la[i] is lb[i]: i += 1
            log = list(la[:i]); kb = {}
            for e in lb[i:]: kb.setdefault(e.key(), e)
            for e in la[i:]:
                x = kb.get(e.key())
                if x is not None:
                    v = e.val
                    if e.rw == 'W': v = self.merge_val(m, e.val, x.val, taint, pair) if e.val is not None and x.val is not None else None
                    log.append(Event(e.rw, e.o, e.off, e.n, e.loops, v, e.loc))
                else: log.append(may(e))
            ka = set(e.key() for e in la[i:])
            for e in lb[i:]:
                if e.key() not in ka: log.append(may(e))
            m.log = tuple(log)
            base = m
        return base
    MAXJOIN = 24
    def join(self, sts, taint):
        """states after a data dependent branch: merged where no fact about sizes and positions is lost, else kept apart"""
        groups = []
        for s in sts:
            for g in groups:
                if self.lossless(g[0], s): g.append(s); break
            else: groups.append([s])
        if len(groups) > self.MAXJOIN:
            self.lossy += 1
            return [self.merge_states(sts, taint)]
        return [self.merge_states(g, taint) if len(g) > 1 else g[0] for g in groups]
    def lossless(self, a, b):
        if a.sub != b.sub: return False
        fa, fb = set(a.facts), set(b.facts)
        for x, y, z in ((a, fb, b), (b, fa, a)):
            for f in x.facts:
                if f in y or any(self.S[q].data for q in f.syms()): continue
                if not self.prove(z, f): return False
        return True
    def merge_outcomes(self, outs):
        """join outcomes that differ only in path facts"""
        res = []
        for o in outs:
            if o.kind == 'throw': res.append(o); continue
            for r in res:
                if r.kind == o.kind and r.val == o.val and type(r.val) is type(o.val) and r.blk == o.blk and r.pred == o.pred and r.st.mem == o.st.mem and r.st.size == o.st.size and r.st.log == o.st.log \
                   and r.st.sub == o.st.sub and r.st.env == o.st.env:
                    fb = set(o.st.facts)
                    fa = r.st.facts
                    s = r.st.copy()
                    s.facts = tuple(f for f in fa if f in fb or self.P.prove(o.st.facts, f)) + tuple(f for f in o.st.facts if f not in set(fa) and self.P.prove(fa, f))
                    nb = set(o.st.ne); s.ne = tuple(q for q in r.st.ne if q in nb)
                    r.st = s
                    break
            else: res.append(o)
        return res
    # ---- execution
    def call(self, fn, args, st, caller=None):
        """inline call; outcomes 'ret' (val) or 'throw'"""
        if len(self.callstack) > 60: raise Undecided('call depth')
        fr = Frame(fn, args, caller)
        saved = st.env; st.env = {}
        self.callstack.append((fn, None))
        try:
            outs = self.walk(fr, st, 0, None, Region())
        finally:
            self.callstack.pop()
        for o in outs:
            for ob in fr.objs:
                o.st.mem.pop(ob, None); o.st.size.pop(ob, None)
            o.st.env = {}
        outs = self.merge_outcomes(outs)
        for o in outs: o.st.env = dict(saved)
        return outs
    def walk(self, fr, st, b, pred, region, first=True):
        cfg = fr.cfg; outs = []
        work = [(st, b, pred, 0, first)]
        while work:
            st, b, pred, idx, fst = work.pop()
            if idx == 0 and not fst:
                if region.loop is not None and b == region.loop.header: outs.append(Outcome('latch', st, pred, b)); continue
                if region.loop is not None and b not in region.loop.body: outs.append(Outcome('exit', st, pred, b)); continue
                if region.stop is not None and b == region.stop: outs.append(Outcome('stop', st, pred, b)); continue
            if not self.unroll and idx == 0 and b in cfg.header and not (fst and region.loop is not None and region.loop.header == b):
                level = len(self.loopstack)
                self.loopstack.append(len(self.S.s))
                try: louts = self.run_loop(fr, cfg.header[b], st.copy(), pred, region)
                except Unswitch as u:
                    if u.level != level: raise
                    if len(work) > self.MAXSTATES: raise Undecided('too many paths')
                    for alt in u.alts:
                        s2 = self.assume_all(st, alt)
                        if s2 is not None and self.feasible(s2): work.append((s2, b, pred, 0, fst))
                    continue
                finally: self.loopstack.pop()
                for o in louts:
                    if o.kind == 'exit': work.append((o.st, o.blk, o.pred, 0, False))
                    else: outs.append(o)
                continue
            ins = fr.fn.blocks[b]
            # phis (simultaneous)
            if idx == 0:
                if ins[0]['op'] == 'phi':
                    new = {}
                    if not (fst and pred == 'keep'):
                        for i in ins:
                            if i['op'] != 'phi': break
                            for pb, o in i['inc']:
                                if pb == pred: new[i['id']] = self.val(fr, st, o); break
                            else: raise Undecided('phi without incoming edge')
                        st.env.update(new)
                    while ins[idx]['op'] == 'phi': idx += 1
            done = False
            while not done:
                i = ins[idx]
                self.steps += 1
                if self.steps > self.maxsteps: raise Undecided('too many steps')
                try:
                    r = self.step(fr, st.copy() if i['op'] in ('call', 'invoke') else st, b, i, region)
                except Fork as f:
                    if len(work) > self.MAXSTATES: raise Undecided('too many paths')
                    self.unswitch(st, f.alts)
                    for alt in f.alts:
                        s2 = self.assume_all(st, alt)
                        if s2 is not None and (f.sure or self.feasible(s2)): work.append((s2, b, pred, idx, False) if idx else (s2, b, pred, 0, fst))
                    break
                if r is None: idx += 1; continue
                done = True
                for x in r:
                    if x[0] == 'goto': work.append((x[1], x[2], b, 0, False))
                    elif x[0] == 'at': work.append((x[1], b, pred, idx + 1, False))      # continue in this block
                    elif x[0] == 'ret': outs.append(Outcome('ret', x[1], val=x[2]))
                    elif x[0] == 'throw': outs.append(Outcome('throw', x[1], val=x[2] if len(x) > 2 else None))
                    elif x[0] == 'out': outs.append(x[1])
                    elif x[0] == 'atblk': work.append((x[1], x[2], x[3], x[4], False))
        return outs
    def assume_all(self, st, alt):
        s2 = st.copy()
        for a in alt:
            if not (self.take(s2, a[1], a[2]) if a[0] == 'cond' else self.assume(s2, a[0], a[1])): return None
        return s2
    def polys_of(self, st, c):
        """symbols of a condition, or None if it is not a comparison of numbers"""
        if isinstance(c, bool): return set()
        if not isinstance(c, Cond): return None
        if c.k == 'data': return None
        if c.k == 'cmp':
            r = set()
            for x in c.a[1:]:
                if isinstance(x, Cond):
                    y = self.polys_of(st, x)
                    if y is None: return None
                    r |= y; continue
                if not isinstance(x, (Int, Ptr)): return None
                r |= self.norm(st, x.p).syms()
            return r
        r = set()
        for x in c.a:
            y = self.polys_of(st, x)
            if y is None: return None
            r |= y
        return r
    def unswitch(self, st, alts):
        """raise Unswitch if the case split does not depend on the innermost loops"""
        if not self.loopstack or self.optimistic: return
        syms = set()
        for alt in alts:
            for a in alt:
                r = self.polys_of(st, a[1]) if a[0] == 'cond' else self.norm(st, a[1]).syms()
                if r is None: return
                syms |= r
        if any(self.S[x].data for x in syms): return
        def before(x, lim, d=0): return x < lim or (d < 6 and self.S[x].dep is not None and all(before(y, lim, d + 1) for y in self.S[x].dep))
        for lv, lim in enumerate(self.loopstack):
            if all(before(x, lim) for x in syms): raise Unswitch(lv, alts)
    def step(self, fr, st, b, i, region):
        op = i['op']
        if op == 'br':
            if 'cond' not in i: return [('goto', st, i['succ'][0])]
            c = self.val(fr, st, i['cond'])
            return self.branch(fr, st, b, i, c, region)
        if op == 'switch': return self.switch(fr, st, b, i, region)
        if op == 'ret':
            return [('ret', st, self.val(fr, st, i['ops'][0]) if i.get('ops') else None)]
        if op == 'unreachable': return []
        if op == 'resume': return [('throw', st)]
        if op in ('call', 'invoke'): return self.docall(fr, st, b, i)
        v = self.compute(fr, st, i)
        if v is not None: st.env[i['id']] = v
        return None
    def branch(self, fr, st, b, i, c, region):
        t, f = i['succ']
        if region.rec is not None and region.loop is not None:
            inl = [s for s in (t, f) if s in region.loop.body]
            if len(inl) == 1 and all(fr.cfg.dominates(b, l) for l in region.loop.latches): region.rec(fr, st, b, c, inl[0] == t)
        if b in region.forced:
            s = region.forced[b]
            st2 = st
            self.take_soft(st2, c, s == t)
            return [('goto', st2, s)]
        d = self.decide(st, c)
        if d is not None: return [('goto', st, t if d else f)]
        if t == f: return [('goto', st, t)]
        cfg = fr.cfg
        if self.is_data(c):
            ipd = cfg.ipdom[b]
            l = cfg.inner[b]
            if ipd is not None and ipd < cfg.n and ipd not in cfg.header and (l is None or (ipd in l.body and ipd != l.header)):
                outs = []; stops = []
                ct = taint_of(c, self.S)
                for s, tr in ((t, True), (f, False)):
                    s2 = st.copy()
                    if not self.take(s2, c, tr): continue
                    r = Region(region.loop, ipd, region.forced, region.rec)
                    if s == ipd: stops.append(Outcome('stop', s2, b, ipd)); continue
                    for o in self.walk(fr, s2, s, b, r, first=False):
                        (stops if o.kind == 'stop' else outs).append(o)
                res = [('out', o) for o in outs]
                if stops:
                    ins = fr.fn.blocks[ipd]
                    n = 0
                    sts = []
                    for o in stops:
                        if o.pred == ('done',): sts.append(o.st); continue
                        new = {}
                        for k in ins:
                            if k['op'] != 'phi': break
                            for pb, x in k['inc']:
                                if pb == o.pred: new[k['id']] = self.val(fr, o.st, x); break
                        o.st.env.update(new); sts.append(o.st)
                    while ins[n]['op'] == 'phi': n += 1
                    for m in self.join(sts, ct):
                        if region.stop == ipd:
                            # both this region and the enclosing one end here; phis are already evaluated
                            res.append(('out', self._stop_keep(fr, m, ipd))); continue
                        res.append(('atblk', m, ipd, b, n) if n else ('goto', m, ipd))
                return res
        out = []
        if not self.is_data(c): self.unswitch(st, [[('cond', c, True)], [('cond', c, False)]])
        for s, tr in ((t, True), (f, False)):
            s2 = st.copy()
            # decide() has already failed to refute either side of a plain comparison
            if self.take(s2, c, tr) and (self.is_data(c) or self.plain(c) or self.feasible(s2)): out.append(('goto', s2, s))
        return out
    def plain(self, c):
        while isinstance(c, Cond) and c.k == 'not': c = c.a[0]
        return isinstance(c, Cond) and c.k == 'cmp'
    def _stop_keep(self, fr, m, ipd):
        """outcome at a join that is also the enclosing region's join: phi values are already in env, so record a pseudo predecessor"""
        o = Outcome('stop', m, ('done',), ipd); return o
    def take_soft(self, st, c, truth):
        try: self.take(st, c, truth)
        except Fork: pass
    def switch(self, fr, st, b, i, region):
        v = self.val(fr, st, i['cond'])
        if not isinstance(v, Int): raise Undecided('switch on opaque value')
        p = self.U(st, v); c = p.cval()
        if c is not None:
            for k, blk in i['cases']:
                if int(k[2]) == c: return [('goto', st, blk)]
            return [('goto', st, i['def'])]
        out = []; rest = st.copy(); ok = True
        for k, blk in i['cases']:
            s2 = rest.copy()
            if self.add_eq(s2, p - int(k[2])) and self.feasible(s2): out.append(('goto', s2, blk))
            ok = ok and self.add_ne(rest, p - int(k[2]))
        if ok and self.feasible(rest): out.append(('goto', rest, i['def']))
        return out
    # ---- instructions
    def compute(self, fr, st, i):
        op = i['op']; S = self.S
        if op == 'alloca':
            t = self.ty(fr, i['aty'])
            n = self.val(fr, st, i['ops'][0])
            cnt = n.p.cval() if isinstance(n, Int) else 1
            o = self.newobj(st, 'cells', 'local of %s' % ir.base_name(fr.fn.dem), Poly.const(t.get('size', 0) * (cnt or 1)))
            fr.objs.append(o.id)
            return Ptr(o.id, ZERO)
        if op == 'load':
            return self.retype(self.read(fr, st, i, self.val(fr, st, i['ops'][0]), self.ty(fr, i['ty'])), self.ty(fr, i['ty'])) if True else None
        if op == 'store':
            v = self.val(fr, st, i['ops'][0]); p = self.val(fr, st, i['ops'][1])
            n = fr.fn.mod.types[i['vty']].get('size', 0)
            if isinstance(v, bool): v = Int(ONE if v else ZERO, 8)
            self.write(fr, st, i, p, v, n)
            return None
        if op == 'getelementptr':
            p = self.val(fr, st, i['base'])
            if not i['gepok']: raise Undecided('gep')
            if i['ty'] is not None and self.ty(fr, i['ty'])['k'] != 'ptr': return Unk(EMPTY, 'ptr', 'vector gep')
            def shift(q):
                off = q.p + i['off']
                for o, sc in i['vars']:
                    v = self.val(fr, st, o)
                    if isinstance(v, (Unk,)): return Unk(v.taint, 'ptr', 'index')
                    off = off + self.Sg(st, v) * sc
                return Ptr(q.o, off)
            if isinstance(p, Ptr): return shift(p)
            if isinstance(p, JoinPtr):
                return JoinPtr([shift(q) for q in p.ps], p.taint)
            return Unk(taint_of(p, S), 'ptr', getattr(p, 'why', 'gep'))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self.binop(fr, st, i, op)
        if op == 'icmp':
            a = self.val(fr, st, i['ops'][0]); b = self.val(fr, st, i['ops'][1])
            if isinstance(a, Vec) or isinstance(b, Vec):
                return self.vec_lanewise(fr, st, i, [a, b])
            if isinstance(a, bool): a = Int(ONE if a else ZERO, 1)
            if isinstance(b, bool): b = Int(ONE if b else ZERO, 1)
            pred = i['pred']
            if self.addr: a, b = self.abs_addr(a, b)
            # (cond as int) compared with 0
            if isinstance(a, Cond) and isinstance(b, Int) and b.p.cval() == 0 and pred in ('eq', 'ne'):
                return a if pred == 'ne' else Cond('not', a)
            if isinstance(a, Int) and isinstance(b, Int) and a.p.cval() is not None and b.p.cval() is not None:
                return self.decide(st, Cond('cmp', pred, a, b))
            if (isinstance(a, (Unk, Vec, Cat)) or isinstance(b, (Unk, Vec, Cat))):
                return Cond('data', taint_of(a, S) | taint_of(b, S))
            return Cond('cmp', pred, a, b)
        if op == 'fcmp':
            a = self.val(fr, st, i['ops'][0]); b = self.val(fr, st, i['ops'][1])
            return Cond('data', taint_of(a, S) | taint_of(b, S))
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(fr, st, i['ops'][0]); t = self.ty(fr, i['ty'])
            if t['k'] == 'vec' or isinstance(a, Vec): return self.vec_ext(fr, st, i, a, t)
            w = t['w']
            if isinstance(a, bool): return (Int(ONE if a else ZERO, w) if op == 'zext' else Int(Poly.const(-1) if a else ZERO, w)) if op != 'trunc' else a
            if isinstance(a, Cond):
                if op == 'zext' or (op == 'trunc' and w == 1): return a          # kept symbolic: i1 widened
                v = self.cond_int(st, a, w)
                return Int(-v.p, w) if op == 'sext' else v
            if op == 'trunc':
                if isinstance(a, Cat):
                    for pa, ps, pv in a.parts:
                        if pa == 0 and ps * 8 == w: return pv
                    return self.fresh(t, 'trunc', taint_of(a, S))
                if isinstance(a, Unk): return self.fresh(t, 'trunc', a.taint)
                if w == 1:
                    p = self.norm(st, a.p); c = p.cval()
                    if c is not None: return bool(c & 1)
                    return Cond('cmp', 'ne', Int(p, a.w, a.taint), Int(ZERO, a.w))
                return Int(a.p, w, a.taint)
            if isinstance(a, Unk): return self.fresh(t, 'ext', a.taint)
            if isinstance(a, Cat): return self.fresh(t, 'ext', taint_of(a, S))
            p = self.U(st, a) if op == 'zext' else self.Sg(st, a)
            return Int(p, w, a.taint)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            a = self.val(fr, st, i['ops'][0]); t = self.ty(fr, i['ty'])
            if t['k'] == 'int' and t['w'] == 1: return a
            return self.retype(a, t)
        if op == 'ptrtoint':
            a = self.val(fr, st, i['ops'][0])
            if isinstance(a, Ptr) and a.o is not None: return Cat([(0, 8, a)]) if True else None
            if isinstance(a, Ptr): return Int(ZERO, 64)
            return self.fresh(self.ty(fr, i['ty']), 'addr', taint_of(a, S))
        if op == 'inttoptr':
            a = self.val(fr, st, i['ops'][0])
            if isinstance(a, Cat) and len(a.parts) == 1: return a.parts[0][2]
            return Unk(taint_of(a, S), 'ptr', 'inttoptr')
        if op == 'select':
            c = self.val(fr, st, i['ops'][0]); a = self.val(fr, st, i['ops'][1]); b = self.val(fr, st, i['ops'][2])
            if isinstance(c, Vec): return self.vec_lanewise(fr, st, i, [c, a, b])
            d = self.decide(st, c)
            if d is not None: return a if d else b
            if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
                if b is False: return Cond('and', c, a) if a is not True else c
                if a is True: return Cond('or', c, b)
            if self.is_data(c): return self.merge_val(st, a, b, taint_of(c, S), (st, st))
            raise Fork([[('cond', c, True)], [('cond', c, False)]])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            t = EMPTY
            vs = [self.val(fr, st, o) for o in i['ops']]
            if any(isinstance(v, Vec) for v in vs): return self.vec_lanewise(fr, st, i, vs)
            for v in vs: t = t | taint_of(v, S)
            return Unk(t, 'f')
        if op in ('uitofp', 'sitofp', 'fptrunc', 'fpext'):
            v = self.val(fr, st, i['ops'][0])
            return Unk(taint_of(v, S) if not isinstance(v, bool) else EMPTY, 'f')
        if op in ('fptoui', 'fptosi'):
            t = self.ty(fr, i['ty']); v = self.val(fr, st, i['ops'][0])
            lo, hi = self.rng(t['w'], op == 'fptosi')
            return Int(self.sym('fp', lo, hi, taint_of(v, S), True), t['w'])
        if op == 'extractvalue':
            a = self.val(fr, st, i['ops'][0])
            for x in i['ix']:
                if isinstance(a, Agg) and x < len(a.v): a = a.v[x]
                else: return self.fresh(self.ty(fr, i['ty']), 'ev', taint_of(a, S))
            return self.retype(a, self.ty(fr, i['ty']))
        if op == 'insertvalue':
            a = self.val(fr, st, i['ops'][0]); v = self.val(fr, st, i['ops'][1])
            if isinstance(a, Agg) and len(i['ix']) == 1:
                l = list(a.v); l[i['ix'][0]] = v; return Agg(l)
            if not isinstance(a, Agg):
                t = self.ty(fr, i['ty'])
                l = [Unk()] * len(t.get('el', [])) if t['k'] == 'struct' else []
                if len(i['ix']) == 1 and l: l[i['ix'][0]] = v; return Agg(l)
            return Unk(taint_of(a, S) | taint_of(v, S), 'agg')
        if op in ('extractelement', 'insertelement', 'shufflevector'): return self.vec_op(fr, st, i)
        if op == 'landingpad': return Unk(EMPTY, 'lp')
        if op in ('fence',): return None
        raise Undecided('instruction %s at %s' % (op, fr.fn.where(i)))
    def binop(self, fr, st, i, op):
        a = self.val(fr, st, i['ops'][0]); b = self.val(fr, st, i['ops'][1]); S = self.S
        t = self.ty(fr, i['ty'])
        if t['k'] == 'vec' or isinstance(a, Vec) or isinstance(b, Vec): return self.vec_bin(fr, st, i, op, a, b, t)
        w = t['w']
        if w == 1:
            if op == 'xor':
                if b is True: return Cond('not', a) if not isinstance(a, bool) else not a
                if b is False: return a
            if op == 'and':
                if a is False or b is False: return False
                if a is True: return b
                if b is True: return a
                return Cond('and', a, b)
            if op == 'or':
                if a is True or b is True: return True
                if a is False: return b
                if b is False: return a
                return Cond('or', a, b)
            return Cond('data', (taint_of(a, S) if not isinstance(a, bool) else EMPTY) | (taint_of(b, S) if not isinstance(b, bool) else EMPTY))
        # pointer differences
        if isinstance(a, Cat) and isinstance(b, Cat) and op == 'sub' and len(a.parts) == 1 and len(b.parts) == 1:
            x, y = a.parts[0][2], b.parts[0][2]
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o: return Int(x.p - y.p, w)
            if self.addr:
                x, y = self.abs_addr(x, y)
                if isinstance(x, Int) and isinstance(y, Int): return Int(x.p - y.p, w)
        if self.addr: a, b = self.num_addr(a), self.num_addr(b)
        if isinstance(a, (bool, Cond)): a = Int(ONE if a else ZERO, w) if isinstance(a, bool) else self.cond_int(st, a, w)
        if isinstance(b, (bool, Cond)): b = Int(ONE if b else ZERO, w) if isinstance(b, bool) else self.cond_int(st, b, w)
        if isinstance(a, Cat) and op == 'lshr' and isinstance(b, Int) and b.p.cval() is not None:
            sh = b.p.cval() // 8
            parts = [(pa - sh, ps, pv) for pa, ps, pv in a.parts if pa >= sh]
            if parts and parts[0][0] == 0 and len(parts) == 1: return Int(parts[0][2].p, w) if isinstance(parts[0][2], Int) else Cat(parts)
        if not (isinstance(a, Int) and isinstance(b, Int)):
            return self.fresh(t, op, taint_of(a, S) | taint_of(b, S))
        tt = a.taint | b.taint
        pa, pb = self.norm(st, a.p), self.norm(st, b.p)
        big = len(pa.t) * len(pb.t) > 400
        if op == 'add': return Int(pa + pb, w, tt)
        if op == 'sub': return Int(pa - pb, w, tt)
        if op == 'mul':
            if big or (pa.degree() + pb.degree() > 4): return self.fresh(t, 'mul', taint_of(a, S) | taint_of(b, S), data=self.is_data(a) or self.is_data(b))
            # multiply canonical values where they are known to be in range, otherwise modulo 2^w
            return Int(pa * pb, w, tt)
        if op == 'shl':
            c = pb.cval()
            if c is not None and 0 <= c < w: return Int(pa * (1 << c), w, tt)
            return self.fresh(t, 'shl', taint_of(a, S) | taint_of(b, S))
        data = self.is_data(a) or self.is_data(b)
        T = taint_of(a, S) | taint_of(b, S)
        def udivc(p, q, name):
            """floor division of nonnegative p by positive q (Poly): quotient symbol"""
            x = p.divexact(q) if q.cval() != 0 else None
            if x is not None and (q.is_const() or x.is_const()): return x
            c = q.cval()
            if c is not None and c > 1 and len(p.t) > 1:       # c * A + r: A + r / c
                r = Poly({k: v for k, v in p.t.items() if k == ()})
                x = (p - r).divexact(q)
                if x is not None and r.cval() is not None: return x + r.cval() // c
            lo, hi = self.P.interval(p); qc = q.cval()
            h = hi // qc if hi is not None and qc else hi
            z = self.divcache.get((p, q))
            if z is None:
                z = self.divcache[(p, q)] = self.sym(name, 0, h, T, data, lambda sm: np.floor(np.clip(sm.eval(p), 0, None) / np.maximum(sm.eval(q), 1)))
                self.S[next(iter(z.syms()))].dep = p.syms() | q.syms()
            if data and p.degree() > 1: return z
            self.add(st, p - z * q); self.add(st, z * q + q - 1 - p)
            if qc is None or not data:
                if self.prove(st, p - q): self.add(st, z - 1)
            return z
        if op in ('lshr', 'udiv', 'urem', 'and', 'ashr', 'sdiv', 'srem', 'or', 'xor'):
            ca, cb = pa.cval(), pb.cval()
            if ca is not None and cb is not None:
                m = (1 << w) - 1; ua, ub = ca & m, cb & m
                sa = ua - (1 << w) if ua >> (w - 1) else ua; sb = ub - (1 << w) if ub >> (w - 1) else ub
                try:
                    r = {'lshr': lambda: ua >> ub, 'ashr': lambda: sa >> ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'and': lambda: ua & ub, 'or': lambda: ua | ub,
                         'xor': lambda: ua ^ ub, 'sdiv': lambda: abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1),
                         'srem': lambda: abs(sa) % abs(sb) * (1 if sa >= 0 else -1)}[op]()
                    return Int(Poly.const(r), w)
                except ZeroDivisionError: pass
        if op == 'lshr' or op == 'udiv':
            if op == 'lshr':
                c = pb.cval()
                if c is None: return self.fresh(t, 'shr', T, data)
                q = Poly.const(1 << c)
            else: q = self.U(st, b)
            p = self.U(st, a)
            if op == 'udiv' and not (q.cval() or self.prove(st, q - 1)):
                if not self.dry: self.oblige_div(fr, st, i)
                return self.fresh(t, 'div', T, data)
            return Int(udivc(p, q, 'q'), w, tt)
        if op == 'urem':
            q = self.U(st, b); p = self.U(st, a)
            if not (q.cval() or self.prove(st, q - 1)): return self.fresh(t, 'rem', T, data)
            return Int(p - udivc(p, q, 'q') * q, w, tt)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                c = self.norm(st, y.p).cval()
                if c is None: continue
                c &= (1 << w) - 1
                if c == (1 << w) - 1: return x
                if c & (c + 1) == 0:   # low mask
                    p = self.U(st, x); q = Poly.const(c + 1)
                    lo, hi = self.P.interval(p)
                    if hi is not None and hi <= c: return Int(p, w, tt)
                    return Int(p - udivc(p, q, 'q') * q, w, tt)
                inv = ((1 << w) - 1) ^ c
                if inv & (inv + 1) == 0:   # high mask
                    p = self.U(st, x); q = Poly.const(inv + 1)
                    return Int(udivc(p, q, 'q') * q, w, tt)
                return Int(self.sym('and', 0, c, T, data), w)
            return Int(self.sym('and', 0, (1 << w) - 1, T, data), w)
        if op in ('sdiv', 'srem', 'ashr'):
            p = self.Sg(st, a)
            if op == 'ashr':
                c = pb.cval(); q = Poly.const(1 << c) if c is not None else None
            else: q = self.Sg(st, b)
            if q is not None and q.cval() and (x := p.divexact(q)) is not None and op != 'srem': return Int(x, w, tt)
            lo, hi = self.P.interval(p)
            nonneg = (lo is not None and lo >= 0) or (not data and self.prove(st, p))
            if q is not None and nonneg and ((q.cval() or 0) > 0 or (q.cval() is None and self.prove(st, q - 1))):
                z = udivc(p, q, 'q')
                return Int(z if op != 'srem' else p - z * q, w, tt)
            l2, h2 = self.rng(w, True)
            return Int(self.sym(op, l2, h2, T, data), w)
        if op in ('or', 'xor'):
            c = pb.cval()
            if c == 0: return a
            la, ha = self.P.interval(pa); lb, hb = self.P.interval(pb)
            hi = (1 << w) - 1
            if ha is not None and hb is not None and la is not None and la >= 0 and lb is not None and lb >= 0:
                hi = (1 << max(ha.bit_length(), hb.bit_length())) - 1
            return Int(self.sym(op, 0, hi, T, data), w)
        return self.fresh(t, op, T)
    def oblige_div(self, fr, st, i):
        key = (fr.fn.name, i['id'], 'divisor', 'division by zero')
        r = self.obl.setdefault(key, dict(fn=fr.fn, ins=i, obj='divisor', what='division by zero', ok=0, bad=[], rw=None, stack=list(self.callstack)))
        if len(r['bad']) < 3: r['bad'].append(('divisor not provably nonzero', [f.show(self.S) for f in st.facts], st.facts, [Poly.const(-1)]))
    # ---- vectors: see simdsem.py (installed by the clients)
    def vec_bin(self, fr, st, i, op, a, b, t):
        import simdsem; return simdsem.binop(self, fr, st, i, op, a, b, t)
    def vec_lanewise(self, fr, st, i, vs):
        import simdsem; return simdsem.lanewise(self, fr, st, i, vs, self.ty(fr, i['ty']))
    def vec_ext(self, fr, st, i, a, t):
        import simdsem; return simdsem.ext(self, fr, st, i, a, t)
    def vec_op(self, fr, st, i):
        import simdsem; return simdsem.op(self, fr, st, i)
    # ---- calls
    def docall(self, fr, st, b, i):
        callee = self.val(fr, st, i['callee'])
        args = [self.val(fr, st, a) for a in i['args']]
        if not isinstance(callee, Fn):
            outs = self.indirect(fr, st, i, callee, args)
        else: outs = self.invoke(fr, st, i, self.funcs[callee.n], args)
        res = []
        for o in outs:
            if o.kind == 'throw':
                if self.unwind and i['op'] == 'invoke': res.append(('goto', o.st, i['ud']))
                else: res.append(('throw', o.st, o.val))
                continue
            if o.val is not None: o.st.env[i['id']] = o.val
            if i['op'] == 'invoke': res.append(('goto', o.st, i['nd']))
            else: res.append(('at', o.st))
        return res
    def indirect(self, fr, st, i, callee, args): raise Undecided('indirect call at %s' % fr.fn.where(i))
    def invoke(self, fr, st, i, fn, args):
        base = ir.base_name(fn.dem)
        for h in self.contracts:
            try: r = h(self, fr, st, i, fn, base, args)
            except Throws as e: r = [Outcome('throw', st, val=fr.fn.where(i))]
            if r is not None: return r
        if fn.decl: return self.external(fr, st, i, fn, base, args)
        if sum(1 for f, _ in self.callstack if f is fn) > 12: raise Undecided('recursion in %s' % base)
        # by-value aggregates
        args = list(args)
        for k in i.get('byval', []):
            args[k] = self.copy_object(fr, st, i, args[k], fn.args[k])
        return self.call(fn, args, st, fr)
    def copy_object(self, fr, st, i, p, ad):
        n = fr.fn.mod.tsize(ad['byval'])
        o = self.newobj(st, 'cells', 'by-value copy', Poly.const(n))
        if isinstance(p, Ptr) and p.o is not None and self.objs[p.o].kind == 'cells':
            c = p.p.cval()
            st.mem[o.id] = {a - c: v for a, v in st.mem[p.o].items() if c <= a < c + n}
        return Ptr(o.id, ZERO)
    def ret(self, st, v=None): return [Outcome('ret', st, val=v)]
    def external(self, fr, st, i, fn, base, args):
        n = fn.name; S = self.S
        t = self.ty(fr, i['ty'])
        tt = EMPTY
        for a in args:
            if not isinstance(a, (Ptr, bool, Fn)): tt = tt | taint_of(a, S)
        if n.startswith('llvm.'):
            return self.intrinsic(fr, st, i, n, args, t, tt)
        if n in ('__cxa_allocate_exception',):
            return [Outcome('throw', st, val=fr.fn.where(i))]
        if n in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', 'exit') or fn.d.get('noreturn'):
            return [Outcome('throw', st, val=fr.fn.where(i))]
        if n in ('_Znwm', '_Znam', 'malloc'):
            sz = self.U(st, args[0])
            o = self.newobj(st, 'heap', 'heap block allocated at %s' % fr.fn.where(i), sz)
            return self.ret(st, Ptr(o.id, ZERO))
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'): return self.ret(st, self.fresh(t, 'rc') if t['k'] != 'void' else None)
        if n == '__cxa_guard_acquire': return self.ret(st, Int(ZERO, 32))
        if n in ('memcpy', 'memmove', 'memset'):
            ln = self.U(st, args[2])
            if n == 'memset': self.block_write(fr, st, i, args[0], ln, taint_of(args[1], S) if not isinstance(args[1], bool) else EMPTY, args[1])
            else: self.block_copy(fr, st, i, args[0], args[1], ln)
            return self.ret(st, args[0])
        if base in PURE or n in PURE:
            return self.ret(st, self.fresh(t, base, tt, data=True) if t['k'] != 'void' else None)
        self.unknown_calls.add(base)
        raise Undecided('call of external function %s at %s' % (base, fr.fn.where(i)))
    def block_write(self, fr, st, i, p, n, taint, val=None):
        if n.cval() == 0: return
        if isinstance(p, Ptr) and p.o is not None and self.objs[p.o].kind == 'cells':
            c, k = self.norm(st, p.p).cval(), n.cval()
            if c is not None and k is not None:
                self.access(fr, st, i, p, n, 'W')
                self.write_cell(st, p.o, c, k, Vec([(taint, val.p.cval() & 255 if isinstance(val, Int) and val.p.cval() is not None else None)] * k)); return
        self.access(fr, st, i, p, n, 'W', Unk(taint, 'block'))
    def block_copy(self, fr, st, i, d, s, n):
        if n.cval() == 0: return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.o is not None and s.o is not None:
            k = n.cval(); co, so = self.norm(st, d.p).cval(), self.norm(st, s.p).cval()
            if k is not None and self.objs[d.o].kind == 'cells' and self.objs[s.o].kind == 'cells' and co is not None and so is not None:
                self.access(fr, st, i, s, n, 'R'); self.access(fr, st, i, d, n, 'W')
                src = [(a - so, v) for a, v in st.mem[s.o].items() if so <= a and a + v[0] <= so + k]
                for a in [a for a, (z, _) in st.mem[d.o].items() if a < co + k and a + z > co]:
                    c2 = dict(st.mem[d.o]); c2.pop(a); st.mem[d.o] = c2
                for a, (z, v) in src: self.write_cell(st, d.o, co + a, z, v)
                return
            if k is not None and k <= 64 and self.objs[d.o].kind == 'cells' and co is not None:
                self.access(fr, st, i, s, n, 'R')
                self.access(fr, st, i, d, n, 'W')
                g = self.objs[s.o]
                if g.kind == 'global' and so is not None:
                    gg, mod = g.meta
                    if gg and gg.get('const') and ('init' in gg or 'str' in gg):
                        for a in range(k):
                            v = None
                            if 'init' in gg: v = self.init_byte(gg['init'], mod, mod.types[gg['ty']], so + a)
                            elif so + a < len(gg['str']): v = ord(gg['str'][so + a])
                            self.write_cell(st, d.o, co + a, 1, Int(Poly.const(v), 8) if v is not None else self.fresh(dict(k='int', w=8, size=1), 'byte'))
                        return
                off = self.norm(st, s.p)
                self.write_cell(st, d.o, co, k, Vec([(frozenset([(s.o, off + x, 1)]), None) for x in range(k)]))
                return
        self.access(fr, st, i, s, n, 'R')
        off = self.norm(st, s.p) if isinstance(s, Ptr) else None
        val = Unk(frozenset([(s.o, ('copy', off), n)]) if isinstance(s, Ptr) else EMPTY, 'copy')
        self.access(fr, st, i, d, n, 'W', val)
    def init_byte(self, init, mod, ty, off):
        if init[0] == 'z': return 0
        if ty['k'] == 'int': return (int(init[2]) >> (8 * off)) & 255 if init[0] == 'i' else None
        if ty['k'] in ('array', 'vec') and init[0] == 'agg':
            et = mod.types[ty['e']]; k = off // et['size']
            return self.init_byte(init[2][k], mod, et, off - k * et['size']) if k < len(init[2]) else None
        return None
    def intrinsic(self, fr, st, i, n, args, t, tt):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.stack', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.x86.sse.sfence')): return self.ret(st)
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.block_copy(fr, st, i, args[0], args[1], self.U(st, args[2])); return self.ret(st)
        if n.startswith('llvm.memset'):
            self.block_write(fr, st, i, args[0], self.U(st, args[2]), taint_of(args[1], self.S) if not isinstance(args[1], bool) else EMPTY, args[1]); return self.ret(st)
        if n.startswith('llvm.expect'): return self.ret(st, args[0])
        if n.startswith('llvm.trap'): return [Outcome('throw', st, val=fr.fn.where(i))]
        if n.startswith('llvm.eh.'): return self.ret(st, self.fresh(t, 'eh') if t['k'] != 'void' else None)
        if t['k'] == 'vec' or any(isinstance(a, Vec) for a in args) or n.startswith(('llvm.x86', 'llvm.masked', 'llvm.vector', 'llvm.aarch64')):
            import simdsem; return simdsem.intrinsic(self, fr, st, i, n, args, t)
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            sg = n[5] == 's'; mx = n[6:9] == 'max'
            c = Cond('cmp', ('s' if sg else 'u') + ('gt' if mx else 'lt'), args[0], args[1])
            d = self.decide(st, c)
            if d is not None: return self.ret(st, args[0] if d else args[1])
            if self.is_data(c): return self.ret(st, self.merge_val(st, args[0], args[1], taint_of(c, self.S), (st, st)))
            raise Fork([[('cond', c, True)], [('cond', c, False)]])
        if '.with.overflow' in n:
            a, b = args
            if isinstance(a, Int) and isinstance(b, Int):
                op = n.split('.')[1]
                p = self.U(st, a) * self.U(st, b) if 'mul' in op else (self.U(st, a) + self.U(st, b) if 'add' in op else self.U(st, a) - self.U(st, b))
                w = a.w; hi = (1 << w) - 1
                if op[0] == 'u' and not self.is_data(a) and not self.is_data(b):
                    if w >= 64 and self.wrapsyms and p.syms() and set(p.syms()) <= self.wrapsyms:
                        q = Poly.const(hi) - p
                        if self.prove(st, q) and self.prove(st, p): return self.ret(st, Agg([Int(p, w), False]))
                        if self.prove(st, -q - 1): return self.ret(st, Agg([Int(p, w), True]))
                        raise Fork([[('ge', q), ('ge', p)], [('ge', -q - 1)]] + ([[('ge', -p - 1)]] if not self.prove(st, p) else []))
                    if w >= 64: return self.ret(st, Agg([Int(p, w), False]))
                    if self.prove(st, Poly.const(hi) - p) and self.prove(st, p): return self.ret(st, Agg([Int(p, w), False]))
                return self.ret(st, Agg([Int(p, w), Cond('data', tt)]))
            return self.ret(st, Agg([self.fresh(dict(k='int', w=64, size=8), 'ovf', tt), Cond('data', tt)]))
        if n.startswith(('llvm.abs', 'llvm.ctpop', 'llvm.ctlz', 'llvm.cttz', 'llvm.bswap', 'llvm.fabs', 'llvm.fmuladd', 'llvm.sqrt', 'llvm.floor', 'llvm.ceil', 'llvm.round', 'llvm.pow', 'llvm.rint', 'llvm.fma', 'llvm.minnum', 'llvm.maxnum', 'llvm.is.constant', 'llvm.objectsize', 'llvm.fshl', 'llvm.fshr', 'llvm.copysign', 'llvm.trunc', 'llvm.exp', 'llvm.log')):
            return self.ret(st, self.fresh(t, n, tt))
        raise Undecided('intrinsic %s at %s' % (n, fr.fn.where(i)))
    # ---- loops
    def fresh_like(self, v, name):
        if isinstance(v, Int): return Int(self.sym(name, 0, (1 << v.w) - 1 if v.w < 64 else None, EMPTY, self.is_data(v)), v.w)
        if isinstance(v, Ptr) and v.o is not None: return Ptr(v.o, self.sym(name))
        if isinstance(v, (bool, Cond)): return Cond('data', EMPTY)
        if isinstance(v, Vec): return Vec([(EMPTY, None)] * len(v.l))
        if isinstance(v, Cat): return Cat([(a, s, self.fresh_like(x, name)) for a, s, x in v.parts])
        if isinstance(v, Ptr): return Unk(EMPTY, 'ptr', 'null or advanced')
        if isinstance(v, Unk): return Unk(EMPTY, v.kind, v.why)
        if isinstance(v, Agg): return Agg([self.fresh_like(x, name) for x in v.v])
        if isinstance(v, Fn): return Unk(EMPTY, 'ptr', 'function pointer changed in loop')
        if isinstance(v, JoinPtr): return Unk(EMPTY, 'ptr', 'joined pointer in loop')
        return Unk()
    def getvar(self, st, key):
        if key[0] == 'phi': return st.env.get(key[1])
        if key[0] == 'cell':
            c = st.mem.get(key[1], {}).get(key[2])
            return c[1] if c else None
        if key[0] == 'size': return Int(st.size[key[1]], 64)
    def setvar(self, st, key, v):
        if key[0] == 'phi': st.env[key[1]] = v
        elif key[0] == 'cell':
            c = dict(st.mem[key[1]])
            c[key[2]] = (key[3], v); st.mem[key[1]] = c
        else: st.size[key[1]] = v.p
    def run_loop(self, fr, loop, st, pred, region):
        """summarise one natural loop entered from pred; outcomes 'exit', 'ret', 'throw'"""
        S = self.S
        ins = fr.fn.blocks[loop.header]
        phis = [i for i in ins if i['op'] == 'phi']
        init = {}
        for i in phis:
            for pb, o in i['inc']:
                if pb == pred: init[('phi', i['id'])] = self.val(fr, st, o); break
            else: raise Undecided('loop phi')
        for k, v in init.items(): st.env[k[1]] = v
        st.reads = {}
        carried = dict(init)
        # phase 1: discover what the loop changes and by how much
        self.dry += 1
        try:
            for _ in range(8):
                s1 = st.copy(); cur = {}
                for k, v in carried.items():
                    cur[k] = self.fresh_like(v, 'h'); self.setvar(s1, k, cur[k])
                outs = self.body(fr, loop, s1.copy(), region)
                lat = [o for o in outs if o.kind == 'latch']
                new = {}
                for o in lat:
                    for ob, cells in o.st.mem.items():
                        if ob not in s1.mem: continue
                        base = s1.mem[ob]
                        if cells is base: continue
                        for off, (n, v) in cells.items():
                            if off not in base or base[off][0] != n or base[off][1] != v:
                                k = ('cell', ob, off, n)
                                if k not in carried: new[k] = base[off][1] if off in base and base[off][0] == n else None
                    for ob, sz in o.st.size.items():
                        if ob in s1.size and s1.size[ob] != sz and ('size', ob) not in carried: new[('size', ob)] = Int(s1.size[ob], 64)
                if not new: break
                for k, v in new.items():
                    if v is None:
                        # cell first written in the loop: its content before is irrelevant or smaller pieces
                        v = Unk(EMPTY, 'x', 'uninitialised before loop')
                        n = k[3]
                        v = self.fresh(dict(k='int', w=8 * n, size=n), 'pre') if n in (1, 2, 4, 8) else v
                        cells = dict(st.mem[k[1]])
                        if k[2] not in cells: cells[k[2]] = (n, v); st.mem[k[1]] = cells
                        else:
                            # different granularity: merge
                            cells[k[2]] = (n, Unk(EMPTY, 'x')); st.mem[k[1]] = cells; v = Unk(EMPTY, 'x')
                    carried[k] = v
            else: raise Undecided('loop state does not stabilise at %s' % fr.fn.where(ins[0]))
            # deltas
            limit = len(S.s)
            forms = {}
            fresh_ids = set()
            for k, v in cur.items():
                if isinstance(v, (Int, Ptr)): fresh_ids |= v.p.syms()
            minfresh = min(fresh_ids) if fresh_ids else limit
            for k, v in carried.items():
                forms[k] = self.delta(k, v, cur[k], lat, minfresh)
        finally:
            self.dry -= 1
        if not lat:
            # body never returns to the header
            return self.finish_once(fr, loop, st, region)
        kid = S.new('k', 0, None); k = Poly.sym(kid)
        opaque = {key: carried[key] for key, f in forms.items() if f[0] == 'unk'}
        def closed(s, kp, fresh_op=True):
            for key, f in forms.items():
                v = carried[key]
                if f[0] == 'lin':
                    if isinstance(v, Ptr): self.setvar(s, key, Ptr(v.o, v.p + kp * f[1]))
                    else: self.setvar(s, key, Int(v.p + kp * f[1], v.w, v.taint))
                elif f[0] == 'rng':
                    z = self.sym('c', None, None, f[3], bool(f[3]) or f[4])
                    self.add(s, z - kp * f[1]); self.add(s, kp * f[2] - z)
                    if isinstance(v, Ptr): self.setvar(s, key, Ptr(v.o, v.p + z))
                    else: self.setvar(s, key, Int(v.p + z, v.w, v.taint))
                elif f[0] == 'same': self.setvar(s, key, v)
                elif f[0] == 'shift':   # value is expr(k-1) for k >= 1 and expr(-1) == init
                    p = f[1].subst({f[2]: kp - 1})
                    self.setvar(s, key, Ptr(v.o, p) if isinstance(v, Ptr) else Int(p, v.w))
                else:
                    self.setvar(s, key, self.with_taint(v, optaint.get(key, EMPTY), f, carried))
        optaint = {}
        # phase 2: taints of non-linear variables, exit tests
        self.dry += 1
        try:
            for rnd in range(4):
                recs = []
                s2 = st.copy(); closed(s2, k)
                def rec(f2, s, b, c, cont):
                    recs.append((b, s, c, cont))
                self.optimistic += 1
                try: outs = self.body(fr, loop, s2, region, rec=rec)
                finally: self.optimistic -= 1
                lat = [o for o in outs if o.kind == 'latch']
                ch = False
                # late closed forms: variables whose next value is a function of k
                for key, f in list(forms.items()):
                    if f[0] != 'unk' or rnd > 1: continue
                    v = carried[key]
                    vals = [self.next_val(fr, loop, key, o) for o in lat]
                    if vals and all(isinstance(x, (Int, Ptr)) and type(x) is type(v) and (not isinstance(x, Ptr) or x.o == v.o) for x in vals) and len(set(x.p for x in vals)) == 1:
                        p = vals[0].p
                        if all(s <= kid for s in p.syms()) and p.subst({kid: Poly.const(-1)}) == self.norm(s2, v.p):
                            forms[key] = ('shift', p, kid); ch = True
                for key, f in forms.items():
                    if f[0] != 'unk': continue
                    t = optaint.get(key, EMPTY)
                    nt = t
                    if isinstance(carried[key], Vec):
                        t = t or tuple([EMPTY] * len(carried[key].l)); nt = list(t)
                        for o in lat:
                            x = self.next_val(fr, loop, key, o)
                            if isinstance(x, Vec) and len(x.l) == len(nt):
                                for j in range(len(nt)): nt[j] = nt[j] | x.l[j][0]
                        nt = tuple(nt)
                    else:
                        for o in lat: nt = nt | taint_of(self.next_val(fr, loop, key, o), S) if not isinstance(self.next_val(fr, loop, key, o), bool) else nt
                    if nt != t: optaint[key] = nt; ch = True
                if not ch: break
        finally:
            self.dry -= 1
        cases = self.trip(st, recs, kid)
        results = []
        for (blk, cont, N, facts) in cases:
            s3 = st.copy()
            ok = all(self.add(s3, f) for f in facts)
            if not ok or (facts and not self.feasible(s3)): continue
            exits = []
            forced = {blk: fr.fn.blocks[blk][-1]['succ'][0 if cont else 1]} if blk is not None else {}
            # generic iteration
            lognew = ()
            if N is None or self.norm(s3, N).cval() != 0:
                sb = s3.copy(); closed(sb, k)
                okb = True
                if N is not None: okb = self.add(sb, N - 1 - k)
                if okb and (N is None or self.feasible(sb)):
                    pre = sb.log
                    outs = self.body(fr, loop, sb, region, forced=forced)
                    lats = [o for o in outs if o.kind == 'latch']
                    others = [o for o in outs if o.kind != 'latch']
                    if lats:
                        logs = [o.st.log[len(pre):] for o in lats]
                        lognew = self.wrap(self.inter(logs), kid, N)
                        for o in lats:
                            for ob, tt in o.st.bulk.items():
                                if ob in s3.bulk: s3.bulk[ob] = s3.bulk[ob] | tt
                    for o in others:
                        # earlier complete iterations: 0 .. k-1
                        if o.st.log[:len(pre)] == pre:
                            tail = o.st.log[len(pre):]
                            prev = lognew
                            k2 = S.new('k', 0, None)
                            prevk = tuple(self.rename(e, kid, k2, k) for e in lognew)
                            o.st.log = pre + prevk + tail
                        exits.append(o)
            # final, partial iteration with k = N
            if blk is not None:
                sx = s3.copy(); closed(sx, N)
                # variables that are unknown and the loop may not have run
                if self.feasible(sx):
                    sx.log = sx.log + lognew
                    ex = fr.fn.blocks[blk][-1]['succ'][1 if cont else 0]
                    outs = self.body(fr, loop, sx, region, forced={blk: ex})
                    for o in outs:
                        if o.kind == 'latch': continue
                        exits.append(o)
            results += exits
        return results
    def finish_once(self, fr, loop, st, region):
        return [o for o in self.body(fr, loop, st, region)]
    def rename(self, e, kid, k2, n):
        mp = {kid: Poly.sym(k2)}
        loops = tuple((k2, n) if a == kid else (a, b.subst(mp) if b is not None else None) for a, b in e.loops)
        return Event(e.rw, e.o, e.off.subst(mp), e.n.subst(mp), loops, e.val, e.loc)
    def wrap(self, log, kid, N):
        return tuple(e.with_loops(((kid, N),) + e.loops) for e in log)
    def canon(self, e):
        """key of an event up to the names of its loop counters"""
        if not e.loops: return e.key()
        mp = {}
        for j, (k, _) in enumerate(e.loops):
            while len(self.canonk) <= j: self.canonk.append(self.S.new('canonical counter'))
            mp[k] = Poly.sym(self.canonk[j])
        loops = tuple((self.canonk[j], n.subst(mp) if n is not None else None) for j, (k, n) in enumerate(e.loops))
        return (type(e).__name__, e.rw, e.o, e.off.subst(mp), e.n.subst(mp), loops)
    def rename_val(self, v, mp):
        def rt(t): return frozenset((a[0], a[1].subst(mp), a[2].subst(mp) if isinstance(a[2], Poly) else a[2]) if isinstance(a, tuple) and len(a) == 3 and isinstance(a[1], Poly) else a for a in t)
        if v is None or isinstance(v, bool): return v
        if isinstance(v, Vec): return Vec([(rt(a), c) for a, c in v.l])
        if isinstance(v, Cat): return Cat([(a, b, self.rename_val(x, mp)) for a, b, x in v.parts])
        if isinstance(v, Int) and not v.taint and not any(self.S[q].taint for q in v.p.syms()): return Int(v.p.subst(mp), v.w)
        t = rt(taint_of(v, self.S))
        return Unk(t, getattr(v, 'kind', 'x') if isinstance(v, Unk) else 'x')
    def inter(self, logs):
        if len(logs) == 1: return logs[0]
        out = []
        ks = [dict((self.canon(e), e) for e in l) for l in logs]
        done = set()
        for l in logs:
            for e in l:
                kk = self.canon(e)
                if kk in done: continue
                done.add(kk)
                if all(kk in d for d in ks):
                    vals = []
                    for d in ks:
                        f = d[kk]
                        mp = {a[0]: Poly.sym(b[0]) for a, b in zip(f.loops, e.loops) if a[0] != b[0]}
                        vals.append(self.rename_val(f.val, mp) if mp and f.rw == 'W' else f.val)
                    if isinstance(e, MayEvent): x = e
                    elif e.rw == 'W' and any(v is None for v in vals): x = Event(e.rw, e.o, e.off, e.n, e.loops, None, e.loc)
                    elif e.rw == 'W':
                        v = vals[0]
                        for y in vals[1:]:
                            if y != v: v = self.merge_val(State(), v, y, EMPTY, (State(), State()))
                        x = Event(e.rw, e.o, e.off, e.n, e.loops, v, e.loc)
                    else: x = e
                    out.append(x)
                else: out.append(may(e))
        return tuple(out)
    def next_val(self, fr, loop, key, o):
        if key[0] == 'phi':
            i = fr.fn.byid[key[1]]
            for pb, x in i['inc']:
                if pb == o.pred: return self.val(fr, o.st, x)
            raise Undecided('latch phi')
        v = self.getvar(o.st, key)
        return v if v is not None else Unk(EMPTY, 'x')
    def delta(self, key, init, cur, lat, minfresh):
        """('lin', d) | ('rng', lo, hi, taint, data) | ('same',) | ('unk',)"""
        frm = None
        fn = None
        vals = []
        for o in lat:
            if key[0] == 'phi': vals.append(self.next_val_raw(o, key))
            else: vals.append(self.next_val(None, None, key, o))
        if not isinstance(cur, (Int, Ptr)) or (isinstance(cur, Ptr) and cur.o is None):
            if all(type(v) is type(cur) and v == cur for v in vals): return ('same',)
            return ('unk',)
        ds = []; raw = []
        for v, o in zip(vals, lat):
            if isinstance(cur, Ptr):
                if not isinstance(v, Ptr) or v.o != cur.o: return ('unk',)
            elif not isinstance(v, Int): return ('unk',)
            elif v.taint: return ('unk',)
            d = self.norm(o.st, v.p) - self.norm(o.st, cur.p)
            ds.append(d); raw.append(v.p - cur.p)
        def inv1(s, depth=0): return s < minfresh or (depth < 8 and self.S[s].dep is not None and all(inv1(x, depth + 1) for x in self.S[s].dep))
        inv = lambda d: all(inv1(s) for s in d.syms())
        if all(inv(d) for d in ds):
            # equalities assumed inside the body are facts of its paths: one expression may read differently on each
            for c in dict.fromkeys(ds + raw):
                if inv(c) and all(self.norm(o.st, c) == d for o, d in zip(lat, ds)):
                    return ('lin', c) if c.t else ('same',)
            cs = [d.cval() for d in ds]
            if all(c is not None for c in cs): return ('rng', min(cs), max(cs), EMPTY, True)
        # bounded data-dependent steps
        los, his = [], []
        t = EMPTY
        cs = cur.p.syms()
        for d in ds:
            if d.syms() & cs: return ('unk',)
            lo, hi = self.P.interval(d)
            if lo is None or hi is None: return ('unk',)
            los.append(lo); his.append(hi)
            for s in d.syms(): t = t | self.S[s].taint
        return ('rng', min(los), max(his), t, True)
    def next_val_raw(self, o, key):
        i = self._phi_ins[key[1]] if False else None
        return o.val[key] if o.val else Unk()
    def with_taint(self, v, t, f, carried):
        if isinstance(v, Vec):
            if isinstance(t, frozenset): t = [t] * len(v.l)
            return Vec([(a[0] | x, None) for a, x in zip(v.l, t)])
        if isinstance(v, Int):
            return Int(self.sym('u', 0, (1 << v.w) - 1 if v.w < 64 else None, t | taint_of(v, self.S), True), v.w)
        if isinstance(v, Ptr):
            if v.o is not None: return Ptr(v.o, self.sym('uo', None, None, t, True))
            return Unk(t, 'ptr', 'loop variable')
        if isinstance(v, (bool, Cond)): return Cond('data', t | (taint_of(v, self.S) if not isinstance(v, bool) else EMPTY))
        if isinstance(v, Unk): return Unk(v.taint | t, v.kind, v.why or 'loop variable')
        if isinstance(v, Cat): return Cat([(a, s, self.with_taint(x, t, f, carried)) for a, s, x in v.parts])
        return Unk(t | taint_of(v, self.S), 'x')
    def body(self, fr, loop, st, region, forced=None, rec=None):
        f = dict(region.forced) if False else {}
        if forced: f.update(forced)
        r = Region(loop, None, f, rec)
        outs = self.walk(fr, st, loop.header, 'keep', r, first=True)
        for o in outs:
            if o.kind == 'latch':
                o.val = {}
                for i in fr.fn.blocks[loop.header]:
                    if i['op'] != 'phi': break
                    for pb, x in i['inc']:
                        if pb == o.pred: o.val[('phi', i['id'])] = self.val(fr, o.st, x)
        if len(outs) > 1 and not self.dry: outs = self.merge_outcomes_body(outs)
        elif len(outs) > 1: outs = self.merge_outcomes_body(outs)
        return outs
    def merge_outcomes_body(self, outs): return outs
    def trip(self, st, recs, kid):
        """list of (exit block, continue-on-true, N, facts)"""
        k = Poly.sym(kid); S = self.S
        seen = set()
        for (b, s, c, cont) in recs:
            if (b) in seen: continue
            same = [r for r in recs if r[0] == b]
            cs = c
            truth = cont
            while isinstance(cs, Cond) and cs.k == 'not': cs = cs.a[0]; truth = not truth
            if not isinstance(cs, Cond) or cs.k != 'cmp': continue
            pred, a, bb = cs.a
            if not truth: pred = INV[pred]
            if isinstance(a, Ptr) and isinstance(bb, Ptr):
                if a.o != bb.o: continue
                d = self.norm(s, a.p) - self.norm(s, bb.p)
            elif isinstance(a, Int) and isinstance(bb, Int):
                if self.is_data(a) or self.is_data(bb): continue
                d = self.norm(s, a.p) - self.norm(s, bb.p)
            else: continue
            def inv1(s, depth=0): return s <= kid or (depth < 8 and S[s].dep is not None and kid not in S[s].dep and all(inv1(x, depth + 1) for x in S[s].dep))
            if not all(inv1(x) for x in d.syms()): continue
            bk, a0 = d.coeff(kid)
            if kid in bk.syms() or not bk.t: continue
            seen.add(b)
            if not self.same_test(same, d): continue
            q = pred[-2:] if pred not in ('eq', 'ne') else pred
            if q == 'ne':
                N = (-a0).divexact(bk)
                if N is None: continue
                if self.prove(st, N): return [(b, cont, N, [])]
                return [(b, cont, N, [N]), (None, cont, None, [-N - 1])]
            if q == 'eq': continue
            # bring to continue while D < 0
            if q in ('gt', 'ge'): d2a, d2b = -a0, -bk
            else: d2a, d2b = a0, bk
            if q in ('le', 'ge'): d2a = d2a - 1
            cb = d2b.cval()
            if cb is None:
                if not self.prove(st, d2b - 1): continue
            elif cb <= 0: continue
            res = []
            z = d2a    # continue while z + step*k < 0
            if cb == 1: N = -z
            else:
                x = (-z).divexact(d2b)
                if x is not None: N = x
                else: N = None
            # case: at least one iteration
            f1 = [-z - 1]
            if N is None:
                nn = Poly.sym(self.S.new('n', 0, None, gen=lambda sm, z=z, d=d2b: np.ceil(np.clip(-sm.eval(z), 0, 1e15) / np.maximum(sm.eval(d), 1))))
                f1 = f1 + [nn * d2b + z, -z - 1 - (nn - 1) * d2b, nn - 1]
                N1 = nn
            else: N1 = N
            if self.prove(st, -z - 1): return [(b, cont, N1, f1[1:])]
            if self.prove(st, z): return [(b, cont, ZERO, [])]
            return [(b, cont, N1, f1), (b, cont, ZERO, [z])]
        return [(None, True, None, [])]

    def same_test(self, recs, d):
        """all recordings of one exit branch test the same difference"""
        for (_, s, c, _) in recs:
            while isinstance(c, Cond) and c.k == 'not': c = c.a[0]
            if not isinstance(c, Cond) or c.k != 'cmp': return False
            a, b = c.a[1], c.a[2]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: e = self.norm(s, a.p) - self.norm(s, b.p)
            elif isinstance(a, Int) and isinstance(b, Int): e = self.norm(s, a.p) - self.norm(s, b.p)
            else: return False
            if e != d: return False
        return True

class MayEvent(Event):
    __slots__ = ()
    def key(self): return ('may',) + Event.key(self)
    def with_loops(self, loops): return MayEvent(self.rw, self.o, self.off, self.n, loops, self.val, self.loc)
def may(e):
    if isinstance(e, MayEvent): return e
    return MayEvent(e.rw, e.o, e.off, e.n, e.loops, e.val, e.loc)

PURE = {'pow', 'sqrt', 'floor', 'ceil', 'fabs', 'exp', 'log', 'sin', 'cos', 'tan', 'atan2', 'round', 'lround', 'std::pow', 'std::sqrt', 'std::abs', 'abs', 'powf', 'sqrtf', 'std::isnan'}
