"""Integer polynomials over symbols and the relational (polyhedral) prover of the abstract interpreter.

A symbol stands for an unknown integer of the analysed program (an image width, a loop counter, a pixel value).
Entailment of linear facts over monomials is decided by the Farkas lemma: a goal g >= 0 follows from facts
f_i >= 0 if g = c0 + sum(c_i * f_i) with c >= 0.  The multipliers come from a floating point LP and are then
re-checked in exact rational arithmetic, so an answer 'yes' never rests on rounding."""
import time
from fractions import Fraction
BUDGET = (100, 160)     # seconds of linear programming per function: first only the simplest programs, then none
import numpy as np
from scipy.optimize import linprog
import scipy.sparse as sp

class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'taint', 'data', 'dep', 'gen', 'raw')
class Symbols:
    def __init__(self): self.s = []
    def new(self, name, lo=None, hi=None, taint=frozenset(), data=False, gen=None):
        x = Sym(); x.id = len(self.s); x.name = name; x.lo = lo; x.hi = hi; x.taint = taint; x.data = data or bool(taint); x.dep = None; x.gen = gen; x.raw = False
        self.s.append(x); return x.id
    def __getitem__(self, i): return self.s[i]

class Poly:
    __slots__ = ('t', '_h')
    def __init__(self, t): self.t = t; self._h = None
    @staticmethod
    def const(c): return Poly({(): c}) if c else ZERO
    @staticmethod
    def sym(i): return Poly({(i,): 1})
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __add__(self, o):
        if isinstance(o, int):
            if o == 0: return self
            o = Poly.const(o)
        if not self.t: return o
        if not o.t: return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: del t[m]
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, int): return self + (-o)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({m: c * o for m, c in self.t.items()}) if o else ZERO
        if len(o.t) == 1 and () in o.t: return self * o.t[()]
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 or m2
                v = t.get(m, 0) + c1 * c2
                if v: t[m] = v
                else: t.pop(m, None)
        return Poly(t)
    __rmul__ = __mul__
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self):
        """constant value or None"""
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def c0(self): return self.t.get((), 0)
    def syms(self):
        r = set()
        for m in self.t: r.update(m)
        return r
    def degree(self): return max((len(m) for m in self.t), default=0)
    def subst(self, mp):
        """replace symbols by polys"""
        if not mp or not any(s in mp for m in self.t for s in m): return self
        r = {}
        for m, c in self.t.items():
            if any(s in mp for s in m):
                p = Poly({(): c})
                for s in m: p = p * (mp[s] if s in mp else Poly.sym(s))
                for mm, cc in p.t.items():
                    v = r.get(mm, 0) + cc
                    if v: r[mm] = v
                    else: r.pop(mm, None)
            else:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
        return Poly(r)
    def coeff(self, s):
        """(coefficient poly of symbol s (degree 1 part), rest)"""
        a = {}; b = {}
        for m, c in self.t.items():
            if s in m:
                l = list(m); l.remove(s)
                a[tuple(l)] = a.get(tuple(l), 0) + c
            else: b[m] = c
        return Poly(a), Poly(b)
    def divexact(self, d):
        """exact polynomial quotient or None"""
        if not d.t: return None
        if not self.t: return ZERO
        if d.is_const():
            c = d.cval()
            if all(v % c == 0 for v in self.t.values()): return Poly({m: v // c for m, v in self.t.items()})
            return None
        rem = self; q = ZERO
        key = lambda m: (len(m), m)
        lm = max(d.t, key=key); lc = d.t[lm]
        for _ in range(50):
            if not rem.t: return q
            m = max(rem.t, key=key); c = rem.t[m]
            l = list(m)
            for s in lm:
                if s in l: l.remove(s)
                else: return None
            if c % lc: return None
            t = Poly({tuple(l): c // lc})
            q = q + t; rem = rem - t * d
        return None
    def show(self, S):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            n = '*'.join(S[s].name for s in m)
            if not n: out.append(str(c))
            elif c == 1: out.append(n)
            elif c == -1: out.append('-' + n)
            else: out.append('%s*%s' % (c, n))
        return ' + '.join(out).replace('+ -', '- ')
ZERO = Poly({})
ONE = Poly({(): 1})

LARGE = 1 << 24
class Samples:
    """Concrete points of the symbol space.  A point that satisfies all facts but not the goal shows that the goal is not
    entailed, which saves the (expensive, failing) linear program.  Never used to accept a goal."""
    K = 4000
    LIMIT = 1 << 61
    def __init__(self, S):
        self.S = S; self.col = {}; self.rng = np.random.default_rng(7); self.masks = {(): np.ones(self.K, dtype=bool)}; self.ev = {}
    def column(self, s):
        c = self.col.get(s)
        if c is None:
            x = self.S[s]
            if x.gen is not None: c = x.gen(self)
            else:
                lo = x.lo if x.lo is not None else -4
                g = self.rng.geometric(0.3, self.K) - 1
                c = (lo + g).astype(np.int64)
                if x.hi is not None: c = np.minimum(c, min(x.hi, 1 << 40))
            self.col[s] = c
        return c
    def eval(self, p):
        r = self.ev.get(p)
        if r is None:
            r = np.zeros(self.K)
            for m, c in p.t.items():
                v = np.full(self.K, float(c))
                for s in m: v = v * self.column(s)
                r = r + v
            self.ev[p] = r
            if len(self.ev) > 20000: self.ev.clear()
        return r
    def exact(self, p, lo, m):
        """p reduced modulo m into lo .. lo + m - 1, in Python integers"""
        r = np.zeros(self.K, dtype=object)
        for mo, c in p.t.items():
            v = np.full(self.K, c, dtype=object)
            for s in mo: v = v * self.column(s)
            r = r + v
        return np.array([(int(x) - lo) % m + lo for x in r], dtype=np.int64)
    def mask(self, facts):
        r = self.masks.get(facts)
        if r is None:
            n = len(facts) - 1
            if n > 0 and facts[:n] not in self.masks:
                r = np.ones(self.K, dtype=bool)
                for f in facts: r = r & (self.eval(f) >= 0)
            else: r = self.mask(facts[:n]) & (self.eval(facts[n]) >= 0)
            if len(self.masks) > 20000: self.masks = {(): np.ones(self.K, dtype=bool)}
            self.masks[facts] = r
        return r
    def refutes(self, facts, goal):
        m = self.mask(facts)
        if not m.any(): return False
        v = self.eval(goal)
        return bool((m & (v < 0) & (np.abs(v) < 1e15)).any())

class Prover:
    def __init__(self, S):
        self.S = S; self.spent = 0.0; self.cache = {}; self.stat = dict(queries=0, lp=0, hits=0, refuted=0); self.samples = Samples(S)
        self.M = S.new('2^31', 65536, None, gen=lambda s: np.full(s.K, 1 << 31))
    def interval(self, p):
        """constant bounds of p from symbol bounds"""
        lo = hi = 0
        for m, c in p.t.items():
            l, h = c, c
            if m:
                a, b = 1, 1   # product interval
                ok = True
                for s in m:
                    sl, sh = self.S[s].lo, self.S[s].hi
                    if a is None and b is None: break
                    # only nonneg symbols are multiplied precisely
                    if sl is not None and sl >= 0 and a is not None and a >= 0:
                        a = a * sl
                        b = b * sh if (b is not None and sh is not None) else None
                    elif len(m) == 1:
                        a, b = sl, sh
                    elif sl is not None and sh is not None and a is not None and b is not None:
                        v = [a * sl, a * sh, b * sl, b * sh]; a, b = min(v), max(v)
                    else: a = b = None
                if c > 0: l, h = (a * c if a is not None else None), (b * c if b is not None else None)
                else: l, h = (b * c if b is not None else None), (a * c if a is not None else None)
            lo = lo + l if (lo is not None and l is not None) else None
            hi = hi + h if (hi is not None and h is not None) else None
        return lo, hi
    def prove(self, facts, goal, deg=None):
        """facts: iterable of Poly (>=0); goal: Poly.  True if goal >= 0 follows."""
        c = goal.cval()
        if c is not None and c >= 0: return True
        lo, hi = self.interval(goal)
        if lo is not None and lo >= 0: return True
        self.stat['queries'] += 1
        facts = tuple(dict.fromkeys(facts))
        if self.samples.refutes(facts, goal):
            self.stat['refuted'] += 1; return False
        key = (goal, frozenset(facts))
        if key in self.cache:
            self.stat['hits'] += 1; return self.cache[key]
        t0 = time.time()
        r = self._lp(facts, goal) if self.spent < BUDGET[1] else False
        self.spent += time.time() - t0
        self.cache[key] = r
        return r
    def infeasible(self, facts):
        """True if the facts are contradictory"""
        return self.prove(facts, Poly.const(-1))
    def _relevant(self, facts, goal):
        syms = set(goal.syms())
        if not syms:
            return facts
        rel = []; rest = list(facts)
        for _ in range(4):
            add = [f for f in rest if f.syms() & syms]
            if not add: break
            ids = set(map(id, add))
            rest = [f for f in rest if id(f) not in ids]
            rel += add
            for f in add: syms |= f.syms()
        return rel
    def big(self, p):
        """p with multiples of 2^31 written as multiples of a symbol (keeps the linear programs well conditioned)"""
        if all(-LARGE < c < LARGE for c in p.t.values()): return p
        r = {}
        for m, c in p.t.items():
            a = (c + (1 << 30)) >> 31
            if -LARGE < c < LARGE or a == 0: r[m] = r.get(m, 0) + c
            else:
                n = tuple(sorted(m + (self.M,))); r[n] = r.get(n, 0) + a
                if c != a << 31: r[m] = r.get(m, 0) + c - (a << 31)
        return Poly(r)
    def _lp(self, facts, goal):
        S = self.S
        rel = [self.big(f) for f in self._relevant(facts, goal)]
        goal = self.big(goal)
        base = list(rel)
        syms = set(goal.syms())
        for f in rel: syms |= f.syms()
        bounds = {}
        for s in syms:
            x = S[s]
            if x.lo is not None: base.append(Poly({(s,): 1, (): -x.lo}) if x.lo else Poly({(s,): 1}))
            if x.hi is not None: base.append(self.big(Poly({(s,): -1, (): x.hi})))
        # multipliers: symbols in nonlinear monomials (nonnegative ones only), in growing sets
        nonneg = lambda x: S[x].lo is not None and S[x].lo >= 0 and x != self.M
        gm = set(); fm = set()
        for m in goal.t:
            if len(m) >= 2: gm.update(m)
        for f in rel:
            for m in f.t:
                if len(m) >= 2: fm.update(m)
        hop = set()
        if gm:
            for f in rel:
                for m in f.t:
                    if len(m) >= 2 and gm & set(m): hop.update(m)
        sets = []
        if goal.is_const() or not gm:
            if fm: sets = [fm]
        else: sets = [gm | hop, gm | fm]
        plan = [(0, ())]
        for ms in sets:
            ms = tuple(sorted(x for x in ms if nonneg(x)))
            for stage in (1, 2):
                if ms and (stage, ms) not in plan: plan.append((stage, ms))
        if self.spent > BUDGET[0]: plan = plan[:1]
        for stage, ms in plan:
            fs = list(dict.fromkeys(base))
            if stage >= 1:
                lin = [f for f in fs if f.degree() <= (1 if stage == 1 else 2)]
                for s in ms:
                    ps = Poly.sym(s)
                    for f in lin: fs.append(f * ps)
                fs = list(dict.fromkeys(fs))
            if len(fs) > 4000: continue
            if self._solve(fs, goal): return True
        return False
    def _solve(self, fs, goal, again=3):
        self.stat['lp'] += 1
        S = self.S
        mons = {}
        for m in goal.t:
            if m: mons.setdefault(m, len(mons))
        # prune: iteratively keep facts whose monomials connect
        use = fs
        for f in use:
            for m in f.t:
                if m: mons.setdefault(m, len(mons))
        # nonnegative monomials as facts
        nn = []
        for m in mons:
            if len(m) >= 2 and all(S[s].lo is not None and S[s].lo >= 0 for s in m): nn.append(Poly({m: 1}))
        cols = list(dict.fromkeys(use + nn))
        nrow = len(mons) + 1
        # scale constants: unknown slack for the constant row
        ri = []; ci = []; v = []
        for j, f in enumerate(cols):
            for m, c in f.t.items():
                ri.append(mons[m] if m else nrow - 1); ci.append(j); v.append(float(c))
        # slack column: constant 1
        ri.append(nrow - 1); ci.append(len(cols)); v.append(1.0)
        A = sp.csr_matrix((v, (ri, ci)), shape=(nrow, len(cols) + 1))
        b = np.zeros(nrow)
        for m, c in goal.t.items(): b[mons[m] if m else nrow - 1] = float(c)
        cost = np.full(len(cols) + 1, 1.0); cost[-1] = 0.0
        try:
            r = linprog(cost, A_eq=A, b_eq=b, bounds=(0, None), method='highs')
        except Exception:
            return False
        if r.status != 0: return False
        x = r.x
        sup = [j for j in range(len(cols)) if x[j] > 1e-11]
        if self._exact([cols[j] for j in sup], [x[j] for j in sup], goal): return True
        # the solution leans on the solver's tolerance: retry without the facts that got negligible multipliers
        small = set(cols[j] for j in sup if x[j] < 1e-6)
        if small and again: return self._solve([f for f in fs if f not in small], goal, again - 1)
        return False
    def _exact(self, fs, xs, goal):
        for den in (1, 12, 1000, 10**6):
            rem = {m: Fraction(c) for m, c in goal.t.items()}
            for f, x in zip(fs, xs):
                l = Fraction(x).limit_denominator(den)
                if l == 0: continue
                for m, c in f.t.items():
                    rem[m] = rem.get(m, 0) - l * c
            ok = True
            for m, c in rem.items():
                if m == (): ok = ok and c >= 0
                elif c != 0: ok = False
                if not ok: break
            if ok: return True
        # exact solve on the support
        import sympy
        mons = sorted(set(m for f in fs for m in f.t if m) | set(m for m in goal.t if m))
        if len(fs) > 60 or len(mons) > 80: return False
        M = sympy.Matrix([[f.t.get(m, 0) for f in fs] for m in mons])
        bb = sympy.Matrix([goal.t.get(m, 0) for m in mons])
        try:
            sol, params = M.gauss_jordan_solve(bb)
        except Exception:
            return False
        sol = sol.subs({p: 0 for p in params})
        if any(s < 0 for s in sol): return False
        const = goal.t.get((), 0) - sum(s * f.t.get((), 0) for s, f in zip(sol, fs))
        return const >= 0
