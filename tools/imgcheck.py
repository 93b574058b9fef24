"""Region, coverage, correspondence, validation and reduction checks of the image functions (properties I01 - I07).

Every public function of image_function.cpp and image_function_simd.cpp is interpreted abstractly (absint.py) from a
fully symbolic call: arbitrary images, arbitrary 32 bit coordinates.  The access log of each path is then compared with
what the property says about the region the signature designates."""
import re, sys, time, os, itertools, json, traceback, multiprocessing as mp
import numpy as np
import ir, absint, imgmodel
from absint import *
from imgmodel import *

# ---------------------------------------------------------------- roles of the parameters
class Role:
    """an image parameter and the region it is given"""
    def __init__(self, idx, name, const): self.idx = idx; self.name = name; self.const = const; self.x = self.y = self.w = self.h = None; self.info = None
TRANSPOSED = ('Transpose',)
def roles(fn, op, params):
    """params: parse_params without 'this'.  Returns (roles, trailing parameter indices) or None if the signature is not understood"""
    rs = []; trail = []; i = 0; n = len(params)
    while i < n:
        k, es, const, nm = params[i]
        if k != 'image': trail.append(i); i += 1; continue
        r = Role(i, nm, const); j = i + 1
        run = []
        while j < n and params[j][0] in ('u32',) : run.append(j); j += 1
        i = j
        if op in ('Rotate',):   # centre coordinates separate origin and size
            pass
        r.run = run; rs.append(r)
    return rs, trail

FULLSIG = {}
def assign(op, rs, params, ret_image):
    """distribute runs of 32 bit numbers over the regions; returns 'full' | 'conv' | None"""
    if not rs: return None
    if op == 'Rotate': return assign_rotate(rs, params)
    if op == 'SetPixel' or op == 'GetPixel':
        r = rs[0]
        if len(r.run) == 2: r.x, r.y = r.run; r.w = r.h = 'one'
        return 'full'
    runs = [len(r.run) for r in rs]
    dil = 2 if op in ('BinaryDilate', 'BinaryErode') else 0
    rs_ = [len(r.run) for r in rs]
    if dil: rs[0].extra = rs[0].run[-2:]; rs[0].run = rs[0].run[:-2]; rs_[0] -= 2
    if op == 'Resize':
        if len(rs) == 2 and rs_ == [4, 4]:
            for r in rs: r.x, r.y, r.w, r.h = r.run
            return 'full'
        return 'conv'
    if all(c == 0 for c in rs_): return 'conv'
    if not all(c == 2 for c in rs_[:-1]): return None
    if rs_[-1] == 4:
        w, h = rs[-1].run[2:]
        for r in rs: r.x, r.y = r.run[:2]; r.w, r.h = w, h
        if op in TRANSPOSED and len(rs) == 2: rs[1].w, rs[1].h = h, w
        return 'conv' if ret_image else 'full'
    return None
def assign_rotate(rs, params):
    # in, x, y, cx, cy, out, x, y, cx, cy, width, height, angle
    kinds = [p[0] for p in params]
    if len(rs) == 2 and [len(r.run) for r in rs] == [2, 2] and kinds[-3:] == ['u32', 'u32', 'f64']:
        w, h = len(params) - 3, len(params) - 2
        for r in rs: r.x, r.y = r.run; r.w, r.h = w, h
        return 'full'
    return 'conv'

# ---------------------------------------------------------------- what the operations are supposed to do
VALIDC = (1, 3, 4)
EQ, GRAY, RGB3, RGBA4, ANY = 'eq', (1,), (3,), (4,), VALIDC
COLOUR = {  # per image, in signature order: 'eq' = same valid count in all images marked eq
 'AbsoluteDifference': [EQ, EQ, EQ], 'Accumulate': [ANY], 'BinaryDilate': [GRAY], 'BinaryErode': [GRAY], 'BitwiseAnd': [EQ] * 3, 'BitwiseOr': [EQ] * 3, 'BitwiseXor': [EQ] * 3,
 'ConvertTo16Bit': [EQ, EQ], 'ConvertTo8Bit': [EQ, EQ], 'ConvertToGrayScale': [ANY, GRAY], 'ConvertToRgb': [ANY, RGB3], 'Copy': [EQ, EQ], 'ExtractChannel': [ANY, GRAY], 'Fill': [ANY],
 'Flip': [GRAY, GRAY], 'GammaCorrection': [EQ, EQ], 'Histogram': [ANY], 'Histogram2': [ANY, GRAY], 'Invert': [EQ, EQ], 'IsBinary': [GRAY], 'IsEqual': [EQ, EQ], 'LookupTable': [EQ, EQ],
 'Maximum': [EQ] * 3, 'Minimum': [EQ] * 3, 'Subtract': [EQ] * 3, 'Merge': [GRAY, GRAY, GRAY, RGB3], 'Split': [RGB3, GRAY, GRAY, GRAY], 'Normalize': [EQ, EQ], 'ProjectionProfile': [ANY],
 'ReplaceChannel': [GRAY, RGB3], 'Resize': [EQ, EQ], 'RgbToBgr': [RGB3, RGB3], 'RgbToRgba': [RGB3, RGBA4], 'RgbaToRgb': [RGBA4, RGB3], 'Rotate': [GRAY, GRAY], 'SetPixel': [ANY], 'GetPixel': [ANY],
 'Shift': [GRAY, GRAY], 'Sum': [GRAY], 'Threshold': [GRAY, GRAY], 'Transpose': [GRAY, GRAY],
}

class Ctx: pass
def entry_names(hdr):
    t = re.sub(r'//.*|/\*.*?\*/', '', open(os.path.join(ir.REPO, 'src', hdr)).read(), flags=re.S) if False else re.sub(r'/\*.*?\*/', '', open(os.path.join(ir.REPO, 'src', hdr)).read(), flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    return set(re.findall(r'\b([A-Za-z_]\w*)\s*\(', t))

SAMPLE_SEEDS = 6
def counterexample(m, facts, goal, pred=None):
    """concrete values of the symbols that satisfy the facts and not goal >= 0; None if none was found.
    Symbols that stand for a loss of precision of the analysis disqualify the search."""
    syms = set(goal.syms())
    for f in facts: syms |= f.syms()
    if pred: 
        for x in pred[1]: syms |= x.syms()
    gs = closure(m, facts, set().union(*[x.syms() for x in pred[1]])) if pred else closure(m, facts, goal.syms()) if goal.syms() else syms
    if any(havoc(m, s) for s in gs): return None
    from poly import Samples
    facts = tuple(facts)
    for seed in range(SAMPLE_SEEDS):
        if seed == 0: sm = m.P.samples
        else:
            sm = m.resample.get(seed)
            if sm is None:
                sm = m.resample[seed] = Samples(m.S); sm.K = 12000; sm.rng = np.random.default_rng(100 + seed); sm.masks = {(): np.ones(sm.K, dtype=bool)}
        mask = np.ones(sm.K, dtype=bool)
        for f in facts: mask &= sm.eval(f) >= 0
        if pred:
            vs = [sm.eval(x) for x in pred[1]]
            for v in vs: mask &= np.abs(v) < 1e15
            mask &= ~pred[0](*[v.astype(np.int64) for v in vs])
        else:
            v = sm.eval(goal); mask &= (v < 0) & (np.abs(v) < 1e15)
        if mask.any():
            i = int(np.argmax(mask))
            return {m.S[s].name + '#%d' % s: int(sm.column(s)[i]) for s in sorted(syms)}
    return None
def closure(m, facts, syms):
    syms = set(syms); ch = True
    while ch:
        ch = False
        for f in facts:
            s = f.syms()
            if s & syms and not s <= syms: syms |= s; ch = True
    return syms
PRECISE = re.compile(r'^(k|n|q|R|2\^31)$')
def havoc(m, s):
    x = m.S[s]
    if x.dep and x.name == 'wrapped': return any(havoc(m, q) for q in x.dep)
    if x.gen is not None or x.raw: return False
    return not (x.name in ('k', 'n', 'q', 'R', '2^31') or getattr(m, 'params', {}).get(s))

class Finding:
    """one judgement: kind 'ok' | 'bad' | 'unknown'"""
MAXSAME = 3
CURRENT = [None]
class Result:
    def __init__(self): self.ok = {}; self.bad = []; self.unk = []; CURRENT[0] = self
    def good(self, prop, n=1): self.ok[prop] = self.ok.get(prop, 0) + n
    def fail(self, prop, where, what, ce=None):
        x = [b for b in self.bad if b[:2] == (prop, where)]
        if len(x) < MAXSAME and not any(b[2] == what for b in x): self.bad.append((prop, where, what, ce))
    def unknown(self, prop, where, what):
        x = [b for b in self.unk if b[:2] == (prop, where)]
        if len(x) < MAXSAME and not any(b[2] == what for b in x): self.unk.append((prop, where, what))
    def has_bad(self, prop, where): return sum(1 for b in self.bad if b[:2] == (prop, where)) >= MAXSAME
    def settle(self, m, prop, where, what, facts, goal, pred=None):
        """goal >= 0 could not be proved: violation if a counterexample exists"""
        if self.has_bad(prop, where): return
        ce = counterexample(m, facts, goal, pred) if not m.lossy else None
        if ce is not None: self.fail(prop, where, what, {k: v for k, v in ce.items() if not k.startswith('2^31')})
        else: self.unknown(prop, where, what)

def eqp(m, st, a, b):
    d = m.norm(st, a - b); c = d.cval()
    if c is not None: return c == 0
    return m.prove(st, d) and m.prove(st, -d)

# ---------------------------------------------------------------- positions
class Geo:
    """geometry of one image region: origin, size, row pitch (Polys, bytes and elements)"""
    def __init__(self, R, C, W, H, es, x, y, w, h, data, name):
        self.R, self.C, self.W, self.H, self.es, self.x, self.y, self.w, self.h, self.data, self.name = R, C, W, H, es, x, y, w, h, data, name
def split(m, st, g, off):
    """byte offset -> (row, byte column) relative to the image origin, syntactically; None if not linear in the row size"""
    R = m.norm(st, g.R * g.es); off = m.norm(st, off)
    if len(R.t) == 1 and R.degree() == 1:
        mon, c = next(iter(R.t.items()))
        a, b = off.coeff(mon[0])
        if all(v % c == 0 for v in a.t.values()): return Poly({k: v // c for k, v in a.t.items()}), b
    # row size is known as an expression (W*C): exact division of the part that is divisible
    return None
def loopst(m, st, loops):
    """state extended by the ranges of the loop counters; None if empty"""
    s = st.copy()
    for k, n in loops:
        if n is not None and not m.add(s, n - 1 - Poly.sym(k)): return None
    return s
def is_full(m, st, g):
    """region rows are complete memory rows"""
    return eqp(m, st, g.R, g.w * g.C)

def inside(m, st, g, off, n):
    """goals that show that [off, off+n) lies in the region"""
    sp = split(m, st, g, off)
    goals = []
    if sp is not None:
        r, c = sp
        a = [r - g.y, g.y + g.h - 1 - r, c - g.x * g.C * g.es, (g.x + g.w) * g.C * g.es - c - n]
        if all(m.prove(st, p) for p in a): return None
        goals = a
    if is_full(m, st, g):
        a = [off - g.y * g.R * g.es, (g.y + g.h) * g.R * g.es - off - n]
        if all(m.prove(st, p) for p in a): return None
        return [p for p in a if not m.prove(st, p)]
    # whole-image region: bounds of the object are the region up to padding
    return [p for p in goals if not m.prove(st, p)] or [Poly.const(-1)]

# ---------------------------------------------------------------- one-dimensional sets of accesses
class Set1:
    """{ base + sum d_j*k_j + t : 0 <= k_j < N_j, 0 <= t < n }"""
    __slots__ = ('b', 'n', 'loops', 'ev')
    def __init__(self, b, n, loops, ev): self.b = b; self.n = n; self.loops = loops; self.ev = ev
def norm_loops(m, st, poly, loops):
    """(base, [(N, d, k)]) of a poly linear in its loop counters; None if not representable"""
    out = []; p = m.norm(st, poly)
    ks = [k for k, _ in loops]
    for k, N in loops:
        a, rest = p.coeff(k)
        if any(k2 in a.syms() for k2 in ks): return None
        if k in rest.syms(): return None
        if N is None: return None
        N = m.norm(st, N)
        if any(k2 in N.syms() for k2 in ks): 
            if a.t: return None
        p = rest
        if a.t and N.cval() != 1: out.append((N, a, k))
    return p, out
def reduce_sets(m, st, sets, exact=True):
    """merge sets into intervals where possible"""
    sets = list(sets)
    ch = True
    while ch:
        ch = False
        # contiguous innermost loop
        for s in sets:
            for x in list(s.loops):
                N, d, k = x
                if eqp(m, st, d, s.n): s.n = s.n * N; s.loops = [y for y in s.loops if y is not x]; ch = True; break
                if not exact and d.cval() is not None and s.n.cval() is not None and 0 < d.cval() < s.n.cval():      # overlapping steps cover at least this
                    s.n = d * N; s.loops = [y for y in s.loops if y is not x]; ch = True; break
                if eqp(m, st, d, -s.n): s.b = s.b + d * (N - 1); s.n = s.n * N; s.loops = [y for y in s.loops if y is not x]; ch = True; break
            if ch: break
        if ch: continue
        # adjacent pieces of the same iteration
        for a, b in itertools.permutations(sets, 2):
            if len(a.loops) != len(b.loops) or not a.loops: continue
            d = m.norm(st, b.b - a.b - a.n)
            if d.cval() != 0 and (d.t and not (d.cval() is None and eqp(m, st, d, ZERO))): continue
            if same_loops(m, st, a.loops, b.loops):
                a.n = a.n + b.n; a.ev = a.ev + b.ev; sets.remove(b); ch = True; break
    return sets
def same_loops(m, st, la, lb):
    rest = list(lb)
    for N, d, k in la:
        for y in rest:
            if eqp(m, st, d, y[1]) and eqp(m, st, N, y[0]): rest.remove(y); break
        else: return False
    return True
def chain(m, st, sets, lo, hi, exact):
    """do the (loop free) sets cover [lo, hi)?  returns (covered, first position not covered, unused sets)"""
    cur = m.norm(st, lo); rest = [s for s in sets if not s.loops]; bad = [s for s in sets if s.loops]
    for _ in range(200):
        if eqp(m, st, cur, hi) or (not exact and m.prove(st, cur - hi)): return True, cur, rest + bad
        for s in rest:
            if m.norm(st, s.n).cval() == 0: continue
            if eqp(m, st, s.b, cur): nxt = s.b + s.n
            elif not exact and m.prove(st, cur - s.b) and m.prove(st, s.b + s.n - cur): nxt = s.b + s.n
            else: continue
            rest.remove(s); cur = m.norm(st, nxt); break
        else: return False, cur, rest + bad
    return False, cur, rest + bad
def coverage(m, st, g, events, exact):
    """do the access events cover the region g (every element once if exact)?
    returns ('ok',), ('gap', text) or ('unknown', text)"""
    # several sets of the same event key count once
    uniq = {}
    for e in events: uniq.setdefault(e.key(), e)
    evs = list(uniq.values())
    es = g.es
    two = []; flat = False
    for e in evs:
        sp = split(m, st, g, e.off)
        if sp is None: flat = True; break
        r, c = sp
        rn = norm_loops(m, st, r, [(k, n) for k, n in e.loops if k in r.syms()])
        cn = norm_loops(m, st, c, [(k, n) for k, n in e.loops if k in c.syms()])
        if rn is None or cn is None or r.syms() & c.syms() & set(k for k, _ in e.loops): return ('unknown', 'access pattern of %s not representable' % where(e))
        two.append((rn, Set1(cn[0], m.norm(st, e.n), cn[1], [e]), e))
    full = is_full(m, st, g)
    if not flat:
        # group by row set
        groups = []
        for rn, s, e in two:
            for gr in groups:
                if eqp(m, st, gr[0][0], rn[0]) and len(gr[0][1]) == len(rn[1]) and same_loops(m, st, gr[0][1], rn[1]): gr[1].append(s); break
            else: groups.append((rn, [s]))
        x0 = g.x * g.C * es; x1 = (g.x + g.w) * g.C * es
        rows = []; why = None
        for rn, ss in groups:
            ss = reduce_sets(m, st, ss, exact)
            ok, cur, left = chain(m, st, ss, x0, x1, exact)
            if ok and (not exact or not left): rows.append(Set1(rn[0], ONE, list(rn[1]), [])); continue
            why = ('gap', 'columns from %s of the region are not covered' % (cur - x0).show(m.S), cur, x1, left) if not ok else ('twice', 'an element is visited twice')
            if exact: break
        if not (exact and why):
            rows = reduce_sets(m, st, rows, exact)
            ok, cur, left = chain(m, st, rows, g.y, g.y + g.h, exact)
            if ok and (not exact or not left): return ('ok',)
            why = why or (('gap', 'rows from %s of the region are not covered' % (cur - g.y).show(m.S), cur, g.y + g.h, left) if not ok else ('twice', 'a row is visited twice'))
        if not full: return why or ('gap', 'no access covers the region', None, None, [])
    if full:
        ss = []
        for e in evs:
            x = norm_loops(m, st, e.off, e.loops)
            if x is None: return ('unknown', 'access pattern of %s not representable' % where(e))
            ss.append(Set1(x[0], m.norm(st, e.n), x[1], [e]))
        ss = reduce_sets(m, st, ss, exact)
        lo = m.norm(st, g.y * g.R * es); hi = m.norm(st, (g.y + g.h) * g.R * es)
        ok, cur, left = chain(m, st, ss, lo, hi, exact)
        if ok and (not exact or not left): return ('ok',)
        if ok: return ('twice', 'an element is visited twice')
        return ('gap', 'elements from %s of the region are not covered' % m.norm(st, cur - lo).show(m.S), cur, hi, left)
    return ('unknown', 'row pitch is not separable')
def where(e): return e.loc[0].where(e.loc[1])

# ---------------------------------------------------------------- correspondence
def atoms_of(m, val, n, es):
    """[(byte index in the stored value, atoms)]"""
    if isinstance(val, Vec): return [(j, l[0], l[1]) for j, l in enumerate(val.l)]
    if isinstance(val, Cat):
        out = []
        for a, s, v in val.parts: out += [(a + j, t, c) for j, t, c in atoms_of(m, v, s, es)]
        return out
    if val is None: return [(0, None, None)]
    c = val.p.cval() if isinstance(val, Int) else (0 if isinstance(val, bool) else None)
    t = taint_of(val, m.S) if not isinstance(val, bool) else EMPTY
    return [(j, t, c) for j in range(0, n if isinstance(n, int) else 1, es)]
POINT = {'AbsoluteDifference', 'BitwiseAnd', 'BitwiseOr', 'BitwiseXor', 'ConvertTo16Bit', 'ConvertTo8Bit', 'Copy', 'GammaCorrection', 'Invert', 'LookupTable', 'Maximum', 'Minimum', 'Subtract', 'Normalize', 'Threshold'}
def residue(p, q):
    return p.c0() % q if all(c % q == 0 for k, c in p.t.items() if k) else None
def relation(op, m, st, ctx, si, di, c):
    """for destination image di, source image si: function (r, c elements) -> list of allowed (r', c') polys, or 'any'/None.
    c is the destination element column (Poly)"""
    P = lambda p: p
    if op in POINT: return lambda r, c, C: [(r, c)]
    if op == 'Transpose': return lambda r, c, C: [(c, r)]
    if op == 'Flip':
        g = ctx.geo[di]
        hz, vt = [m.norm(st, s) for s in ctx.bools]
        if hz.cval() is None or vt.cval() is None:
            if m.prove(st, hz - 1): hz = ONE
            elif m.prove(st, -hz): hz = ZERO
            if m.prove(st, vt - 1): vt = ONE
            elif m.prove(st, -vt): vt = ZERO
        if hz.cval() is None or vt.cval() is None: return None
        return lambda r, c, C: [(g.h - 1 - r if vt.cval() else r, g.w - 1 - c if hz.cval() else c)]
    if op == 'ExtractChannel': return lambda r, c, C: [(r, C * c + ctx.channel)]
    if op == 'Split': return lambda r, c, C: [(r, 3 * c + (di - 1))]
    return 'scaled'
def scaled(op, m, st, ctx, si, di, c, c2, C, Cd):
    """relations where the source column is not a function of the destination column alone; True/False/None"""
    d = None
    if op == 'ConvertToGrayScale':
        d = m.norm(st, c2 - C * c).cval(); Cc = m.norm(st, C).cval()
        return None if d is None else 0 <= d < min(3, Cc or 3)
    if op == 'ConvertToRgb':
        Cc = m.norm(st, C).cval()
        if Cc == 1:
            d = m.norm(st, c - 3 * c2).cval(); return None if d is None else 0 <= d < 3
        if Cc == 3:
            d = m.norm(st, c - c2).cval(); return None if d is None else d == 0
        if Cc == 4: return scaled('RgbaToRgb', m, st, ctx, si, di, c, c2, C, Cd)
        return None
    if op == 'Merge': d = m.norm(st, c - 3 * c2).cval(); return None if d is None else d == si
    if op == 'ReplaceChannel':
        d = m.norm(st, c - 3 * c2 - ctx.channel); d = d.cval(); return None if d is None else d == 0
    if op == 'RgbToBgr':
        r = residue(m.norm(st, c), 3); d = m.norm(st, c2 - c).cval()
        return None if r is None or d is None else d == 2 - 2 * r
    if op in ('RgbToRgba', 'RgbaToRgb'):
        a, b = (3, 4) if op == 'RgbToRgba' else (4, 3)     # source, destination channels
        r = residue(m.norm(st, c), b); d = m.norm(st, b * c2 - a * c).cval()
        return None if r is None or d is None else d == r * (b - a) and r < 3
    return None
def scaled_pred(op, si, ch):
    """the relation of scaled() on concrete columns"""
    rgba = lambda c, c2, C: c2 == 4 * (c // 3) + c % 3
    P = {'ConvertToGrayScale': lambda c, c2, C: (c2 - C * c >= 0) & (c2 - C * c < np.minimum(3, C)),
         'ConvertToRgb': lambda c, c2, C: np.where(C == 1, c2 == c // 3, np.where(C == 3, c2 == c, (C != 4) | rgba(c, c2, C))),
         'Merge': lambda c, c2, C: (c2 == c // 3) & (c % 3 == si),
         'RgbToBgr': lambda c, c2, C: c2 == c + 2 - 2 * (c % 3),
         'RgbToRgba': lambda c, c2, C: (c % 4 < 3) & (c2 == 3 * (c // 4) + c % 4), 'RgbaToRgb': rgba}
    return P.get(op)
INPLACE = {'Fill', 'SetPixel', 'BinaryDilate', 'BinaryErode'}

def rel_elem(m, p, es):
    """bytes -> elements: exact quotient after removing the constant rest"""
    if es == 1: return p
    b = p.c0() % es
    q = (p - b).divexact(Poly.const(es))
    return q
def position(m, st, g, off):
    """('2d', row, column bytes) or ('flat', bytes) relative to the region"""
    sp = split(m, st, g, off)
    if sp is not None: return ('2d', m.norm(st, sp[0] - g.y), m.norm(st, sp[1] - g.x * g.C * g.es))
    return ('flat', m.norm(st, off - (g.y * g.R + g.x * g.C) * g.es))
def check_atom(m, st, ctx, op, si, di, doff, soff):
    """is the source byte soff allowed for the destination byte doff?  True / False / None"""
    gd, gs = ctx.geo[di], ctx.geo[si]
    pd, ps = position(m, st, gd, doff), position(m, st, gs, soff)
    hz = vt = None
    if pd[0] == '2d': r, cb = pd[1], pd[2]
    elif ps[0] == '2d':
        if op == 'Transpose':
            r = rel_elem(m, ps[2], gs.es)
            if r is None: return None
        elif op == 'Flip':
            v = m.norm(st, ctx.bools[1]).cval()
            if v is None: return None
            r = gd.h - 1 - ps[1] if v else ps[1]
        else: r = ps[1]
        cb = m.norm(st, pd[1] - r * gd.R * gd.es)
    else: r, cb = ZERO, pd[1]
    c = rel_elem(m, cb, gd.es)
    if c is None: return None
    both_flat = pd[0] == 'flat' and ps[0] == 'flat'
    if both_flat and op in ('Transpose', 'Flip'): return None
    if both_flat and not (is_full(m, st, gd) and is_full(m, st, gs)): return None
    rel = relation(op, m, st, ctx, si, di, c)
    if rel is None: return None
    C = m.norm(st, gs.C)
    def srow(r2):
        """source column elements if its row is r2"""
        if ps[0] == '2d':
            x = m.norm(st, ps[1] - r2)
            if x.t and not eqp(m, st, x, ZERO): return False
            return rel_elem(m, ps[2], gs.es)
        return rel_elem(m, m.norm(st, ps[1] - r2 * gs.R * gs.es), gs.es)
    if rel == 'scaled':
        c2 = srow(r)
        if c2 is False or c2 is None: return c2
        r = scaled(op, m, st, ctx, si, di, c, c2, C, gd.C)
        return ('cmp', c, c2, C) if r is None else r
    for r2, cc in rel(r, c, C):
        c2 = srow(r2)
        if c2 is None: return None
        if c2 is False: continue
        if eqp(m, st, c2, cc): return True
    return False
def closed_form(m, st, p):
    """only precise symbols: a mismatch is then a real one"""
    return not any(havoc(m, s) for s in m.norm(st, p).syms())

def expected_sources(op, ctx, di, m, st, jr):
    """indices of the images every destination element must depend on"""
    srcs = [i for i, r in enumerate(ctx.rs) if r.const]
    if op == 'Merge':
        return None
    return srcs

# ---------------------------------------------------------------- analysis of one function
def full_signature(name, fn, params):
    """does fn have an explicit region for each of its images?"""
    ret = any('sret' in a for a in fn.args)
    rs_t = roles(fn, name, params)
    kind = assign(name, rs_t[0], params, ret)
    return kind
def scalar(v, sym): return Int(sym, v.w) if isinstance(v, Int) else v

def analyse(mods, lay, fn, op, simd=None, opts=None):
    """all judgements about one full-form function"""
    res = Result(); t0 = time.time()
    params = [p for p in parse_params(fn) if p[0] != 'this']
    m = Machine(mods); mdl = Models(m, lay); m.resample = {}
    stats = dict(paths=0, throws=0, obligations=0, accesses=0)
    rs, trail = roles(fn, op, params); ret_image = any('sret' in a for a in fn.args) and 'ImageTemplate' in str([a for a in fn.args if 'sret' in a])
    kind = assign(op, rs, params, any('sret' in a for a in fn.args))
    ns = fn.dem.split('::')[0]
    def delegate(m_, fr, st, i, f2, base, args):
        """call of the scalar function of the same operation: recorded, not entered"""
        p = base.split('::')
        if len(p) != 2 or p[1] != op or p[0] not in ('Image_Function', 'Image_Function_Simd', 'simd'): return None
        if f2 is fn and ns != 'simd': return None
        if p[0] == ns and ns != 'simd' and not f2.decl and not opts_get(opts, 'stub_own'): return None
        st2 = st.copy()
        st2.log = st2.log + (Event('D', -1, ZERO, ZERO, (), (base, f2.dem, tuple(args)), (fr.fn, i)),)
        v = None
        t = m_.ty(fr, i['ty'])
        if t['k'] != 'void': v = m_.fresh(t, 'delegated')
        return [Outcome('ret', st2, val=v), Outcome('throw', st.copy(), val='delegate')]
    def simdtype(m_, fr, st, i, f2, base, args):
        if base != 'simd::actualSimdType': return None
        return [Outcome('ret', st, val=Int(m_.sym('simd type', 0, 4), 32))]
    m.contracts.insert(0, delegate); m.contracts.insert(0, simdtype)
    n = len(rs)
    # ---- run with all images present
    st, args, info = imgmodel.setup(m, mdl, fn, [False] * n, simd)
    m.params = {s: True for s in range(len(m.S.s))}
    byidx = dict(enumerate(info))
    ctx = Ctx(); ctx.rs = rs; ctx.op = op; ctx.params = params
    ctx.bools = [i['sym'] for i in info if i['kind'] == 'bool']
    u8 = [i['sym'] for i in info if i['kind'] == 'u8']; ctx.channel = u8[0] if u8 else None
    imgs = [i for i in info if i['kind'] == 'image']
    for r, im in zip(rs, imgs): r.info = im
    def num(x):
        if x == 'one': return ONE
        return byidx[x]['sym']
    ctx.geo = []
    for r in rs:
        im = r.info
        if r.x is None: ctx.geo.append(Geo(im['R'], im['C'], im['W'], im['H'], im['es'], ZERO, ZERO, im['W'], im['H'], im['data'], r.name))
        else: ctx.geo.append(Geo(im['R'], im['C'], im['W'], im['H'], im['es'], num(r.x), num(r.y), num(r.w), num(r.h), im['data'], r.name))
    dataidx = {g.data: i for i, g in enumerate(ctx.geo)}
    ctx.dataidx = dataidx
    writable = {i for i, r in enumerate(rs) if not r.const}
    seen_w = [0]
    def onaccess(mm, fr, s, ins, o, off, nn, rw, val):
        if o.id not in dataidx or rw != 'W': return
        i = dataidx[o.id]; loc = fr.fn.where(ins)
        if i not in writable: res.fail('I01', loc, 'writes the input image %s' % rs[i].name); return
        if kind not in ('full',): return
        g = ctx.geo[i]; seen_w[0] += 1
        bad = inside(mm, s, g, off, nn)
        if bad is None: res.good('I01')
        else:
            for b in bad: res.settle(mm, 'I01', loc, 'write outside the region of %s (offset %s, size %s)' % (rs[i].name, off.show(mm.S), nn.show(mm.S)), s.facts, mm.norm(s, b))
    m.onaccess = onaccess
    outs = m.call(fn, args, st)
    m.onaccess = None
    stats['accesses'] = m.accesses
    rets = [o for o in outs if o.kind == 'ret']; throws = [o for o in outs if o.kind == 'throw']
    stats['paths'] = len(rets); stats['throws'] = len(throws)
    # I01: bounds
    for kx, r in m.obl.items():
        stats['obligations'] += 1
        loc = r['fn'].where(r['ins'])
        res.good('I01', r['ok'])
        for b in r['bad']:
            what = '%s: %s' % (r['obj'], b[0])
            res.fail_or_unknown = None
            if b[2] is None: res.fail('I01', loc, '%s of %s' % (r['what'], r['obj'])); continue
            for goal in b[3]: res.settle(m, 'I01', loc, '%s of %s (%s)' % (r['what'], r['obj'], b[0]), b[2], goal)
    if kind == 'full': judge(m, fn, op, ctx, res, rets, throws, info, stats)
    # ---- I05: empty images
    if kind == 'full':
        for k in range(n):
            m2 = Machine(mods); mdl2 = Models(m2, lay); m2.contracts.insert(0, delegate); m2.contracts.insert(0, simdtype); m2.resample = {}
            em = [False] * n; em[k] = True
            st2, args2, info2 = imgmodel.setup(m2, mdl2, fn, em, simd)
            m2.params = {s: True for s in range(len(m2.S.s))}
            try: o2 = m2.call(fn, args2, st2)
            except Undecided as e: res.unknown('I05', fn.where(None), 'empty image %s: %s' % (rs[k].name, e)); continue
            r2 = [o for o in o2 if o.kind == 'ret' and not any(e.rw == 'D' for e in o.st.log) and m2.feasible(o.st)]
            if not r2: res.good('I05')
            for o in r2[:1]: res.settle(m2, 'I05', fn.where(None), 'returns normally although image %s is empty' % rs[k].name, o.st.facts, Poly.const(-1))
    stats['time'] = time.time() - t0; stats['lp'] = m.P.stat['lp']; stats['lossy'] = m.lossy
    return res, stats
def opts_get(o, k): return bool(o and o.get(k))

def validity(m, st, op, ctx, info):
    """[(text, kind, poly)] conditions under which the call is valid"""
    v = []
    hist2 = op == 'Histogram' and len(ctx.rs) == 2
    spec = COLOUR.get('Histogram2' if hist2 else op)
    for i, (r, g) in enumerate(zip(ctx.rs, ctx.geo)):
        v += [('region of %s ends within its width' % r.name, 'ge', g.W - g.x - g.w), ('region of %s ends within its height' % r.name, 'ge', g.H - g.y - g.h),
              ('region of %s is not empty' % r.name, 'ge', g.w - 1), ('region of %s is not empty' % r.name, 'ge', g.h - 1)]
        if spec and i < len(spec):
            s = spec[i]
            if s == EQ:
                if i and spec[i - 1] == EQ: v.append(('%s and %s have the same colour count' % (ctx.rs[i - 1].name, r.name), 'eq', ctx.geo[i - 1].C - g.C))
                v.append(('colour count of %s is 1, 3 or 4' % r.name, 'in', (g.C, VALIDC)))
            else: v.append(('colour count of %s is %s' % (r.name, ' or '.join(map(str, s))), 'in', (g.C, s)))
    return v
def holds(m, st, kind, x):
    """True / goals not proved"""
    if kind == 'ge': return True if m.prove(st, x) else [x]
    if kind == 'eq':
        return True if eqp(m, st, x, ZERO) else [p for p in (x, -x) if not m.prove(st, p)]
    C, vals = x
    lo, hi = min(vals), max(vals)
    c = m.norm(st, C).cval()
    if c is not None: return True if c in vals else [Poly.const(-1)]
    if m.prove(st, C - lo) and m.prove(st, Poly.const(hi) - C):
        for q in range(lo, hi + 1):
            if q in vals: continue
            s2 = st.copy()
            if m.add_eq(s2, C - q) and m.feasible(s2) and not any(m.norm(s2, z).cval() == 0 for z in s2.ne): return [('state', s2)]
        return True
    return [p for p in (C - lo, Poly.const(hi) - C) if not m.prove(st, p)]
def apply_valid(m, st, conds):
    """state extended by the validity conditions: list of states (colour counts enumerated)"""
    sts = [st.copy()]
    for _, k, x in conds:
        nx = []
        for s in sts:
            if k == 'in':
                for q in x[1]:
                    s2 = s.copy()
                    if m.add_eq(s2, x[0] - q): nx.append(s2)
            else:
                if m.assume(s, k, x): nx.append(s)
        sts = nx
    return sts

NO_CONVERSE = {'Histogram', 'SetPixel', 'GetPixel', 'Rotate', 'Resize', 'Shift'}
def judge(m, fn, op, ctx, res, rets, throws, info, stats):
    conds = validity(m, None, op, ctx, info) if op not in ('SetPixel',) or ctx.rs[0].x is not None else []
    here = fn.where(None)
    known = op in COLOUR
    outs_idx = [i for i, r in enumerate(ctx.rs) if not r.const]
    for o in rets:
        st = o.st
        if not m.feasible(st): continue
        deleg = [e for e in st.log if e.rw == 'D']
        if deleg:
            judge_delegation(m, fn, op, ctx, res, o, deleg, info); continue
        # I05 forward
        if known:
            for text, k, x in conds:
                h = holds(m, st, k, x)
                if h is True: res.good('I05'); continue
                for goal in h:
                    if isinstance(goal, tuple): res.settle(m, 'I05', here, 'returns normally although not: %s' % text, goal[1].facts, Poly.const(-1))
                    else: res.settle(m, 'I05', here, 'returns normally although not: %s' % text, st.facts, m.norm(st, goal))
        ev_w = [e for e in st.log if e.rw == 'W' and e.o in ctx.dataidx]
        # I03
        if op not in ('BinaryDilate', 'BinaryErode') and not (op == 'SetPixel' and ctx.rs[0].x is None):
            for i in outs_idx:
                g = ctx.geo[i]
                if op == 'ReplaceChannel': continue
                ev = [e for e in ev_w if ctx.dataidx[e.o] == i and not isinstance(e, absint.MayEvent)]
                c = coverage(m, st, g, ev, False)
                report(m, res, 'I03', here, 'output %s: ' % ctx.rs[i].name, st, c)
        # I04
        if op in POINT or op in MOVES:
            for n, e in enumerate(ev_w): correspond(m, fn, op, ctx, res, st, e, [x for x in ev_w[n + 1:] if x.o == e.o])
        # I06
        if op in REDUCE:
            v = o.val
            if op in ('IsEqual', 'IsBinary') and (v is False or isinstance(v, Int) and v.p.cval() == 0): continue
            for i, g in enumerate(ctx.geo):
                if not ctx.rs[i].const: continue
                ev = [e for e in st.log if e.rw == 'R' and e.o == g.data and (not isinstance(e, absint.MayEvent) )]
                if op == 'Histogram' and len(ctx.rs) == 2 and i == 0: ev = [e for e in st.log if e.rw == 'R' and e.o == g.data]
                c = coverage(m, st, g, ev, True)
                report(m, res, 'I06', here, 'input %s: ' % ctx.rs[i].name, st, c)
            if op in ('ProjectionProfile', 'Accumulate'): cells(m, fn, op, ctx, res, st, o, info)
    # throws
    seen = {}
    for o in throws:
        key = str(o.val)
        if not (op == 'SetPixel' and ctx.rs[0].x is None) and any(e.rw == 'W' and e.o in ctx.dataidx for e in o.st.log):
            if m.feasible(o.st): res.settle(m, 'I05', str(o.val), 'throws after changing pixels of an image', o.st.facts, Poly.const(-1))
        if o.val == 'delegate' or not known or op in NO_CONVERSE: continue
        extra = extra_valid(m, op, ctx, info)
        if extra is None: continue
        ok = True
        for s in apply_valid(m, o.st, conds + extra):
            if m.feasible(s):
                ok = False
                res.settle(m, 'I05', str(o.val), 'refuses valid arguments', s.facts, Poly.const(-1)); break
        if ok: res.good('I05')
def extra_valid(m, op, ctx, info):
    """further preconditions of an operation besides its regions"""
    g = ctx.geo[0]
    vecs = [i for i in info if i['kind'] == 'vec']
    v = []
    for q in ctx.geo: v.append(('row fits', 'ge', Poly.const(LIM) - q.W * q.C))
    if op == 'LookupTable': v.append(('table has 256 entries', 'eq', vecs[0]['n'] - 256))
    elif op == 'Accumulate': v.append(('one cell per element', 'eq', vecs[0]['n'] - g.w * g.C * g.h))
    elif op == 'ExtractChannel': v.append(('channel exists', 'ge', g.C - 1 - ctx.channel))
    elif op == 'ReplaceChannel': v.append(('channel exists', 'ge', ctx.geo[1].C - 1 - ctx.channel))
    elif op == 'Threshold' or op == 'GammaCorrection': return None if op == 'GammaCorrection' or len([i for i in info if i['kind'] == 'u8']) == 2 else v
    return v
def report(m, res, prop, here, pre, st, c):
    if c[0] == 'ok': res.good(prop)
    elif c[0] == 'unknown': res.unknown(prop, here, pre + c[1])
    elif c[0] == 'twice': res.settle(m, prop, here, pre + c[1], st.facts, Poly.const(-1))
    else:
        cur, hi = c[2], c[3]
        # a real gap: the uncovered position lies before the end
        if cur is None: res.settle(m, prop, here, pre + c[1], st.facts, Poly.const(-1))
        else:
            left = c[4]
            if left and any(havoc(m, s) for x in left for s in (x.b.syms() | x.n.syms())): res.unknown(prop, here, pre + c[1]); return
            res.settle(m, prop, here, pre + c[1], st.facts, m.norm(st, cur - hi))
def overwritten(m, st, e, j, later):
    """is byte j stored by event e stored again later in every execution (so its value does not matter)?"""
    for e2 in later:
        if isinstance(e2, absint.MayEvent) or len(e2.loops) != len(e.loops) or any(a[0] != b[0] for a, b in zip(e.loops, e2.loops)): continue
        d, n = m.norm(st, e.off + j - e2.off).cval(), m.norm(st, e2.n).cval()
        if d is not None and n is not None and 0 <= d < n: return True
    if not e.loops: return False
    (k, N), outer = e.loops[-1], e.loops[:-1]
    n = m.norm(st, e.n).cval(); d, rest = m.norm(st, e.off).coeff(k); d = d.cval()
    if d is None or n is None or N is None or k in rest.syms() or not 0 < d <= j < n: return False
    s = loopst(m, st, outer)
    if s is None: return False
    pos = rest + (N - 1) * d + j; sets = []
    for e2 in later:
        if isinstance(e2, absint.MayEvent) or len(e2.loops) < len(outer) or any(a[0] != b[0] for a, b in zip(outer, e2.loops)): continue
        x = norm_loops(m, s, e2.off, e2.loops[len(outer):])
        if x is not None: sets.append(Set1(x[0], m.norm(s, e2.n), x[1], [e2]))
    for x in reduce_sets(m, s, sets, False):
        if not x.loops and m.prove(s, m.norm(s, pos - x.b)) and m.prove(s, m.norm(s, x.b + x.n - 1 - pos)): return True
    return False
def by_element(parts, es):
    if es == 1 or not all(t is not None for _, t, _ in parts): return parts
    out = {}
    for j, t, c in parts:
        o = out.get(j // es)
        out[j // es] = (t if o is None else o[0] | t, c if o is None or o[1] == c else None)
    return [(k * es, t, c) for k, (t, c) in sorted(out.items())]
def correspond(m, fn, op, ctx, res, st, e, later=()):
    di = ctx.dataidx[e.o]
    g = ctx.geo[di]
    s = loopst(m, st, e.loops)
    if s is None: return
    loc = where(e)
    nn = m.norm(st, e.n).cval()
    val = e.val
    srcs = [i for i, r in enumerate(ctx.rs) if r.const]
    if ctx.rs[di].const: return
    if op == 'Threshold' and val is not None and not taint_of(val, m.S): res.good('I04'); return      # a threshold every value is on one side of
    if nn is None and not (isinstance(val, Unk) and val.kind == 'copy'): res.unknown('I04', loc, 'block write'); return
    for j, taint, const in by_element(atoms_of(m, val, nn if nn is not None else 1, g.es), g.es):
        if taint is None: res.unknown('I04', loc, 'value not tracked'); return
        dead = None
        doff = e.off + j
        got = set()
        for a in taint:
            if not isinstance(a, tuple) or len(a) != 3: continue
            o, soff, sn = a
            if o not in ctx.dataidx:
                if m.objs[o].kind in ('image', 'heap'): res.unknown('I04', loc, 'value passes through %s' % m.objs[o].label); return
                continue
            si = ctx.dataidx[o]
            if isinstance(soff, tuple): soff = soff[1]
            if si == di and not ctx.rs[si].const: continue
            ok = check_atom(m, s, ctx, op, si, di, doff, soff)
            if op == 'Normalize' and ok is not True: continue      # minimum and maximum of the region
            if ok is True: got.add(si); res.good('I04')
            elif ok is False:
                if dead is None: dead = overwritten(m, st, e, j, later)
                if dead: continue
                if closed_form(m, s, doff) and closed_form(m, s, soff):
                    res.settle(m, 'I04', loc, 'destination byte %d: source %s at offset %s stored at offset %s of %s' % (j, ctx.rs[si].name, m.norm(s, soff).show(m.S), m.norm(s, doff).show(m.S), ctx.rs[di].name), s.facts, Poly.const(-1))
                else: res.unknown('I04', loc, 'position not comparable')
            elif isinstance(ok, tuple) and scaled_pred(op, si, None) and closed_form(m, s, doff) and closed_form(m, s, soff):
                if dead is None: dead = overwritten(m, st, e, j, later)
                if not dead: res.settle(m, 'I04', loc, 'destination byte %d: source %s at offset %s stored at offset %s of %s' % (j, ctx.rs[si].name, m.norm(s, soff).show(m.S), m.norm(s, doff).show(m.S), ctx.rs[di].name), s.facts, ZERO, (scaled_pred(op, si, None), ok[1:]))
            else: res.unknown('I04', loc, 'position not comparable')
        need = srcs
        if op == 'Merge' or op == 'Normalize': need = got or srcs[:1]
        if op == 'RgbToRgba':
            p = position(m, s, g, doff); cb = p[2] if p[0] == '2d' else p[1]
            if residue(m.norm(s, cb), 4) == 3: need = []
        miss = [ctx.rs[i].name for i in need if i not in got]
        if miss and dead is None: dead = overwritten(m, st, e, j, later)
        if miss and not dead and not any(u[0] == 'I04' and u[1] == loc for u in res.unk) and not any(b[0] == 'I04' and b[1] == loc for b in res.bad):
            res.settle(m, 'I04', loc, 'value stored in byte %d does not depend on %s' % (j, ', '.join(miss)), s.facts, Poly.const(-1))
def cells(m, fn, op, ctx, res, st, o, info):
    g = ctx.geo[0]; vec = [i for i in info if i['kind'] == 'vec']
    if not vec: return
    vec = vec[0]
    for e in st.log:
        if e.rw != 'W' or not m.objs[e.o].kind == 'vec': continue
        s = loopst(m, st, e.loops)
        if s is None: continue
        loc = where(e); nn = m.norm(st, e.n).cval()
        if nn is None: continue
        for j, taint, const in atoms_of(m, e.val, nn, 4):
            if taint is None: res.unknown('I06', loc, 'value not tracked'); continue
            cell = rel_elem(m, m.norm(s, e.off + j), 4)
            for a in taint:
                if not isinstance(a, tuple) or len(a) != 3 or a[0] != g.data: continue
                soff = a[1]
                if isinstance(soff, tuple) or cell is None: res.unknown('I06', loc, 'cell not comparable'); continue
                p = position(m, s, g, soff)
                ok = cell_ok(m, s, op, ctx, g, p, cell)
                if ok is True: res.good('I06')
                elif ok is False and closed_form(m, s, cell) and closed_form(m, s, soff):
                    res.settle(m, 'I06', loc, 'element at offset %s is added into cell %s' % (m.norm(s, soff).show(m.S), cell.show(m.S)), s.facts, Poly.const(-1))
                else: res.unknown('I06', loc, 'cell not comparable')
def cell_ok(m, s, op, ctx, g, p, cell):
    if op == 'Accumulate':
        if p[0] == '2d': want = p[1] * g.w * g.C + p[2]
        elif is_full(m, s, g): want = p[1]
        else: return None
        return eqp(m, s, cell, want)
    hz = m.norm(s, ctx.bools[0]) if ctx.bools else ONE
    if hz.cval() is None:
        if m.prove(s, hz - 1): hz = ONE
        elif m.prove(s, -hz): hz = ZERO
        else: return None
    if p[0] != '2d': return None
    return eqp(m, s, cell, p[2] if hz.cval() else p[1])
def judge_delegation(m, fn, op, ctx, res, o, deleg, info):
    st = o.st; here = where(deleg[0])
    if len(deleg) > 1 or any(e.rw == 'W' and e.o in ctx.dataidx for e in st.log):
        res.unknown('I03', here, 'delegates more than once or besides writing itself'); return
    args = list(deleg[0].val[2]); callee = deleg[0].val[0]
    sret = 1 if any('sret' in a for a in fn.args) else 0
    args = args[sret:]
    if callee.startswith('simd::'):
        t = args.pop() if args else None
        own = [i for i in info if i['kind'] == 'simd']
        tv = m.norm(st, t.p) if isinstance(t, Int) else None
        if own and tv is not None and tv.cval() is not None:
            if tv.cval() <= own[0]['value']: res.settle(m, 'D02', here, 'calls itself with instruction set %s' % tv.cval(), st.facts, Poly.const(-1)); return
            res.good('D02')
        elif not own and tv is not None and [m.S[q].name for q in tv.syms()] == ['simd type']: res.good('D02')
        elif tv is not None and tv.cval() is not None: res.settle(m, 'D02', here, 'instruction set is not the one the processor check selected', st.facts, Poly.const(-1))
        else: res.unknown('D02', here, 'instruction set argument')
    info = [i for i in info if i['kind'] != 'simd']
    if len(args) != len(info): res.unknown('I03', here, 'delegates to another form'); return
    for a, i in zip(args, info):
        if i['kind'] in ('image', 'vec'):
            ok = isinstance(a, Ptr) and a.o == i['obj'] and m.norm(st, a.p).cval() == 0
            bad = isinstance(a, Ptr)
        elif i['kind'] in ('u32', 'u8', 'u16', 'i32'):
            ok = isinstance(a, Int) and eqp(m, st, a.p, i['sym']); bad = isinstance(a, Int) and closed_form(m, st, a.p)
        elif i['kind'] == 'bool':
            if isinstance(a, bool): a = Int(ONE if a else ZERO, 8)
            if isinstance(a, Cond): ok = a == Cond('cmp', 'ne', Int(i['sym'], 8), Int(ZERO, 8)); bad = False; ok = ok or (m.decide(st, a) is not None and m.norm(st, i['sym']).cval() == (1 if m.decide(st, a) else 0))
            else: ok = isinstance(a, Int) and eqp(m, st, a.p, i['sym']); bad = True
        else: ok = True; bad = False
        if ok: res.good('I03'); continue
        if bad:
            for q in ('I03', 'I04', 'I06'): res.settle(m, q, here, 'hands over a different argument for %s' % i['name'], st.facts, Poly.const(-1))
        else: res.unknown('I03', here, 'argument %s not comparable' % i['name'])

# ---------------------------------------------------------------- driver
SCALAR = dict(src=['image_function.cpp', 'image_function_helper.cpp'], hdr='image_function.h', ns=('Image_Function',), sets=(), flags=[])
SIMD = dict(src=['image_function_simd.cpp', 'image_function.cpp', 'image_function_helper.cpp'], hdr='image_function_simd.h', ns=('Image_Function_Simd', 'simd'), sets=('avx512', 'avx', 'sse', 'cpu'), flags=['-march=skylake-avx512'])
def load(cfg):
    mods = [ir.load(ir.compile_ir(os.path.join(ir.REPO, 'src', s), cfg['flags'])) for s in cfg['src']]
    return mods
def simd_enum():
    t = open(os.path.join(ir.REPO, 'src', 'image_function_helper.h')).read()
    x = re.search(r'enum\s+SIMDType\s*\{([^}]*)\}', t)
    if not x: raise RuntimeError('enum SIMDType not found')
    out = {}; v = -1
    for p in x.group(1).split(','):
        p = re.sub(r'//.*', '', p).strip()
        if not p: continue
        if '=' in p: p, q = [y.strip() for y in p.split('=')]; v = int(q, 0)
        else: v += 1
        out[p] = v
    return out
def entries(cfg, mods):
    """(function, operation, parameters, instruction set or None)"""
    names = entry_names(cfg['hdr']); out = []
    for f in mods[0].defined():
        b = ir.base_name(f.dem).split('::')
        if len(b) == 2 and b[0] in cfg['ns'] and b[1] in names and '<' not in f.dem.split('(')[0]:
            ps = [p for p in parse_params(f) if p[0] != 'this']
            if not any(p[0] == 'image' for p in ps): continue
            if b[0] == 'simd':
                if ps[-1][0] != 'simd': continue
                for k, v in simd_enum().items():
                    if k.split('_')[0] in cfg['sets']: out.append((f, b[1], ps, v))
            else: out.append((f, b[1], ps, None))
    return out
JOBLIMIT = 330      # seconds for one function; the whole check has 900
class TooLong(BaseException): pass
def expired(*a): raise TooLong()
def limited(g, *a):
    import signal
    signal.signal(signal.SIGALRM, expired); signal.alarm(JOBLIMIT)
    try: return g(*a)
    except TooLong: raise Undecided('time limit of %d s' % JOBLIMIT)
    finally: signal.alarm(0)
REDUCE = ('Sum', 'Histogram', 'ProjectionProfile', 'Accumulate', 'IsEqual', 'IsBinary')
MOVES = ('Transpose', 'Flip', 'ExtractChannel', 'Split', 'ConvertToGrayScale', 'ConvertToRgb', 'Merge', 'ReplaceChannel', 'RgbToBgr', 'RgbToRgba', 'RgbaToRgb')
def relevant(op, only):
    if only == 'I06': return op in REDUCE
    if only == 'I04': return op in POINT or op in MOVES
    if only == 'I03': return op not in REDUCE
    return True
def job(a):
    cfg, name, op, simd = a
    f = MODS[0].functions[name]
    try:
        r, st = limited(analyse, MODS, LAY, f, op, simd)
        return name, f.dem, op, simd, dict(ok=r.ok, bad=r.bad, unk=r.unk, stats=st), None
    except (Undecided, Exception) as e:
        msg = str(e) if isinstance(e, Undecided) else 'internal: %r %s' % (e, traceback.format_exc()[-800:])
        r = CURRENT[0]
        # what was refuted before the analysis gave up still counts
        if r is not None and r.bad: 
            r.unknown('', '', msg)
            return name, f.dem, op, simd, dict(ok=r.ok, bad=r.bad, unk=r.unk, stats={}), None
        return name, f.dem, op, simd, None, msg
def run(cfg, want=None, procs=8, only=None):
    global MODS, LAY
    MODS = load(cfg); LAY = Layout(MODS)
    jobs = []
    for f, op, ps, simd in entries(cfg, MODS):
        k = full_signature(op, f, ps)
        if want and want not in f.dem or not relevant(op, only): continue
        if k == 'full': jobs.append((cfg, f.name, op, simd))
    yield from collect(job, jobs, procs)
def collect(job, jobs, procs=8):
    """results as they come; what is not ready at the deadline is reported as undecided"""
    left = {(j[1], j[3] if len(j) > 3 and not isinstance(j[3], set) else None): j for j in jobs}
    with mp.Pool(procs, maxtasksperchild=1) as p:
        it = p.imap_unordered(job, jobs)
        while left:
            try: x = it.next(max(1, DEADLINE[0] - time.time()))
            except StopIteration: break
            except mp.TimeoutError: break
            left.pop((x[0], x[3]), None)
            yield x
    for (name, simd), j in left.items(): yield name, MODS[0].functions[name].dem, j[2], simd, None, 'not analysed before the deadline'
DEADLINE = [time.time() + 660]
if __name__ == '__main__':
    cfg = {'scalar': SCALAR, 'simd': SIMD}[sys.argv[1]]
    for name, dem, op, simd, r, err in run(cfg, sys.argv[2] if len(sys.argv) > 2 else None):
        print(ir.base_name(dem), simd, err or '', r and r['stats'] or '', r and r['ok'] or '')
        for b in (r['bad'] if r else []): print('    BAD', b[0], b[1], b[2], str(b[3])[:300])
        for b in (r['unk'] if r else []): print('    UNK', b[0], b[1], b[2])
        sys.stdout.flush()
