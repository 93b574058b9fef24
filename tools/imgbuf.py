"""B01, B02: ownership and geometry of ImageTemplate, by abstract interpretation of each member function over symbolic images.

Every member is run from each kind of valid state (empty, with buffer; arguments distinct or the object itself), allocation, release, copy and fill are contracts that
may throw, exceptional paths run their clean-up code. At each exit the ledger of buffers and the fields of every image are compared with the class contract."""
import re, os
import ir
from absint import *
from imgmodel import Layout, Models, SZ, ESZ, LIM
import numpy as np
def gdim(s): return np.where(s.rng.random(s.K) < 0.75, s.rng.integers(0, 40, s.K), s.rng.choice([1 << 16, 1 << 30, 1 << 31, LIM, LIM - 7, 1431655766], s.K))
def gpos(s): return np.maximum(gdim(s), 1)
def gsmall(lo):
    return lambda s: s.rng.choice([lo, 1, 2, 3, 4, 4, 8, 16], s.K)

class Led:
    """value stored in a cell of the ledger"""
TERM = ('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit', '__cxa_call_unexpected')

class Run:
    def __init__(self, mod, lay, fn, es):
        self.mod = mod; self.lay = lay; self.fn = fn; self.es = es
        m = self.m = Machine(mod); self.mdl = Models(m, lay); m.contracts = [self.contract]; m.unwind = True
        self.st = State()
        self.L = m.newobj(self.st, 'cells', 'ledger', ZERO).id; self.st.mem[self.L] = {0: (8, ())}
        self.F = m.newobj(self.st, 'cells', 'function table', Poly.const(1 << 16)).id
        self.images = []
        m.terminated = []
    # ---- ledger
    def events(self, st):
        v = st.mem[self.L][0][1]
        if not isinstance(v, tuple): raise Undecided('device functions called in a loop')
        return v
    def event(self, st, *e): st.mem[self.L] = {0: (8, self.events(st) + (e,))}
    # ---- contracts
    def contract(self, m, fr, st, i, fn, base, args):
        n = fn.name
        if n in TERM or base in ('std::terminate',):
            m.terminated.append(fr.fn.where(i)); return []
        if n == '__cxa_allocate_exception':
            o = m.newobj(st, 'heap', 'exception', Poly.const(256)); return m.ret(st, Ptr(o.id, ZERO))
        if n in ('__cxa_free_exception', '__cxa_end_catch'): return m.ret(st)
        if n == '__cxa_begin_catch': return m.ret(st, Unk(EMPTY, 'ptr'))
        if base.endswith('Exception::penguinVException') or base.startswith('penguinVException') or (base.startswith('std::') and base.endswith(('_error', 'exception', '~exception'))): return m.ret(st)
        if base.endswith('FunctionFacade::instance'): return m.ret(st, Ptr(self.F, ZERO))
        if base.endswith('FunctionFacade::initialize') and self.fn is not fn: return m.ret(st)
        if base in ('std::operator==', 'std::operator!=') and 'function<' in fn.dem:
            if self.release(fn) : return m.ret(st, base.endswith('!='))
            s1, s2 = st.copy(), st.copy()
            self.event(s1, 'null', self.slot(st, args[0]), base.endswith('==')); self.event(s2, 'null', self.slot(st, args[0]), not base.endswith('=='))
            return [Outcome('ret', s1, val=True), Outcome('ret', s2, val=False)]
        if base.startswith('std::function::'):
            k = base.split('::')[-1]
            if k == 'function':
                d = args[0]
                src = self.slot(st, args[1]) if len(args) > 1 else None
                if src is None and len(args) > 1: src = ('fn', args[1].n if isinstance(args[1], Fn) else None)
                outs = m.ret(st.copy())
                self.setslot(outs[0].st, d, src)
                if not (ir.param_list(fn.dem) or [''])[0].endswith('&&') and not self.release(fn): outs.append(Outcome('throw', st.copy(), val=fr.fn.where(i)))
                return outs
            if k == '~function': return m.ret(st)
            if k == 'operator bool':
                if self.release(fn): return m.ret(st, True)
                s1, s2 = st.copy(), st.copy()
                self.event(s1, 'null', self.slot(st, args[0]), False); self.event(s2, 'null', self.slot(st, args[0]), True)
                return [Outcome('ret', s1, val=True), Outcome('ret', s2, val=False)]
            if k in ('operator=', 'swap'):
                self.event(st, 'set slot', self.slot(st, args[0]), self.slot(st, args[1]), (fr.fn, i)); return m.ret(st, args[0])
            if k == 'operator()': return self.device(m, fr, st, i, fn, args)
        if n in ('__cxa_guard_acquire',): return m.ret(st, Int(ZERO, 32))
        if base == 'std::fill' or base.startswith('std::__fill'): pass
        return None
    def release(self, fn):
        """the function is an operation on the release function of a device, which is there for every device type in use and does not fail"""
        return not ir.base_name(self.fn.dem).endswith('initialize') and re.search(r'function<void ?\(unsigned (char|short)\*\)>', fn.dem)
    def slot(self, st, p):
        """('slot', offset in the table) | ('arg', label) | ('fn', name)"""
        m = self.m
        if not isinstance(p, Ptr) or p.o is None: return None
        if p.o == self.F: return ('slot', m.norm(st, p.p))
        c = m.norm(st, p.p).cval()
        v = st.mem.get(p.o, {}).get(('f', c))
        if v: return v[1]
        return ('obj', m.objs[p.o].label)
    def setslot(self, st, p, v):
        c = self.m.norm(st, p.p).cval()
        if p.o is None or c is None: raise Undecided('function object at unknown place')
        d = dict(st.mem.get(p.o, {})); d[('f', c)] = (32, v); st.mem[p.o] = d
    def device(self, m, fr, st, i, fn, args):
        s = self.slot(st, args[0])
        if s is None or s[0] != 'slot': raise Undecided('call of an unknown function object at %s' % fr.fn.where(i))
        x = re.search(r'std::function<(.*)>::operator\(\)', fn.dem); sig = x.group(1)
        off = m.norm(st, s[1])
        base = (off.c0() // 8192) * 8192; rest = off - base
        idx = Poly({k: v // 32 for k, v in rest.t.items()}) if all(v % 32 == 0 for v in rest.t.values()) else None
        if idx is None: raise Undecided('device function table index')
        ps = sig[sig.index('(') + 1:-1]; ps = [p.strip() for p in ps.split(',')]; ret = sig[:sig.index('(')].strip()
        loc = (fr.fn, i); outs = []
        thr = st.copy(); self.event(thr, 'threw', loc)
        outs.append(Outcome('throw', thr, val=fr.fn.where(i)))
        if ret.endswith('*') and len(ps) == 1:
            n = m.U(st, args[1])
            o = m.newobj(st, 'image', 'buffer allocated at %s' % fr.fn.where(i), n * self.es, self.es, dict(alloc=True))
            self.event(st, 'alloc', o.id, idx, n * self.es, loc)
            outs.append(Outcome('ret', st, val=Ptr(o.id, ZERO)))
        elif len(ps) == 1:
            self.event(st, 'free', self.ptr(st, args[1]), idx, None, loc); outs = [Outcome('ret', st)]     # a release does not fail
        elif len(ps) == 3 and ps[1].endswith('*'):
            self.event(st, 'copy', self.ptr(st, args[1]), idx, m.U(st, args[3]), loc, self.ptr(st, args[2])); outs.append(Outcome('ret', st))
        elif len(ps) == 3:
            self.event(st, 'fill', self.ptr(st, args[1]), idx, m.U(st, args[3]), loc, args[2]); outs.append(Outcome('ret', st))
        else: raise Undecided('device function of unknown signature %s' % sig)
        return outs
    def ptr(self, st, v):
        if isinstance(v, Ptr): return (v.o, self.m.norm(st, v.p))
        return None
    # ---- images
    def image(self, nm, empty, raw=False):
        m, st, mdl = self.m, self.st, self.mdl
        o = m.newobj(st, 'cells', 'image ' + nm, Poly.const(self.lay.size)); p = Ptr(o.id, ZERO)
        T = Int(m.sym(nm + '.T', 0, 255, gen=lambda s: s.rng.integers(0, 3, s.K)), 8)
        if raw: self.images.append((nm, p, None)); return p
        if empty: mdl.putall(st, p, mdl.empty_fields(Int(m.sym(nm + '.C', 1, 255), 8), Int(m.sym(nm + '.A', 1, 255), 8), T))
        else:
            W, H, C, A = m.sym(nm + '.W', 1, LIM, gen=gpos), m.sym(nm + '.H', 1, LIM, gen=gpos), m.sym(nm + '.C', 1, 255, gen=gsmall(1)), m.sym(nm + '.A', 1, 255, gen=gsmall(1))
            cols = [next(iter(x.t))[0] for x in (W, C, A)]
            k = m.sym(nm + '.k', 1, LIM, gen=lambda s: -(-s.column(cols[0]) * s.column(cols[1]) // s.column(cols[2])) + s.rng.choice([0, 0, 1], s.K)); R = k * A
            m.add(st, R - W * C); m.add(st, Poly.const(LIM) - R)
            d = m.newobj(st, 'image', 'buffer of ' + nm, R * H * self.es, self.es, dict(name=nm))
            self.event(st, 'alloc', d.id, T.p, R * H * self.es, None)
            mdl.putall(st, p, dict(W=Int(W, 32), H=Int(H, 32), C=Int(C, 8), A=Int(A, 8), R=Int(R, 32), D=Ptr(d.id, ZERO), T=T))
        self.images.append((nm, p, self.fields(st, p)))
        return p
    def fields(self, st, p):
        g = lambda k: self.mdl.get(None, st, None, p, k) if False else self.read(st, p, k)
        return {k: g(k) for k in 'WHCARDT'}
    def read(self, st, p, k):
        m = self.m; t = dict(k='ptr', size=8) if k == 'D' else dict(k='int', w=8 * SZ[k], size=SZ[k])
        return m.retype(m.read_cell(st, m.objs[p.o], m.norm(st, p.p).cval() + self.lay.off[k], SZ[k], t), t)
    # comparisons: True (follows from the path), False (a point of the path refutes it) or None
    def ge(self, st, p):
        m = self.m; p = m.norm(st, p)
        if m.prove(st, p): return True
        if m.prove(st, -p - 1): return False
        return False if m.P.samples.refutes(tuple(st.facts), p) else None
    def zero(self, st, p):
        a, b = self.ge(st, p), self.ge(st, -p)
        return False if a is False or b is False else (a and b)
    def eq(self, st, a, b):
        m = self.m
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o and self.zero(st, m.norm(st, a.p) - m.norm(st, b.p))
        if isinstance(a, Int) and isinstance(b, Int): return self.zero(st, m.U(st, a) - m.U(st, b))
        return a == b
    def real(self, st): return bool(self.m.P.samples.mask(tuple(st.facts)).any())
    def isnull(self, D): return isinstance(D, Ptr) and D.o is None

class Checker:
    def __init__(self, mod, es):
        self.mod = mod; self.es = es; self.lay = Layout([mod]); self.bad = {}; self.unk = {}; self.good = {'B01': 0, 'B02': 0}; self.units = {}; self.pend = []
    def fail(self, prop, fn, where, msg): self.pend.append(('bad', (prop, ir.base_name(fn.dem).replace('penguinV::', ''), msg), where))
    def ok(self, prop, n=1): self.pend.append(('ok', prop, n))
    def need(self, cond, prop, fn, where, msg):
        if cond is True: self.ok(prop)
        elif cond is False: self.fail(prop, fn, where, msg)
        else: self.undec(prop, fn, where, msg)
    def undec(self, prop, fn, where, msg): self.pend.append(('unk', (prop, ir.base_name(fn.dem).replace('penguinV::', ''), msg), where))
    def flush(self, real=True):
        for k, a, b in self.pend:
            if k == 'ok': self.good[a] += b
            elif k == 'bad' and real: self.bad.setdefault(a, b)
            else: self.unk.setdefault(a, b)
        self.pend = []
    def functions(self):
        t = {1: 'unsigned char', 2: 'unsigned short'}[self.es]
        out = []; seen = set()
        for f in self.mod.defined():
            b = ir.base_name(f.dem)
            if not b.startswith('penguinV::ImageTemplate::') or 'ImageTemplate<%s>' % t not in f.dem.split('(')[0]: continue
            n = b[len('penguinV::ImageTemplate::'):]
            if '::' in n or f.name in seen or 'lambda' in f.dem: continue
            if n.startswith('_') : continue
            if f.name.endswith(('D0Ev',)) or 'C1E' in f.name or 'D1Ev' in f.name: continue
            seen.add(f.name); out.append((n, f))
        return out
    def run(self):
        names = set()
        for n, f in self.functions():
            names.add(n)
            ps = ir.param_list(f.dem)
            imgs = [k for k, p in enumerate(ps) if 'ImageTemplate' in p]
            ctor = n == 'ImageTemplate'
            states = [None] if ctor else [True, False]
            for e0 in states:
                for alias in ([False] if ctor or not imgs else [False, True]):
                    for e1 in ([True, False] if imgs and not alias else [None]):
                        try: self.one(n, f, ps, e0, e1, alias)
                        except Undecided as e: self.unk.setdefault((ir.base_name(f.dem).replace('penguinV::', ''), str(e)), f.where())
                        except (TypeError, KeyError, IndexError, AttributeError, ValueError, Fork) as e: self.unk.setdefault((ir.base_name(f.dem).replace('penguinV::', ''), 'internal: %r' % e), f.where())
        for n in ('resize', 'clear', 'copy', 'swap', 'ImageTemplate', '~ImageTemplate', 'operator='):
            if n not in names: self.unk.setdefault((n, 'not found'), '')
        self.accessors(); self.flush(); self.table(); self.flush(); self.statics(); self.flush()
    def one(self, n, f, ps, e0, e1, alias):
        r = Run(self.mod, self.lay, f, self.es); m, st = r.m, r.st
        self.units['member functions x states'] = self.units.get('member functions x states', 0) + 1
        args = []; A = {}
        sret = None
        for a in f.args:
            if 'sret' in a:
                o = m.newobj(st, 'cells', 'result', Poly.const(f.mod.tsize(a['sret']))); sret = Ptr(o.id, ZERO); args.append(sret)
        static = len([a for a in f.args if 'sret' not in a]) == len(ps)
        this = None
        if not static:
            this = r.image('this', e0, raw=n == 'ImageTemplate'); args.append(this)
        rest = [a for a in f.args if 'sret' not in a][0 if static else 1:]
        other = None
        for k, p in enumerate(ps):
            nm = rest[k]['name'] or 'p%d' % k
            if 'ImageTemplate' in p:
                other = this if alias else r.image(nm, e1); v = other
            elif p in ('unsigned int', 'unsigned char', 'unsigned short'):
                w = {'unsigned int': 32, 'unsigned char': 8, 'unsigned short': 16}[p]
                v = Int(m.sym(nm, 0, (1 << w) - 1, gen=gdim if w == 32 else gsmall(0)), w)
            elif p.endswith('*'):
                o = m.newobj(st, 'image', 'caller buffer', m.sym('callersize', 0), self.es, dict(user=True)); v = Ptr(o.id, ZERO); A['user'] = o.id
            else: raise Undecided('parameter of type %s' % p)
            A[k] = v; args.append(v)
        before = r.fields(st, this) if this is not None and n != 'ImageTemplate' else None
        obefore = r.fields(st, other) if other is not None else None
        outs = m.call(f, args, st)
        self.units['paths'] = self.units.get('paths', 0) + len(outs)
        work = [(o.st, o) for o in outs]; k = 0
        while work:
            st, o = work.pop(); k += 1
            if k > 3000: raise Undecided('too many cases')
            if not m.feasible(st): continue
            try: self.exit(n, f, ps, r, Outcome(o.kind, st.copy(), val=o.val), this, other, sret, A, before, obefore, alias)
            except Fork as e:
                self.pend = []
                for alt in e.alts:
                    s2 = m.assume_all(st, alt)
                    if s2 is not None: work.append((s2, o))
                continue
            self.flush(r.real(st))
    def exit(self, n, f, ps, r, o, this, other, sret, A, before, obefore, alias):
        m, st = r.m, o.st
        what = 'when an exception leaves it' if o.kind == 'throw' else 'when it returns'
        where = f.where()
        ev = r.events(st)
        live = {}; freed = {}
        copied = []
        for e in ev:
            if e[0] == 'alloc': live[e[1]] = e
            elif e[0] == 'free':
                if e[1] is None or e[1][0] is None: self.fail('B01', f, e[4][0].where(e[4][1]), 'releases something that is not a buffer'); continue
                b = e[1][0]; w = e[4][0].where(e[4][1])
                if b in freed: self.fail('B01', f, w, 'a buffer is released twice'); continue
                if not r.zero(st, e[1][1]): self.fail('B01', f, w, 'a pointer into a buffer is released')
                if b in live:
                    self.need(r.zero(st, m.norm(st, live[b][2]) - m.norm(st, e[2])), 'B01', f, w, 'a buffer is released by the functions of another device type than it was allocated with')
                elif not (m.objs[b].meta or {}).get('user'): self.fail('B01', f, w, 'releases something that is not a buffer')
                else: self.fail('B01', f, w, 'releases the memory of the caller')
                freed[b] = e
            elif e[0] in ('copy', 'fill'):
                w = e[4][0].where(e[4][1])
                for p, role in ((e[1], 'destination'),) + (((e[5], 'source'),) if e[0] == 'copy' else ()):
                    if p is None or p[0] is None: self.fail('B01', f, w, 'the %s of a %s is not a buffer' % (role, e[0])); continue
                    if p[0] in freed: self.fail('B01', f, w, 'a released buffer is used as %s of a %s' % (role, e[0])); continue
                    if p[0] in st.size: self.need(r.ge(st, m.norm(st, st.size[p[0]]) - m.norm(st, p[1]) - m.norm(st, e[3])), 'B02', f, w, 'a %s of the buffer is larger than its %s' % (e[0], role))
                    if p[0] in live: self.need(r.zero(st, m.norm(st, live[p[0]][2]) - m.norm(st, e[2])), 'B01', f, w, 'a buffer is accessed by the functions of another device type')
                if e[0] == 'copy': copied.append(e)
        # images alive at this exit
        alive = [(nm, p) for nm, p, _ in r.images]
        if n == '~ImageTemplate' or (n == 'ImageTemplate' and o.kind == 'throw'): alive = [x for x in alive if x[1] is not this]
        if sret is not None and o.kind == 'ret': alive.append(('result', sret))
        owners = {}
        for nm, p in alive:
            d = r.fields(st, p)
            D = d['D']
            if not isinstance(D, Ptr): raise Undecided('buffer pointer of %s at exit' % nm)
            for k in 'WHCART':
                if not isinstance(d[k], Int): raise Undecided('field %s of %s at exit' % (k, nm))
            W, H, C, Al, R, T = (m.norm(st, m.U(st, d[k])) for k in 'WHCART')
            self.need(r.ge(st, C - 1) and r.ge(st, Al - 1), 'B02', f, where, '%s has no colour count or alignment %s' % (nm, what))
            if D.o is None:
                for k, v in (('width', W), ('height', H), ('row size', R)):
                    self.need(r.zero(st, v), 'B02', f, where, '%s has no buffer but a %s %s' % (nm, k, what))
                continue
            b = D.o
            if b in freed: self.fail('B01', f, where, '%s keeps a released buffer %s' % (nm, what)); continue
            if b in owners: self.fail('B01', f, where, '%s and %s share a buffer %s' % (owners[b], nm, what))
            owners[b] = nm
            self.need(r.zero(st, m.norm(st, D.p)), 'B01', f, where, '%s does not point to the start of its buffer %s' % (nm, what))
            user = (m.objs[b].meta or {}).get('user')
            if not user:
                self.need(b in live and r.zero(st, m.norm(st, live[b][2]) - T), 'B01', f, where, '%s has a buffer of another device type %s' % (nm, what)) if b in live else self.fail('B01', f, where, '%s owns something that is not a buffer %s' % (nm, what))
                size = m.norm(st, st.size[b])
                self.need(r.ge(st, size - R * H * self.es), 'B02', f, where, 'the buffer of %s is smaller than height * row size %s' % (nm, what))
            self.need(r.ge(st, W - 1) and r.ge(st, H - 1), 'B02', f, where, '%s has a buffer but a zero size %s' % (nm, what))
            self.need(r.ge(st, R - W * C), 'B02', f, where, 'the row size of %s is smaller than width * colour count %s' % (nm, what))
            self.need(self.multiple(r, st, R, Al), 'B02', f, where, 'the row size of %s is not a multiple of its alignment %s' % (nm, what))
        for b in live:
            if b not in freed and b not in owners: self.fail('B01', f, where, 'a buffer is lost %s' % what)
            else: self.ok('B01')
        if o.kind == 'ret': self.post(n, f, ps, r, o, this, other, sret, A, before, obefore, alias, copied, ev, freed)
        elif before is not None and n in ('assign', 'mutate', 'setColorCount', 'setAlignment', 'swap'): self.same(r, st, f, this, before, 'when an exception leaves it')
        if obefore is not None and not alias and n in ('copy', 'ImageTemplate', 'operator=') and not ps[0].endswith('&&'):
            self.same(r, st, f, other, obefore, what, 'the source')
    def same(self, r, st, f, p, d, what, nm='the image', keys='WHCARDT'):
        now = r.fields(st, p)
        for k in keys:
            self.need(r.eq(st, now[k], d[k]), 'B01' if k == 'D' else 'B02', f, f.where(), '%s of %s changes %s' % (NAMES[k], nm, what))
    def multiple(self, r, st, R, A):
        m = r.m
        c = A.cval()
        if c == 1: return True
        if R.cval() is not None and c: return R.cval() % c == 0
        ss = m.P.samples; mk = ss.mask(tuple(st.facts))
        a, b = ss.eval(R), ss.eval(A)
        if (mk & (a < 1e15) & (b > 0) & (np.mod(a, np.maximum(b, 1)) != 0)).any(): return False
        if len(A.t) == 1:
            (mon, co), = A.t.items()
            if co == 1 and len(mon) == 1 and all(mon[0] in x for x in R.t): return True
        for (key, q) in list(m.divcache.items()):
            p = q if isinstance(q, Poly) else None
            if p is None: continue
            for k in (0, 1):
                z = m.norm(st, (p + k) * A)
                if r.zero(st, R - z): return True
        return None
    def post(self, n, f, ps, r, o, this, other, sret, A, before, obefore, alias, copied, ev, freed):
        m, st = r.m, o.st
        what = 'when it returns'
        tgt = sret if n == 'generate' else this
        now = r.fields(st, tgt) if tgt is not None and n != '~ImageTemplate' else None
        P = lambda k: m.norm(st, m.U(st, A[k]))
        def is_(k, v, msg, prop='B02'):
            self.need(r.zero(st, m.norm(st, m.U(st, now[k])) - v), prop, f, f.where(), msg)
        def pos(k): return m.prove(st, P(k) - 1)
        def isz(k): return m.prove(st, -P(k))
        def sized(kw, kh, C, Al, T):
            if pos(kw) and pos(kh):
                is_('W', P(kw), 'the width is not the requested one'); is_('H', P(kh), 'the height is not the requested one')
                self.need(not r.isnull(now['D']), 'B02', f, f.where(), 'no buffer although a size was requested')
            elif isz(kw) or isz(kh): return False
            else: self.undec('B02', f, f.where(), 'requested size not decided')
            return True
        const = lambda c: Poly.const(c)
        if n in ('ImageTemplate', 'generate') and ps and ps[0] == 'unsigned int':
            s = sized(0, 1, None, None, None)
            if not s: self.need(r.isnull(now['D']), 'B02', f, f.where(), 'a buffer although a zero size was requested')
            for k, key, nm in ((2, 'C', 'colour count'), (3, 'A', 'alignment')):
                if pos(k): is_(key, P(k), 'the %s is not the requested one' % nm)
                elif isz(k): is_(key, ONE, 'the %s is not the default one' % nm)
                else:
                    # both cases on one path: max( 1, value )
                    self.undec('B02', f, f.where(), '%s not decided' % nm)
            if n == 'generate':
                is_('T', m.norm(st, m.U(st, before['T'])), 'a generated image has another device type', 'B01')
                self.same(r, st, f, this, before, what)
        elif n == 'ImageTemplate' or n == 'operator=' or n == 'copy':
            mv = ps[0].endswith('&&')
            if mv:
                if not alias: 
                    for k in 'WHCARDT': self.need(r.eq(st, now[k], obefore[k]), 'B01', f, f.where(), 'a move does not transfer the %s' % NAMES[k])
                return
            for k in 'WHCART': self.need(r.eq(st, now[k], obefore[k]), 'B02', f, f.where(), 'the %s of the copy differs from the source' % NAMES[k])
            D, S = now['D'], obefore['D']
            if r.isnull(S): self.need(r.isnull(D), 'B01', f, f.where(), 'the copy of an empty image is not empty'); return
            if alias and D.o == S.o: self.ok('B01'); return
            full = self.pixels(m, st, now)
            self.need(not r.isnull(D) and D.o != S.o and any(e[1] and e[5] and e[1][0] == D.o and e[5][0] == S.o and r.zero(st, e[1][1]) and r.zero(st, e[5][1]) and m.prove(st, m.norm(st, e[3]) - full) for e in copied),
                      'B01', f, f.where(), 'the content of the source is not copied completely')
        elif n == 'resize':
            for k in 'CAT': self.need(r.eq(st, now[k], before[k]), 'B02', f, f.where(), 'resizing changes the %s' % NAMES[k])
            if not sized(0, 1, None, None, None): self.same(r, st, f, this, before, 'on a request of zero size')
        elif n == 'clear':
            self.need(r.isnull(now['D']), 'B01', f, f.where(), 'clearing keeps the buffer')
            for k in 'CAT': self.need(r.eq(st, now[k], before[k]), 'B02', f, f.where(), 'clearing changes the %s' % NAMES[k])
        elif n in ('setColorCount', 'setAlignment'):
            key = 'C' if n == 'setColorCount' else 'A'
            if pos(0): is_(key, P(0), 'the %s is not the requested one' % NAMES[key])
            elif isz(0): self.same(r, st, f, this, before, 'on a request of zero')
            for k in 'CAT':
                if k != key: self.need(r.eq(st, now[k], before[k]), 'B02', f, f.where(), 'changes the %s' % NAMES[k])
        elif n == 'swap':
            if not alias:
                oth = r.fields(st, other)
                for k in 'WHCARDT':
                    self.need(r.eq(st, now[k], obefore[k]) and r.eq(st, oth[k], before[k]), 'B01' if k == 'D' else 'B02', f, f.where(), 'swapping does not exchange the %s' % NAMES[k])
            else: self.same(r, st, f, this, before, 'when swapped with itself')
        elif n == 'assign':
            for k in range(1, 5): self.need(r.ge(st, P(k) - 1), 'B02', f, f.where(), 'a zero parameter is accepted')
            is_('W', P(1), 'the width is not the requested one'); is_('H', P(2), 'the height is not the requested one'); is_('C', P(3), 'the colour count is not the requested one'); is_('A', P(4), 'the alignment is not the requested one')
            self.need(isinstance(now['D'], Ptr) and now['D'].o == A['user'], 'B01', f, f.where(), 'the assigned buffer is not used')
        elif n == 'mutate':
            v = o.val
            if isinstance(v, Int): v = True if m.prove(st, v.p - 1) else False if r.zero(st, m.norm(st, v.p)) else None
            if v not in (True, False): self.undec('B02', f, f.where(), 'result not decided'); return
            self.need(r.eq(st, now['D'], before['D']), 'B01', f, f.where(), 'the buffer changes')
            if v:
                is_('W', P(0), 'the width is not the requested one'); is_('H', P(1), 'the height is not the requested one'); is_('C', P(2), 'the colour count is not the requested one'); is_('A', P(3), 'the alignment is not the requested one')
            else: self.same(r, st, f, this, before, 'although the request is refused')
        elif n == 'fill':
            self.same(r, st, f, this, before, what)
            if not r.isnull(before['D']):
                full = self.pixels(m, st, now)
                self.need(any(e[0] == 'fill' and e[1] and e[1][0] == now['D'].o and r.zero(st, e[1][1]) and m.prove(st, m.norm(st, e[3]) - full) for e in ev), 'B02', f, f.where(), 'the image is not filled completely')
        elif before is not None and n not in ('~ImageTemplate', '_setType'):
            if 'const' in f.dem.split(')')[-1]: self.same(r, st, f, this, before, what)
    def accessors(self):
        t = {1: 'unsigned char', 2: 'unsigned short'}[self.es]; seen = {}
        for f in self.mod.defined():
            b = ir.base_name(f.dem)
            if b.startswith('penguinV::ImageTemplate::') and 'ImageTemplate<%s>' % t in f.dem.split('(')[0]:
                n = b.split('::')[-1]
                if n in Layout.ACC or n == 'data':
                    off = self.lay.accessor(f)
                    if off is None: self.unk.setdefault((n, 'accessor not understood'), f.where()); continue
                    if n in seen and seen[n] != off: self.fail('B02', f, f.where(), 'the overloads of %s return different members' % n)
                    seen[n] = off; self.ok('B02')
        inv = {}
        for n, off in seen.items():
            if off in inv: self.fail('B02', [f for f in self.mod.defined() if ir.base_name(f.dem).endswith('ImageTemplate::' + n)][0], '', '%s and %s return the same member' % (n, inv[off]))
            inv[off] = n
    def pixels(self, m, st, now):
        """bytes from the first to the last pixel (padding after the last row does not matter)"""
        W, H, C, R = [m.U(st, now[k]) for k in 'WHCR']
        return m.norm(st, ((H - 1) * R + W * C) * self.es)
    def table(self):
        """the table of device functions: a type is initialised completely, from the matching arguments, and only once"""
        for f in self.mod.defined():
            if not ir.base_name(f.dem).endswith('FunctionFacade::initialize') or 'ImageTemplate<%s>' % {1: 'unsigned char', 2: 'unsigned short'}[self.es] not in f.dem: continue
            r = Run(self.mod, self.lay, f, self.es); m, st = r.m, r.st
            T = m.sym('type', 0, 255); args = [Ptr(r.F, ZERO), Int(T, 8)]
            for k in range(4):
                o = m.newobj(st, 'cells', 'argument %d' % k, Poly.const(32)); args.append(Ptr(o.id, ZERO))
            try: outs = m.call(f, args, st)
            except Undecided as e: self.unk.setdefault(('FunctionFacade::initialize', str(e)), f.where()); return
            for o in outs:
                if o.kind != 'ret': continue
                ev = r.events(o.st)
                tested = [e for e in ev if e[0] == 'null']; sets = [e for e in ev if e[0] == 'set slot']
                if tested and tested[-1][2] is False and tested[0][2] is False:
                    self.need(not sets, 'B01', f, f.where(), 'functions of a device type that is in use are replaced'); continue
                got = {}
                for e in sets:
                    off = m.norm(o.st, e[1][1]) if e[1] and e[1][0] == 'slot' else None
                    if off is None: continue
                    base = off.c0(); good = r.zero(o.st, off - base - T * 32)
                    self.need(good, 'B01', f, e[3][0].where(e[3][1]), 'the functions are stored for another device type')
                    got[base] = e[2]
                self.need(len(set(got.values())) == 4 and len(got) == 4, 'B01', f, f.where(), 'not all four functions of a device type are stored')
    def statics(self):
        """the functions used for images in main memory"""
        t = {1: 'unsigned char', 2: 'unsigned short'}[self.es]; es = self.es; n = 0
        for f in self.mod.defined():
            b = ir.base_name(f.dem)
            if not b.startswith('penguinV::ImageTemplate::_') or not b.endswith('Memory') or 'ImageTemplate<%s>' % t not in f.dem.split('(')[0]: continue
            k = b.split('::')[-1]; r = Run(self.mod, self.lay, f, es); m, st = r.m, r.st
            calls = []
            def alloc(m_, fr, s, i, fn, base, args):
                if base.endswith('::instance') and 'Allocator' in base: return m_.ret(s, Ptr(r.F, ZERO))
                if base.endswith('::allocate'):
                    mm = re.search(r'allocate<(.*?)>', fn.dem); e2 = ESZ.get(mm.group(1).strip(), 1) if mm else 1
                    o = m_.newobj(s, 'image', 'allocated', m_.U(s, args[1]) * e2, es); r.event(s, 'alloc', o.id, ZERO, m_.U(s, args[1]) * e2, (fr.fn, i)); return m_.ret(s, Ptr(o.id, ZERO))
                if base.endswith('::free'): r.event(s, 'free', r.ptr(s, args[1]), ZERO, None, (fr.fn, i)); return m_.ret(s)
                if base in ('memcpy', 'memmove'): r.event(s, 'copy', r.ptr(s, args[0]), ZERO, m_.U(s, args[2]), (fr.fn, i), r.ptr(s, args[1])); return m_.ret(s, args[0])
                return None
            m.contracts.insert(0, alloc)
            S = m.sym('elements', 1, 1 << 40); N = S * es
            A = m.newobj(st, 'image', 'destination', N, es); B = m.newobj(st, 'image', 'source', N, es)
            a = {'_allocateMemory': [Int(S, 64)], '_deallocateMemory': [Ptr(A.id, ZERO)], '_copyMemory': [Ptr(A.id, ZERO), Ptr(B.id, ZERO), Int(N, 64)], '_setMemory': [Ptr(A.id, ZERO), Int(m.sym('value', 0, (1 << (8 * es)) - 1), 8 * es), Int(N, 64)]}.get(k)
            if a is None: continue
            n += 1
            try: outs = m.call(f, a, st)
            except Undecided as e: self.unk.setdefault((k, str(e)), f.where()); continue
            for o in outs:
                if o.kind != 'ret' or not m.feasible(o.st): continue
                ev = [e for e in r.events(o.st) if e[0] != 'null']
                if k == '_allocateMemory': self.need(len(ev) == 1 and ev[0][0] == 'alloc' and m.prove(o.st, m.norm(o.st, ev[0][3]) - N) and isinstance(o.val, Ptr) and o.val.o == ev[0][1], 'B02', f, f.where(), 'does not return a block of the requested size')
                elif k == '_deallocateMemory': self.need(len(ev) == 1 and ev[0][0] == 'free' and ev[0][1] and ev[0][1][0] == A.id, 'B01', f, f.where(), 'does not return the block to the allocator')
                elif k == '_copyMemory':
                    lg = [e for e in o.st.log if getattr(e, 'o', None) in (A.id, B.id)]
                    whole = lambda e, rw, obj: e.rw == rw and e.o == obj.id and r.zero(o.st, m.norm(o.st, e.off)) and r.zero(o.st, m.norm(o.st, e.n) - N)
                    self.need(any(whole(e, 'W', A) for e in lg) and any(whole(e, 'R', B) for e in lg) or any(e[0] == 'copy' and e[1] and e[5] and e[1][0] == A.id and e[5][0] == B.id and r.zero(o.st, e[1][1]) and r.zero(o.st, e[5][1]) and r.zero(o.st, m.norm(o.st, e[3]) - N) for e in ev), 'B01', f, f.where(), 'does not copy exactly the requested bytes')
                else:
                    self.need(any(e.rw == 'W' and e.o == A.id for e in o.st.log), 'B02', f, f.where(), 'does not fill the buffer')
            for kx, q in m.obl.items():
                for bb in q['bad']:
                    if bb[2] is None or not all(m.prove(st, g) for g in bb[3]): self.fail('B02', f, q['fn'].where(q['ins']), '%s outside the buffer' % q['what'])
        self.units['device functions for main memory'] = self.units.get('device functions for main memory', 0) + n
NAMES = dict(W='width', H='height', C='colour count', A='alignment', R='row size', D='buffer', T='device type')

def check(sizes=(1, 2)):
    src = os.path.join(ir.VERIF, 'tools', 'tu', 'image.cpp')
    mod = ir.load(ir.compile_ir(src))
    out = []
    for es in sizes:
        c = Checker(mod, es); c.run(); out.append(c)
    return out
if __name__ == '__main__':
    import time
    t = time.time()
    for c in check():
        print(c.es, c.good, c.units)
        for k, w in c.bad.items(): print('BAD', k, w)
        for k, w in c.unk.items(): print('UNK', k, w)
    print(time.time() - t)
