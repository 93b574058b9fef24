"""T06/T07: the multi-threaded image functions split their region into a partition and combine the results of all parts.

Every full form of the function pool is interpreted abstractly (absint.py, never executed) for a fixed number of threads. The thread pool is a
contract: the tasks announced to it run either immediately or not before they are waited for, in both cases with the code of the task. Calls of the
device independent functions of penguinV:: are recorded with their arguments (polynomials over the arguments of the pooled function) and return fresh
symbols. The recorded parts must form a partition of the region and the returned statistics must be the combination of the symbols of all parts."""
import itertools, math, multiprocessing, re, time, traceback
import ir
from absint import *
from imgmodel import *
import imgmodel, imgcheck, i07
from imgcheck import Result, eqp, COLOUR, EQ, ANY, VALIDC, apply_valid, entry_names, LIM

DEBUG = False
CFG = dict(i07.POOL, src=['function_pool.cpp', 'function_pool_task.cpp', 'image_function_helper.cpp'])
STATS = {'Sum', 'Histogram', 'ProjectionProfile', 'IsEqual', 'IsBinary'}
def targ(dem):
    """first template argument of the class of a std::vector member"""
    k = dem.find('std::vector<'); d = 0; s = k + 12
    for q in range(s, len(dem)):
        if dem[q] in '<(': d += 1
        elif dem[q] in '>)': 
            d -= 1
            if d < 0: return dem[s:q].strip()
        elif dem[q] == ',' and d == 0: return dem[s:q].strip()
    return ''
class PoolMachine(Machine):
    def read_cell(self, st, o, off, n, t):
        self.note(st, 'r', o.id, off, n); return Machine.read_cell(self, st, o, off, n, t)
    def write_cell(self, st, oid, off, n, v):
        self.note(st, 'w', oid, off, n); return Machine.write_cell(self, st, oid, off, n, v)
    def add(self, st, p):
        """facts about integers, tightened: a multiple of g plus c is not negative"""
        c = [v for k, v in p.t.items() if k != ()]
        if c and all(isinstance(v, int) for v in c):
            g = math.gcd(*c)
            if g > 1 and abs(p.c0()) < 1 << 16: p = Poly({k: v // g for k, v in p.t.items()})
        return Machine.add(self, st, p)
    def note(self, st, k, o, off, n):
        L = self.L
        if L is None: return
        x = st.mem[L].get('task')
        if not x or x[1] is None: return
        key = ('acc', x[1])
        a = st.mem[L].get(key, (0, frozenset()))[1]
        if (k, o, off, n) not in a:
            d = dict(st.mem[L]); d[key] = (0, a | {(k, o, off, n)}); st.mem[L] = d
class Run:
    def __init__(self, mods, lay, fn, op, threads, late, flags, conc, res):
        self.fn = fn; self.op = op; self.threads = threads; self.late = late; self.res = res; self.conc = conc
        m = self.m = PoolMachine(mods); m.maxsteps = 6000000; m.L = None; m.unwind = True; m.unroll = True; m.resample = {}
        self.mdl = Models(m, lay)
        m.contracts.insert(0, self.contract)
        self.st, self.args, self.info = imgmodel.setup(m, self.mdl, fn, [False] * 8)
        m.params = {q: True for q in range(len(m.S.s))}
        self.L = m.newobj(self.st, 'cells', 'ledger', ZERO).id
        m.L = self.L
        k = 0; off = 1 if any('sret' in a for a in fn.args) else 0
        for j, i in enumerate(self.info):
            if i['kind'] == 'bool':
                i['value'] = flags[k]; self.args[j + off] = flags[k]; k += 1
        if conc:
            self.s = i07.shape(fn, op); xy, wh, _ = i07.layout(self.s, op, True)
            w, h = wh[self.s.images[0][0]]
            for q, v in ((w, conc[0]), (h, conc[1])):
                self.info[q]['sym'] = Poly.const(v); self.args[q + off] = Int(Poly.const(v), 32)
            for i, _ in self.s.images:
                self.mdl.put(self.st, self.args[i + off], 'C', Int(Poly.const(conc[2]), 8)); self.info[i]['C'] = Poly.const(conc[2])
                self.info[i]['cc'] = conc[2]
        self.valid()
    def valid(self):
        """the arguments are valid: what the operation requires of its images and regions"""
        m = self.m; s = i07.shape(self.fn, self.op); xy, wh, _ = i07.layout(s, self.op, True); ims = [i for i, _ in s.images]
        rs = set().union(*[i['R'].syms() for i in self.info if i['kind'] == 'image'])
        self.st.facts = tuple(f for f in self.st.facts if not f.syms() & rs)       # the row size plays no role
        spec = COLOUR.get(self.op); st = self.st; off = 1 if any('sret' in a for a in self.fn.args) else 0
        for k, i in enumerate(ims):
            im = self.info[i]; c = spec[k] if spec and k < len(spec) else ANY
            if not self.conc:
                q = 1 if c == EQ or 1 in c else c[0]
                self.mdl.put(st, self.args[i + off], 'C', Int(Poly.const(q), 8)); m.add_eq(st, im['C'] - q); im['C'] = Poly.const(q)
            x, y = [self.info[q]['sym'] for q in xy[i]]; w, h = [self.info[q]['sym'] for q in wh[i]]
            for p in (im['W'] - x - w, im['H'] - y - h, w - 1, h - 1): m.add(st, p)
        if self.op == 'ExtractChannel': m.add(st, Poly.const(2) - next(i['sym'] for i in self.info if i['kind'] == 'u8'))
        u8 = [i['sym'] for i in self.info if i['kind'] == 'u8']
        if self.op == 'Threshold' and len(u8) == 2: m.add(st, u8[1] - u8[0])
        if self.op == 'LookupTable': m.add_eq(st, next(i['n'] for i in self.info if i['kind'] == 'vec') - 256)
    def get(self, st, k, d=None):
        x = st.mem[self.L].get(k); return x[1] if x else d
    def put(self, st, k, v):
        d = dict(st.mem[self.L]); d[k] = (0, v); st.mem[self.L] = d
    # ---- vectors with known contents
    def vec(self, m, fr, st, i, fn, base, args):
        n = base.split('::')[-1]; t = targ(fn.dem); pl = ir.param_list(fn.dem)
        if n in ('size', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'empty'):
            if t == 'bool': raise Undecided('element of a vector of bits at %s' % fr.fn.where(i))
            return None
        if t == 'bool': return self.bits(m, fr, st, i, n, args)
        es = 24 if t.startswith('std::vector<') else ESZ.get(t) or (8 if t.endswith('*') else None)
        if es is None: es = next((md.records[t]['size'] for md in m.mods if t in md.records), None)
        if es is None: raise Undecided('vector of %s at %s' % (t, fr.fn.where(i)))
        def count(v):
            p = m.norm(st, m.U(st, v)); c = p.cval()
            if c is not None: return c
            B = max(8, self.threads + 2)
            if not (m.prove(st, p) and m.prove(st, Poly.const(B) - p)): raise Undecided('size of an array at %s' % fr.fn.where(i))
            raise Fork([[('eq', p - q)] for q in range(B + 1)])
        def current(p):
            b, e = self.mdl.vget(st, p)
            if not (isinstance(b, Ptr) and isinstance(e, Ptr)): raise Undecided('array at %s' % fr.fn.where(i))
            if b.o is None: return None, 0, {}
            if m.objs[b.o].kind != 'cells': return b.o, None, None
            return b.o, m.norm(st, e.p).cval() // es, st.mem[b.o]
        def fresh(p, c, cells, fill=None):
            if c > 100000: raise Undecided('large array')
            o = m.newobj(st, 'cells', 'array at %s' % fr.fn.where(i), Poly.const(c * es), meta=dict(vec=True))
            d = {a: v for a, v in cells.items() if a < c * es} if cells else {}
            st.mem[o.id] = d; self.mdl.vset(st, p, o.id, Poly.const(c * es)); return o
        def zero(o, a, c, val=None):
            d = dict(st.mem[o.id])
            for q in range(a, c):
                if val is not None: d[q * es] = (es, val)
                elif es == 24:
                    for k in (0, 8, 16): d[q * es + k] = (8, Ptr(None, ZERO))
                elif t in ESZ: d[q * es] = (es, Int(ZERO, 8 * es) if t not in ('float', 'double') else Unk(EMPTY, 'f'))
                elif t.endswith('*'): d[q * es] = (8, Ptr(None, ZERO))
            st.mem[o.id] = d
        def value(p):
            if es == 24 or not isinstance(p, Ptr): raise Undecided('array filled with arrays')
            c = m.norm(st, p.p).cval()
            return m.read_cell(st, m.objs[p.o], c, es, dict(k='int', w=8 * es, size=es))
        if n == 'vector':
            if not pl or ('allocator' in pl[0] and 'vector' not in pl[0]): self.mdl.vset(st, args[0], None, ZERO); return m.ret(st)
            if 'unsigned long' in pl[0]:
                c = count(args[1]); v = value(args[2]) if len(pl) > 1 and 'allocator' not in pl[1] else None
                o = fresh(args[0], c, {}); zero(o, 0, c, v); return m.ret(st)
            if 'std::vector' in pl[0] and pl[0].endswith('&&'): self.mdl.move(st, args[0], args[1]); return m.ret(st)
            if 'std::vector' in pl[0]:
                o, c, cells = current(args[1])
                if o is None: self.mdl.vset(st, args[0], None, ZERO); return m.ret(st)
                if c is None or es == 24: return None
                fresh(args[0], c, cells); return m.ret(st)
            return None
        if n == '~vector' or n == 'reserve' or n == 'shrink_to_fit': return m.ret(st)
        if n in ('resize', 'assign') and pl and 'unsigned long' in pl[0]:
            c = count(args[1]); v = value(args[2]) if len(pl) > 1 else None
            o, k, cells = current(args[0])
            if n == 'assign': k, cells = 0, {}
            if k is None: k, cells = 0, {}
            if c == k and o is not None and n == 'resize': return m.ret(st)
            x = fresh(args[0], c, cells); zero(x, min(k, c), c, v); return m.ret(st)
        if n == 'clear':
            b, e = self.mdl.vget(st, args[0]); c = m.norm(st, args[0].p).cval()
            if isinstance(b, Ptr): m.write_cell(st, args[0].o, c + 8, 8, b)
            return m.ret(st)
        if n == 'swap':
            if True: return None
        if n in ('push_back', 'emplace_back') and es != 24:
            o, k, cells = current(args[0])
            if k is None: return None
            v = value(args[1]); x = fresh(args[0], k + 1, cells); zero(x, k, k + 1, v); return m.ret(st)
        if n == 'operator=' and pl and 'vector' in pl[0]:
            if pl[0].endswith('&&'): self.mdl.move(st, args[0], args[1]); return m.ret(st, args[0])
            o, c, cells = current(args[1])
            if c is None or es == 24: return None
            if o is None: self.mdl.vset(st, args[0], None, ZERO)
            else: fresh(args[0], c, cells)
            return m.ret(st, args[0])
        return None
    def bits(self, m, fr, st, i, n, args):
        if self.get(st, 'task') is not None: self.res.fail('T07', fr.fn.where(i), 'parts share the words of a vector of bits', {})
        raise Undecided('vector of bits at %s' % fr.fn.where(i))
    # ---- contracts
    def contract(self, m, fr, st, i, fn, base, args):
        n = fn.name; last = base.split('::')[-1]
        ret = lambda s, v=None: Outcome('ret', s, val=v)
        if n == '__cxa_allocate_exception':
            return [ret(st, Ptr(m.newobj(st, 'heap', 'exception', Poly.const(256)).id, ZERO))]
        if n in ('__cxa_free_exception', '__cxa_end_catch'): return [ret(st)]
        if n == '__cxa_begin_catch': return [ret(st, Unk(EMPTY, 'ptr'))]
        if n in ('__clang_call_terminate', '_ZSt9terminatev'): return []
        if base.startswith('penguinVException::') or (base.startswith('std::') and last in ('exception', '~exception', 'runtime_error', 'logic_error')): return [ret(st)]
        if n in ('_Znwm', '_Znam'):
            c = m.norm(st, m.U(st, args[0])).cval()
            if c is None: return None
            return [ret(st, Ptr(m.newobj(st, 'cells', 'object created at %s' % fr.fn.where(i), Poly.const(c)).id, ZERO))]
        if base == 'ThreadPoolMonoid::instance': return [ret(st, Ptr(m.newobj(st, 'heap', 'thread pool', Poly.const(4096)).id, ZERO))]
        if base == 'ThreadPool::threadCount': return [ret(st, Int(Poly.const(self.threads), 64))]
        cls = base.split('::')[0]
        if cls in ('AbstractTaskProvider', 'TaskProviderSingleton', 'TaskProvider'):
            if last == '_ready': return [ret(st, True)]
            if last == '_run':
                p = m.norm(st, m.U(st, args[1])); c = p.cval()
                if c is None:
                    B = max(8, self.threads + 2)
                    if not m.prove(st, Poly.const(B) - p): raise Undecided('number of tasks at %s' % fr.fn.where(i))
                    raise Fork([[('eq', p - q)] for q in range(B + 1)])
                self.put(st, 'announced', c); self.put(st, 'this', args[0]); self.put(st, 'runs', self.get(st, 'runs', 0) + 1)
                return [ret(s) for s in ([st] if self.late else self.tasks(fr, st, i))]
            if last == '_wait': return [ret(s, True) for s in (self.tasks(fr, st, i) if self.late else [st])]
            if fn.decl: return [ret(st)]
            return None
        if base.startswith('std::vector::'): return self.vec(m, fr, st, i, fn, base, args)
        if cls == 'penguinV' and len(base.split('::')) == 2 and fn.decl: return self.part(m, fr, st, i, fn, last, args)
        return None
    def tasks(self, fr, st, i):
        m = self.m; c = self.get(st, 'announced')
        if c is None: raise Undecided('waits without having started')
        fns = [f for f in m.funcs.values() if not f.decl and ir.base_name(f.dem).split('::')[-1] == '_task' and f.mod is m.mods[0]]
        if len(fns) != 1: raise Undecided('%d task functions' % len(fns))
        this = self.get(st, 'this'); done = [st]
        # the object of the derived class starts at the same address
        for k in range(c):
            nx = []
            for s in done:
                self.put(s, 'task', k)
                for o in m.call(fns[0], [this, Int(Poly.const(k), 64)], s, fr):
                    self.put(o.st, 'task', None)
                    if o.kind == 'throw': self.put(o.st, 'taskthrow', (k, str(o.val)))
                    nx.append(o.st)
            done = nx
            if len(done) > 500: raise Undecided('too many paths')
        for s in done: self.put(s, 'done', c); self.put(s, 'announced', None)
        return done
    def part(self, m, fr, st, i, fn, op, args):
        """a call of a device independent function"""
        ret = lambda s, v=None: Outcome('ret', s, val=v)
        k = self.get(st, 'task'); loc = (fr.fn, i); a = list(args)
        vals = []
        sh = i07.shape(fn, op)
        for q, x in enumerate(a):
            if q < len(sh.ps) and sh.ps[q][0] == 'vec' and isinstance(x, Ptr) and op not in STATS:
                b, e = self.mdl.vget(st, x); mt = m.objs[b.o].meta if isinstance(b, Ptr) and b.o is not None else None
                x = ('array', x.o, b.o if mt is not None else None, mt.get('copyof') if isinstance(mt, dict) else None)
            vals.append(x)
        def note(s, v): self.put(s, 'ev', self.get(s, 'ev', ()) + ((k, fn, op, tuple(vals), v, loc),))
        t = m.ty(fr, i['ty'])
        if any('sret' in x for x in fn.args): raise Undecided('a part creates an image at %s' % fr.fn.where(i))
        if op in ('Histogram', 'ProjectionProfile'):
            vi = [q for q in sh.rest if sh.ps[q][0] == 'vec']
            if len(vi) != 1 or len(sh.images) != 1: raise Undecided('statistics of a part')
            if op == 'Histogram': n = 256
            else:
                xy, wh, _ = i07.layout(sh, op, True); w, h = [m.norm(st, m.U(st, a[q])).cval() for q in wh[sh.images[0][0]]]
                b = next(a[q] for q in sh.rest if sh.ps[q][0] == 'bool')
                b = b if isinstance(b, bool) else m.decide(st, b) if not isinstance(b, Int) else bool(b.p.cval())
                if w is None or h is None or b is None: raise Undecided('size of a part')
                C = m.norm(st, m.U(st, self.mdl.get(fr, st, i, a[sh.images[0][0]], 'C'))).cval()
                n = w * C if b else h
                if not 0 <= n < 5000: raise Undecided('size of a part')
            ys = [m.sym('%s of part %s, cell %d' % (op.lower(), k, q), 0, (1 << 32) // 64 - 1, gen=lambda g: g.rng.integers(0, 1 << 20, g.K)) for q in range(n)]
            o = m.newobj(st, 'cells', 'result of a part', Poly.const(4 * n), meta=dict(vec=True))
            st.mem[o.id] = {4 * q: (4, Int(y, 32)) for q, y in enumerate(ys)}
            self.mdl.vset(st, a[vi[0]], o.id, Poly.const(4 * n)); note(st, tuple(ys)); return [ret(st)]
        if op in ('IsEqual', 'IsBinary'):
            s2 = st.copy(); note(st, True); note(s2, False); return [ret(st, True), ret(s2, False)]
        if t['k'] == 'int':
            y = m.sym('result of part %s' % k, 0, (1 << t['w']) // 64 - 1, gen=lambda g: g.rng.integers(0, 1 << 20, g.K))
            note(st, y); return [ret(st, Int(y, t['w']))]
        note(st, None); return [ret(st)]
    # ---- judgement
    def judge(self):
        m, res, op = self.m, self.res, self.op
        outs = m.call(self.fn, self.args, self.st); s = i07.shape(self.fn, op); xy, wh, extra = i07.layout(s, op, True)
        here = self.fn.where(None); fi = dict(enumerate(self.info)); paths = 0; parts = 0
        ims = [i for i, _ in s.images]
        ends = [o for o in outs if m.feasible(o.st)]; work = list(ends)
        while work:
            o = work.pop(); st = o.st
            try:
                if self.get(st, 'done') is not None:
                    for e in self.get(st, 'ev', ()):
                        for v in e[3]: 
                            if isinstance(v, Int): m.U(st, v)
            except Fork as f:
                if not getattr(self, 'shown', 0) and DEBUG: print([[(a[0], a[1].show(m.S)) for a in alt] for alt in f.alts], m.norm(st, v.p).show(m.S), [z.show(m.S) for z in st.facts]); self.shown = 1
                for alt in f.alts:
                    s2 = m.assume_all(st, alt)
                    if s2 is not None and m.feasible(s2): work.append(Outcome(o.kind, s2, val=o.val))
                continue
            tt = self.get(st, 'taskthrow')
            if tt: self.decided(st, 'T06', tt[1], 'a part fails with an exception of the pooled function itself'); continue
            if o.kind == 'throw': self.refusal(o, xy, wh, ims, fi); continue
            paths += 1
            ev = self.get(st, 'ev', ()); n = self.get(st, 'done')
            if self.get(st, 'announced') is not None: self.decided(st, 'T07', here, 'returns before its tasks have completed'); continue
            if not ev: self.decided(st, 'T06', here, 'returns without processing the region'); continue
            n = n or 0
            rects = []; bad = False
            for e in ev:
                k, cf, cop, a, v, loc = e; w = loc[0].where(loc[1])
                cs = i07.shape(cf, cop); lc = i07.layout(cs, cop, True)
                flat = not any(i.get('value') for i in self.info)
                if cop != op and not (op == 'Flip' and cop == 'Copy' and flat): self.decided(st, 'T06', w, 'a part is processed by %s' % cop); bad = True; break
                if lc is None or len(cs.images) != len(s.images): res.unknown('T06', w, 'form of the called function'); bad = True; break
                cxy, cwh, cex = lc
                r = []
                for (c, _), (f, _) in zip(cs.images, s.images):
                    p = a[c]
                    if not (isinstance(p, Ptr) and p.o == fi[f]['obj'] and m.norm(st, p.p).cval() == 0):
                        if isinstance(p, Ptr) and p.o is not None: self.decided(st, 'T06', w, 'image %s is used in place of %s' % (m.objs[p.o].label, fi[f]['name']))
                        else: res.unknown('T06', w, 'image of a part')
                        bad = True; break
                    res.good('T06')
                    if c not in cxy or c not in cwh: res.unknown('T06', w, 'region of a part'); bad = True; break
                    q = [m.norm(st, m.U(st, a[z])) for z in cxy[c] + cwh[c]]
                    r.append((q[0] - fi[xy[f][0]]['sym'], q[1] - fi[xy[f][1]]['sym'], q[2], q[3]))
                if bad: break
                rects.append((k, r, w)); self.params(st, s, extra, cs, cex, a, fi, w)
            parts += len(rects)
            if bad: continue
            if op == 'Resize': groups = [(0, False), (1, False)]
            else: groups = [(0, False)]
            for g, _ in groups:
                W, H = [fi[q]['sym'] for q in wh[ims[g]]]
                self.partition(st, [(r[g], w) for _, r, w in rects], W, H, fi[ims[g]]['name'], here)
            if op != 'Resize':
                W, H = [fi[q]['sym'] for q in wh[ims[0]]]
                fl = [i.get('value') for i in self.info if i['kind'] == 'bool']
                for k, r, w in rects:
                    b = r[0]
                    for j in range(1, len(r)):
                        x = b
                        if op == 'Flip': x = (W - b[0] - b[2] if fl[0] else b[0], H - b[1] - b[3] if fl[1] else b[1], b[2], b[3])
                        if op == 'Transpose': x = (b[1], b[0], b[3], b[2])
                        for nm, z, y in zip(('start x', 'start y', 'width', 'height'), r[j], x):
                            if eqp(m, st, z, y): res.good('T06'); continue
                            self.settle(st, 'T06', w, '%s of the part of %s does not match the part of %s' % (nm, fi[ims[j]]['name'], fi[ims[0]]['name']), lambda p, q: p == q, [z, y])
            self.races(st, n, here)
            if op in STATS: self.result(o, ev, rects, fi, wh, ims)
        return dict(paths=paths, parts=parts, throws=len(ends) - paths)
    def settle(self, st, prop, w, what, pred, polys):
        """violation when concrete values of the symbols falsify the predicate"""
        self.res.settle(self.m, prop, w, what, st.facts, ZERO, (lambda *v: pred(*v), [self.m.norm(st, p) for p in polys]))
    def decided(self, st, prop, w, what): self.res.settle(self.m, prop, w, what, st.facts, Poly.const(-1))
    def partition(self, st, rs, W, H, name, here):
        m, res = self.m, self.res
        for (x, y, w, h), loc in rs:
            for p, nm in ((w, 'width'), (h, 'height')):
                s2 = st.copy()
                if m.prove(st, p - 1) or not m.add(s2, -p) or not m.feasible(s2): res.good('T06')
                else: self.settle(st, 'T06', loc, 'a part of %s has no %s' % (name, nm), lambda v: v >= 1, [p])
        for axis in (1, 0):
            o = 1 - axis; full = (W, H)[o]; L = (W, H)[axis]
            if not all(eqp(m, st, r[o], ZERO) and eqp(m, st, r[2 + o], full) for r, _ in rs): continue
            at = ZERO; left = list(rs)
            while left:
                z = next((q for q in left if eqp(m, st, q[0][axis], at)), None)
                if z is None: break
                left.remove(z); at = m.norm(st, at + z[0][2 + axis])
            if not left and eqp(m, st, at, L): res.good('T06', 1 + len(rs)); return
        # concrete values for which the parts are not a partition
        n = len(rs)
        def ok(*v):
            W, H = v[0], v[1]; r = [v[2 + 4 * k:6 + 4 * k] for k in range(n)]
            good = sum(x[2] * x[3] for x in r) == W * H
            for x in r: good &= (x[0] >= 0) & (x[1] >= 0) & (x[0] + x[2] <= W) & (x[1] + x[3] <= H)
            for a, b in itertools.combinations(r, 2): good &= (a[0] + a[2] <= b[0]) | (b[0] + b[2] <= a[0]) | (a[1] + a[3] <= b[1]) | (b[1] + b[3] <= a[1])
            return good
        loc = rs[0][1] if rs else here
        if not rs: self.decided(st, 'T06', here, 'no part of %s is processed' % name); return
        self.settle(st, 'T06', loc, 'the parts are not a partition of the region of %s' % name, ok, [W, H] + [p for r, _ in rs for p in r])
    def params(self, st, s, extra, cs, cex, a, fi, w):
        m, res = self.m, self.res; mine = {}
        for i in extra + s.rest: mine.setdefault(fi[i]['kind'], []).append(i)
        other = {}
        for c in cex + cs.rest: other.setdefault(cs.ps[c][0], []).append(c)
        off = 1 if any('sret' in x for x in self.fn.args) else 0
        for k, cl in other.items():
            fl = mine.get(k, [])
            if k == 'vec' and self.op in STATS: continue
            if len(fl) != len(cl):
                self.decided(st, 'T06', w, 'a part is processed by another form of %s' % self.op) if k in ('u8', 'u32', 'i32', 'bool') else res.unknown('T06', w, 'number of parameters'); continue
            for c, f in zip(cl, fl):
                v = a[c]; p = fi[f]
                if k in ('u8', 'u16', 'u32', 'i32') and isinstance(v, Int):
                    x = m.norm(st, m.U(st, v))
                    if eqp(m, st, x, p['sym']): res.good('T06')
                    else: self.settle(st, 'T06', w, 'parameter %s of a part differs' % p['name'], lambda p, q: p == q, [x, p['sym']])
                elif k == 'bool':
                    b = v if isinstance(v, bool) else bool(v.p.cval()) if isinstance(v, Int) and v.p.cval() is not None else m.decide(st, v) if isinstance(v, Cond) else None
                    if b is None: res.unknown('T06', w, 'parameter %s' % p['name'])
                    elif b == p['value']: res.good('T06')
                    else: self.decided(st, 'T06', w, 'parameter %s of a part differs' % p['name'])
                elif k in ('f64', 'f32'):
                    if v is self.args[off + f]: res.good('T06')
                    elif any(v is x for x in self.args): self.decided(st, 'T06', w, 'parameter %s of a part is replaced by another one' % p['name'])
                    else: res.unknown('T06', w, 'parameter %s' % p['name'])
                elif k == 'vec' and isinstance(v, Ptr):
                    res.unknown('T06', w, 'array %s' % p['name'])
                elif k == 'vec' and isinstance(v, tuple):
                    if v[1] == p['obj'] or p['data'] in v[2:]: res.good('T06')
                    else: res.unknown('T06', w, 'array %s' % p['name'])
                else: res.unknown('T06', w, 'parameter %s' % p['name'])
    def races(self, st, n, here):
        m, res = self.m, self.res
        acc = {k: self.get(st, ('acc', k), frozenset()) for k in range(n)}
        seen = {}
        for k in range(n):
            for q, o, off, z in acc[k]: seen.setdefault(o, []).append((q, off, z, k))
        for o, l in seen.items():
            ws = [x for x in l if x[0] == 'w']
            if not ws: continue
            for q, off, z, k in ws:
                hit = next((x for x in l if x[3] != k and x[1] < off + z and off < x[1] + x[2]), None)
                if hit: self.decided(st, 'T07', here, 'two parts access the same place of %s' % m.objs[o].label.split(' at ')[0]); return
                res.good('T07')
    def result(self, o, ev, rects, fi, wh, ims):
        m, st, res, op = self.m, o.st, self.res, self.op; here = self.fn.where(None)
        vals = [e[4] for e in ev]
        if op in ('IsEqual', 'IsBinary'):
            want = all(vals); v = o.val
            v = v if isinstance(v, (bool, type(None))) else bool(v.p.cval()) if isinstance(v, Int) and v.p.cval() is not None else m.decide(st, v) if isinstance(v, Cond) else None
            if v is None: res.unknown('T07', here, 'result')
            elif v == want: res.good('T07')
            else: self.decided(st, 'T07', here, 'returns %s although the parts returned %s' % (v, ', '.join(map(str, vals))))
            return
        if op == 'Sum':
            want = sum(vals, ZERO)
            if not isinstance(o.val, Int): res.unknown('T07', here, 'result'); return
            v = m.norm(st, m.U(st, o.val))
            if eqp(m, st, v, want): res.good('T07')
            else: self.settle(st, 'T07', here, 'the result is not the sum of the results of all parts', lambda p, q: p == q, [v, want])
            return
        vi = [i for i in self.info if i['kind'] == 'vec']
        if len(vi) != 1: res.unknown('T07', here, 'result'); return
        b, e = self.mdl.vget(st, Ptr(vi[0]['obj'], ZERO))
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.o is not None and m.objs[b.o].kind == 'cells'):
            res.unknown('T07', here, 'result'); return
        n = m.norm(st, e.p).cval()
        if op == 'Histogram': want = [sum((v[q] for v in vals), ZERO) for q in range(256)]
        else:
            W, H = [fi[q]['sym'].cval() for q in wh[ims[0]]]; C = fi[ims[0]]['cc']; hor = next(i['value'] for i in self.info if i['kind'] == 'bool')
            want = [ZERO] * (W * C if hor else H)
            for (k, r, _), v in zip(rects, vals):
                x, y, w, h = [m.norm(st, p).cval() for p in r[0]]
                if None in (x, y, w, h): res.unknown('T07', here, 'part'); return
                base = x * C if hor else y
                for q, z in enumerate(v):
                    if not 0 <= base + q < len(want): break
                    want[base + q] = want[base + q] + z
        if n is None or n != 4 * len(want):
            if n is None: res.unknown('T07', here, 'size of the result')
            else: self.decided(st, 'T07', here, 'the result has %d elements in place of %d' % (n // 4, len(want)))
            return
        cells = st.mem[b.o]
        for q, p in enumerate(want):
            c = cells.get(4 * q)
            if c is None or c[0] != 4 or not isinstance(c[1], Int):
                # uninitialised element, or another representation
                v = m.read_cell(st, m.objs[b.o], 4 * q, 4, dict(k='int', w=32, size=4))
                if not isinstance(v, Int): res.unknown('T07', here, 'element of the result'); return
                c = (4, v)
            v = m.norm(st, m.U(st, c[1]))
            if eqp(m, st, v, p): res.good('T07')
            else: self.settle(st, 'T07', here, 'an element of the result is not the combination of the elements of all parts', lambda p, q: p == q, [v, p]); return
    def refusal(self, o, xy, wh, ims, fi):
        """the arguments are valid: an exception outside the parts has no reason"""
        m, res, op = self.m, self.res, self.op
        if any(i['kind'] in ('f64', 'f32') for i in self.info): return
        self.decided(o.st, 'T07' if op in STATS else 'T06', str(o.val or self.fn.where(None)), 'refuses valid arguments')
def forms(mods):
    out = []; names = entry_names('function_pool.h')
    for f in mods[0].functions.values():
        b = ir.base_name(f.dem).split('::')
        if f.decl or len(b) != 2 or b[0] != 'Function_Pool' or b[1] not in names or '<' in f.dem.split('(')[0]: continue
        ps = [p for p in parse_params(f) if p[0] != 'this']
        if any(p[0] == 'image' for p in ps) and i07.full_sig2(b[1], f, ps) == 'full': out.append((f, b[1]))
    return out
SIZES = [(5, 3), (1, 1), (40, 2), (35, 4), (64, 1), (33, 7)]
def job(a):
    name, op, threads, late, flags, conc = a
    f = imgcheck.MODS[0].functions[name]; res = Result(); t0 = time.time()
    try:
        st = imgcheck.limited(lambda: Run(imgcheck.MODS, imgcheck.LAY, f, op, threads, late, flags, conc, res).judge())
        return a, f.dem, dict(ok=res.ok, bad=res.bad, unk=res.unk, stats=dict(st, time=time.time() - t0)), None
    except Undecided as e: return a, f.dem, dict(ok=res.ok, bad=res.bad, unk=res.unk, stats=dict(paths=0, parts=0, throws=0, time=time.time() - t0)), str(e)
    except Exception as e: return a, f.dem, None, 'internal: %r %s' % (e, traceback.format_exc()[-700:])
def run(tier='quick', want=None, only=None, procs=8):
    imgcheck.MODS = imgcheck.load(CFG); imgcheck.LAY = Layout(imgcheck.MODS)
    jobs = []
    for f, op in forms(imgcheck.MODS):
        if want and want != op: continue
        if op == 'Normalize': continue      # composed of the forms below
        if only == 'stats' and op not in STATS: continue
        nb = sum(1 for p in parse_params(f) if p[0] == 'bool')
        for threads in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
            if op == 'Resize' and threads > (3 if tier == 'quick' else 4): continue
            for late in (False, True) if only == 'stats' or tier != 'quick' else (True,):
                for flags in itertools.product((False, True), repeat=nb):
                    if op == 'ProjectionProfile':
                        for w, h in SIZES:
                            for c in (1, 3): jobs.append((f.name, op, threads, late, flags, (w, h, c)))
                    else: jobs.append((f.name, op, threads, late, flags, None))
    jobs.sort(key=lambda j: (j[1] != 'Resize', -j[2]))
    left = set(jobs)
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=4) as p:
        it = p.imap_unordered(job, jobs)
        while left:
            try: x = it.next(max(1, imgcheck.DEADLINE[0] - time.time()))
            except (StopIteration, multiprocessing.TimeoutError): break
            left.discard(x[0]); yield x
    for j in left: yield j, imgcheck.MODS[0].functions[j[0]].dem, None, 'not analysed before the deadline'
if __name__ == '__main__':
    import sys
    for a, dem, r, err in run(want=sys.argv[1] if len(sys.argv) > 1 else None):
        print(a[1:], err or '', r and r['ok'], r and r['stats'])
        for b in (r['bad'] if r else []): print('    BAD', b[0], b[1], b[2], str(b[3])[:200])
        for b in (r['unk'] if r else []): print('    UNK', b[0], b[1], b[2])
        sys.stdout.flush()
