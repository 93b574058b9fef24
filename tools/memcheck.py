"""B03 (and T02 for the allocators): the memory pools conserve their memory.

The member functions of the CPU and OpenCL allocators are interpreted abstractly (absint.py, never executed). The free sets and the map of allocated chunks are symbolic
collections: a few known elements with symbolic offsets, and gaps that stand for any number of unknown elements. Offsets, requests and the rest of the state are symbolic;
levels (powers of two) are enumerated. A collection denotes a sum of indicator functions of intervals [offset, offset + 2^level); it is represented by its formal boundary, so
splitting and merging cancel exactly. Every operation must conserve the sum, on returns and on exceptions, which keeps free and allocated memory a partition of the pool."""
import multiprocessing, os, re, itertools, time
import ir
from absint import *
import numpy as np
NODE = 96
SETSZ = 48
def short(dem): return ir.base_name(dem)
def meta(m, o):
    x = m.objs[o].meta
    return x if isinstance(x, dict) else {}


def both(a, b): return False if a is False or b is False else None if a is None or b is None else True
class MemMachine(Machine):
    """a machine without loop summaries that watches the accesses to the members of the allocator"""
    own = None
    def read_cell(self, st, o, off, n, t):
        if o.id == self.own: self.owner.touch(st, off)
        return Machine.read_cell(self, st, o, off, n, t)
    def write_cell(self, st, oid, off, n, v):
        if oid == self.own: self.owner.touch(st, off)
        return Machine.write_cell(self, st, oid, off, n, v)

class Pool:
    def __init__(self, chk, mod, cls, es=1):
        self.chk = chk; self.mod = mod; self.cls = cls; self.es = es
        m = self.m = MemMachine(mod); m.owner = self; m.unwind = True; m.unroll = True; m.contracts = [self.contract]; m.MAXSTATES = 4000
        self.st = State(); self.where = ''
        rec = self.rec = mod.records.get(cls); base = mod.records.get('BaseMemoryAllocator')
        if not rec: raise ir.AnalysisError('class %s not found' % cls)
        o = m.newobj(self.st, 'cells', cls, Poly.const(rec['size'])); self.A = o.id; m.own = o.id; self.this = Ptr(o.id, ZERO)
        mem = [(x['n'], x['off'], x['t']) for x in rec['members'] if x['n'] != '<base>']
        b = [x['off'] for x in rec['members'] if x['n'] == '<base>']
        if base and b: mem += [(x['n'], b[0] + x['off'], x['t']) for x in base['members']]
        pick = lambda f: [x for x in mem if f(x[2])]
        v = pick(lambda t: t.startswith('std::vector<std::set<')); mp = pick(lambda t: t.startswith('std::map<')); mu = pick(lambda t: 'mutex' in t)
        if len(v) != 1 or len(mp) != 1: raise ir.AnalysisError('the free and allocated chunks of %s are not found' % cls)
        self.voff = v[0][1]; self.moff = mp[0][1]; self.mutexes = [x[1] for x in mu]
        self.vis = {x[1] for x in mem if not x[0].startswith('_vptr') and 'mutex' not in x[2] and not x[2].startswith('const ')} if mu else set()
        self.names = {x[1]: x[0] for x in mem}
        self.LV = m.newobj(self.st, 'cells', 'free chunks', Poly.const(SETSZ * 70)).id
        self.L = m.newobj(self.st, 'cells', 'collections', ZERO).id
        self.st.mem[self.L] = {}
        self.P = None      # size of the pool
        self.free_lock = True     # no lock needed while constructed or destroyed
        self.cl = 'CL' in cls
    # ---- ledger
    def get(self, st, k, d=None):
        x = st.mem[self.L].get(k); return x[1] if x else d
    def put(self, st, k, v):
        d = dict(st.mem[self.L]); d[k] = (0, v); st.mem[self.L] = d
    def event(self, st, *e): self.put(st, 'ev', self.get(st, 'ev', ()) + (e,))
    def held(self, st): return self.get(st, 'held', ())
    def bad(self, prop, msg, i=None, fr=None, st=None):
        if st is not None and not self.real(st): self.chk.unk(self.entry, 'not decided whether ' + msg); return
        self.chk.fail(prop, self.entry, fr.fn.where(i) if fr is not None and i is not None else self.where, msg)
    def touch(self, st, off):
        if self.free_lock or not self.mutexes or off not in self.vis: return
        if not self.held(st) and self.real(st): self.chk.fail('B03', self.entry, self.where, '%s is accessed without holding the mutex' % self.names[off])
    def locked(self, st, fr, i):
        if self.free_lock or not self.mutexes: return
        if not self.held(st): self.bad('B03', 'the chunks are accessed without holding the mutex', i, fr, st)
    # ---- collections: tuple of items, '?' (any number of elements) or node object id
    def coll(self, st, k): return self.get(st, ('c', k), ())
    def setcoll(self, st, k, items): self.put(st, ('c', k), tuple(items))
    def key(self, st, p):
        m = self.m; c = m.norm(st, p.p).cval() if isinstance(p, Ptr) and p.o is not None else None
        if c is None: raise Undecided('collection at an unknown place')
        return (p.o, c)
    def nlevels(self, st): return self.get(st, 'n', 0)
    def ismap(self, k): return k == (self.A, self.moff)
    def islevel(self, k): return k[0] == self.LV and k[1] % SETSZ == 0
    def node(self, st, k, val, mat):
        m = self.m; o = m.newobj(st, 'cells', 'element', Poly.const(NODE)); o.meta = dict(k=k)
        st.mem[o.id] = {32: (8, val)}
        if mat: self.put(st, 'mat', self.get(st, 'mat', ()) + ((k, o.id, self.interval_of(st, k, o.id)),))
        return o.id
    def fieldoff(self): return (40, 48) if self.cl else (32, 40)
    def interval_of(self, st, k, nid):
        """(offset, level) denoted by an element, or None"""
        m = self.m
        if self.islevel(k): return (m.U(st, st.mem[nid][32][1]), k[1] // SETSZ)
        if self.ismap(k):
            a, b = self.fieldoff(); c = st.mem[nid]
            if a not in c or b not in c: return None
            lv = m.norm(st, m.U(st, m.retype(c[b][1], dict(k='int', w=8, size=1)))).cval()
            return (m.norm(st, m.U(st, c[a][1])), lv) if lv is not None else None
        return None
    def place_gen(self):
        n = self.P.cval() if self.P is not None else 100
        return lambda g: g.rng.integers(0, max(1, n), g.K)
    def fresh(self, st, k):
        """outcomes (state, node id) for an unknown element of collection k"""
        m = self.m; out = []
        if self.islevel(k):
            s = st.copy(); v = m.sym('chunk', 0, None, gen=self.place_gen()); L = k[1] // SETSZ
            if self.P is not None and not m.add(s, self.P - (1 << L) - v): return []
            return [(s, self.node(s, k, Int(v, 64), True))]
        if self.ismap(k):
            for L in range(self.nlevels(st)):
                s = st.copy(); v = m.sym('used', 0, None, gen=self.place_gen())
                if self.P is not None and not m.add(s, self.P - (1 << L) - v): continue
                a, b = self.fieldoff(); o = m.newobj(s, 'cells', 'element', Poly.const(NODE)); o.meta = dict(k=k)
                s.mem[o.id] = {a: (8, Int(v, 64)), b: (1, Int(Poly.const(L), 8))}
                if self.cl: s.mem[o.id][32] = (8, Ptr(m.newobj(s, 'heap', 'handle', Poly.const(8)).id, ZERO))
                self.put(s, 'mat', self.get(s, 'mat', ()) + ((k, o.id, (v, L)),)); out.append((s, o.id))
            return out
        s = st.copy(); v = m.sym('element', 0, None); return [(s, self.node(s, k, Int(v, 64), True))]
    def end(self, st, k):
        e = self.get(st, ('end', k))
        if e is None: raise Undecided('end of an unknown collection')
        return e
    def mkend(self, st, k):
        if self.get(st, ('end', k)) is None:
            o = self.m.newobj(st, 'cells', 'end', Poly.const(NODE)); o.meta = dict(k=k, end=True); self.put(st, ('end', k), o.id)
    def step(self, st, k, j, d):
        """neighbour of position j in direction d (+1: j is the index of the next item, -1: of the previous): [(state, node id or None)]"""
        items = self.coll(st, k)
        if j < 0 or j >= len(items): return [(st, None)]
        if items[j] != '?': return [(st, items[j])]
        out = []
        s = st.copy(); l = list(items); l.pop(j); self.setcoll(s, k, l)          # the gap is empty
        out += self.step(s, k, j if d > 0 else j - 1, d)
        for s, n in self.fresh(st, k):
            l = list(items)
            l[j:j + 1] = [n, '?'] if d > 0 else ['?', n]
            self.setcoll(s, k, l)
            if self.order(s, k, n): out.append((s, n))
        return out
    def order(self, st, k, n):
        """facts: neighbours of n in the ordered collection"""
        if not self.islevel(k): return True
        l = [x for x in self.coll(st, k) if x != '?']; j = l.index(n); m = self.m; L = k[1] // SETSZ
        v = lambda x: m.U(st, st.mem[x][32][1])
        ok = True
        if j > 0: ok = m.add(st, v(n) - v(l[j - 1]) - (1 << L))       # chunks of one level do not overlap
        if ok and j + 1 < len(l): ok = m.add(st, v(l[j + 1]) - v(n) - (1 << L))
        return ok and m.feasible(st)
    def itnode(self, st, p, fr, i):
        m = self.m
        v = p
        if isinstance(p, Ptr) and p.o is not None and meta(m,p.o).get('k') is None:
            c = m.norm(st, p.p).cval()
            v = Machine.read_cell(m, st, m.objs[p.o], c, 8, dict(k='ptr', size=8))
        if not isinstance(v, Ptr) or v.o is None or meta(m,v.o).get('k') is None: raise Undecided('iterator of unknown value at %s' % fr.fn.where(i))
        return self.get(st, ('lz', v.o), v.o)
    def pos(self, st, nid, fr, i):
        k = self.m.objs[nid].meta['k']; items = self.coll(st, k)
        if meta(self.m, nid).get('end'): return k, len(items)
        if nid not in items: self.bad('B03', 'an element is used after it was erased', i, fr, st); raise Throws()
        return k, items.index(nid)
    # ---- contracts
    def lazy(self, st, k, j):
        """an iterator to position j of a collection, resolved when it is used"""
        items = self.coll(st, k)
        if j >= len(items): return self.end(st, k)
        if items[j] != '?': return items[j]
        o = self.m.newobj(st, 'cells', 'iterator', ZERO); o.meta = dict(k=k, lazy=(k, j, items)); return o.id
    def lazies(self, st, fr, i, fn, args):
        """lazy iterators that a call uses"""
        if '_Rb_tree' not in fn.dem: return []
        out = []; erase = fn.dem.split('(')[0].endswith(('::erase', '::erase[abi:cxx11]'))
        assign = fn.dem.split('(')[0].endswith('operator=') or '_iterator(' in fn.dem
        for q, a in enumerate(args):
            if assign or (erase and q == 2) or not isinstance(a, Ptr): continue
            try: x = self.itnode(st, a, fr, i)
            except (Undecided, KeyError): continue
            if meta(self.m, x).get('lazy') and x not in out: out.append(x)
        return out
    def contract(self, m, fr, st, i, fn, base, args):
        lz = self.lazies(st, fr, i, fn, args) if args else []
        if lz:
            k, j, items = meta(m, lz[0])['lazy']; out = []
            if self.coll(st, k) != items: raise Undecided('iterator used after a change of the collection at %s' % fr.fn.where(i))
            for s, x in self.step(st, k, j, 1):
                self.put(s, ('lz', lz[0]), self.end(s, k) if x is None else x)
                r = self.contract(m, fr, s, i, fn, base, args)
                if r is None: raise Undecided('unknown use of an iterator at %s' % fr.fn.where(i))
                out += r
            return out
        n = fn.name; self.where = fr.fn.where(i)
        ret = lambda s, v=None: Outcome('ret', s, val=v)
        thr = lambda s: Outcome('throw', s, val=fr.fn.where(i))
        if n in ('__clang_call_terminate', '_ZSt9terminatev', 'abort'): return []
        if n == '__cxa_allocate_exception': return [ret(st, Ptr(m.newobj(st, 'heap', 'exception', Poly.const(256)).id, ZERO))]
        if n in ('__cxa_free_exception', '__cxa_end_catch'): return [ret(st)]
        if n == '__cxa_begin_catch': return [ret(st, Unk(EMPTY, 'ptr'))]
        if base.startswith('std::') and base.endswith(('_error', 'exception', '~exception')): return [ret(st)]
        if base in ('std::mutex::lock', 'std::mutex::unlock', 'std::mutex::try_lock', 'pthread_mutex_lock', 'pthread_mutex_unlock') or n in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
            k = self.key(st, args[0]); h = self.held(st)
            if base.endswith('unlock'):
                if k not in h: self.bad('T02', 'a mutex is unlocked that is not held', i, fr, st)
                self.put(st, 'held', tuple(x for x in h if x != k))
            elif base.endswith('try_lock'): raise Undecided('try_lock')
            else:
                if k in h: self.bad('T02', 'a mutex is locked again by the thread that holds it', i, fr, st); return []
                self.put(st, 'held', h + (k,)); self.chk.count('lock acquisitions on paths')
            return [ret(st, Int(ZERO, 32))]
        if n in ('_Znam', '_Znwm'):
            sz = m.U(st, args[0]); s2 = st.copy()
            o = m.newobj(st, 'heap', 'block allocated at %s' % fr.fn.where(i), sz); o.meta = dict(new=n)
            m.addr[o.id] = m.sym('address', 16, 1 << 47, gen=lambda g: 16 * g.rng.integers(1, 1 << 20, g.K))
            self.event(st, 'new', o.id, n)
            return ([ret(st, Ptr(o.id, ZERO))] if m.add(st, (1 << 47) - sz) and m.feasible(st) else []) + [thr(s2)]       # no machine has more memory
        if n in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if isinstance(p, Ptr) and p.o is None: return [ret(st)]
            if not isinstance(p, Ptr): raise Undecided('release of an unknown pointer')
            self.event(st, 'delete', p.o, m.norm(st, p.p), 'a' in n[3:5], fr.fn.where(i)); return [ret(st)]
        if base == 'clGetDeviceInfo':
            m.write_cell(st, args[3].o, m.norm(st, args[3].p).cval(), 4, Int(m.sym('minimum chunk', 1, 1 << 16, gen=lambda g: g.rng.choice([1, 2, 8, 64], g.K)), 32))
            return [ret(st, Int(ZERO, 32)), ret(st.copy(), Int(Poly.const(-1), 32))]
        if base in ('clCreateBuffer', 'clCreateSubBuffer'):
            ep = args[4]; out = []
            s2 = st.copy()
            o = m.newobj(st, 'heap', 'buffer', m.U(st, args[2]) if base == 'clCreateBuffer' else ZERO); o.meta = dict(handle=True)
            if base == 'clCreateSubBuffer':
                r = args[3]; c = m.norm(st, r.p).cval()
                rd = lambda s, a: m.U(s, Machine.read_cell(m, s, m.objs[r.o], c + a, 8, dict(k='int', w=64, size=8)))
                self.event(st, 'sub', o.id, args[0].o if isinstance(args[0], Ptr) else None, rd(st, 0), rd(st, 8), fr.fn.where(i))
            else: self.event(st, 'new', o.id, 'cl')
            for s, e, v in ((st, 0, Ptr(o.id, ZERO)), (s2, -5, Ptr(None, ZERO))):
                if isinstance(ep, Ptr) and ep.o is not None: m.write_cell(s, ep.o, m.norm(s, ep.p).cval(), 4, Int(Poly.const(e), 32))
                out.append(ret(s, v))
            return out
        if base == 'clReleaseMemObject':
            p = args[0]
            if not isinstance(p, Ptr) or p.o is None: raise Undecided('release of an unknown buffer')
            self.event(st, 'delete', p.o, ZERO, True, fr.fn.where(i))
            return [ret(st, Int(ZERO, 32))]
        if n == '__cxa_guard_acquire': return [ret(st, Int(ZERO, 32))]
        if not base.startswith(('std::', '__gnu_cxx::')): return None
        last = base.split('::')[-1].split('[abi:')[0].replace('operator@A', 'operator->')
        if base.startswith('std::vector::') and 'vector<std::set<' in fn.dem.split('(')[0].replace(' ', ''): return self.vector(m, fr, st, i, fn, last, args, ret, thr)
        if base.startswith(('std::set::', 'std::map::')) : return self.collection(m, fr, st, i, fn, last, args, ret, thr, base.startswith('std::map'))
        if base.startswith(('std::_Rb_tree_const_iterator::', 'std::_Rb_tree_iterator::')): return self.iterator(m, fr, st, i, fn, last, args, ret)
        if base in ('std::operator==', 'std::operator!=') and '_Rb_tree' in fn.dem:
            a, b = self.itnode(st, args[0], fr, i), self.itnode(st, args[1], fr, i)
            return [ret(st, (a == b) == (base.endswith('==')))]
        if base in ('std::_Rb_tree_iterator::operator==',): return None
        if base in ('std::next', 'std::prev') and '_Rb_tree' in fn.dem:
            nid = self.itnode(st, args[0], fr, i); return self.move(st, nid, 1 if last == 'next' else -1, fr, i, ret)
        if base in ('std::advance', 'std::distance', 'std::find', 'std::find_if', 'std::lower_bound'): raise Undecided('%s at %s' % (base, fr.fn.where(i)))
        return None
    def vector(self, m, fr, st, i, fn, n, args, ret, thr):
        N = self.nlevels(st)
        if n == 'vector' or n == '~vector' or n == 'clear':
            self.locked(st, fr, i) if n == 'clear' else None
            for L in range(N): self.setcoll(st, (self.LV, SETSZ * L), ())
            self.put(st, 'n', 0); self.put(st, 'abs', True); return [ret(st)]
        self.locked(st, fr, i)
        if n == 'size': return [ret(st, Int(Poly.const(N), 64))]
        if n == 'empty': return [ret(st, N == 0)]
        if n in ('begin', 'cbegin'): return [ret(st, Ptr(self.LV, ZERO))]
        if n in ('end', 'cend'): return [ret(st, Ptr(self.LV, Poly.const(SETSZ * N)))]
        if n in ('front', 'back'): return [ret(st, Ptr(self.LV, ZERO if n == 'front' else Poly.const(SETSZ * (N - 1))))]
        if n == 'reserve': return [ret(st.copy()), thr(st)]
        if n in ('operator[]', 'at'):
            x = m.norm(st, m.U(st, args[1])); c = x.cval()
            if c is None:
                if m.prove(st, x - N): c = N
                else: raise Undecided('level not enumerated at %s' % fr.fn.where(i))
            if c >= N:
                if n == 'at': return [thr(st)]
                if self.real(st): self.bad('B03', 'a level outside the table of free chunks is accessed', i, fr, st)
                return []
            return [ret(st, Ptr(self.LV, Poly.const(SETSZ * c)))]
        if n == 'resize':
            c = m.norm(st, m.U(st, args[1])).cval()
            if c is None or c > 64: raise Undecided('size of the table of free chunks')
            t = st.copy()
            for L in range(N, c): self.setcoll(st, (self.LV, SETSZ * L), ()); self.mkend(st, (self.LV, SETSZ * L))
            for L in range(c, N): self.setcoll(st, (self.LV, SETSZ * L), ())
            self.put(st, 'n', c); return [ret(st), thr(t)]
        raise Undecided('vector operation %s at %s' % (n, fr.fn.where(i)))
    def real(self, st): return bool(self.m.P.samples.mask(tuple(st.facts)).any())
    def checkkey(self, st, p, fr, i):
        k = self.key(st, p)
        if k[0] == self.LV and k[1] // SETSZ >= self.nlevels(st):
            if self.real(st): self.bad('B03', 'a level outside the table of free chunks is accessed', i, fr, st)
            return None
        if self.islevel(k) or self.ismap(k): self.locked(st, fr, i)
        return k
    def scalar(self, st, p, w=64):
        m = self.m; c = m.norm(st, p.p).cval()
        return m.U(st, Machine.read_cell(m, st, m.objs[p.o], c, w // 8, dict(k='int', w=w, size=w // 8)))
    def keyval(self, st, p, ismap):
        """key referred to by a reference argument"""
        m = self.m
        if ismap and self.cl: return Machine.read_cell(m, st, m.objs[p.o], m.norm(st, p.p).cval(), 8, dict(k='ptr', size=8))
        return m.norm(st, self.scalar(st, p))
    def keyof(self, st, nid, ismap): 
        v = st.mem[nid][32][1]
        return v if ismap and self.cl else self.m.norm(st, self.m.U(st, v))
    def same(self, st, a, b):
        m = self.m
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            if m.prove(st, d) and m.prove(st, -d): return True
            if m.prove(st, d - 1) or m.prove(st, -d - 1): return False
            return None
        return None
    def lookup(self, st, k, kv, ismap, exists=True, depth=0):
        """[(state, node id or None)] for key kv"""
        items = self.coll(st, k)
        if depth > 8: raise Undecided('element not found')
        for x in items:
            if x == '?': continue
            r = self.same(st, self.keyof(st, x, ismap), kv)
            if r is True: return [(st, x)]
            if r is None:
                s1, s2 = st.copy(), st.copy(); m = self.m; out = []
                if isinstance(kv, Poly):
                    d = self.keyof(st, x, ismap) - kv
                    if m.add_eq(s1, d) and m.feasible(s1): out.append((s1, x))
                    for z in (d - 1, -d - 1):
                        s3 = st.copy()
                        if m.add(s3, z) and m.feasible(s3): out += self.lookup(s3, k, m.norm(s3, kv), ismap, exists, depth + 1)
                    return out
        out = [(st, None)]
        if not exists or '?' not in items: return out
        if isinstance(kv, Ptr): return out         # a handle which is not that of a known element belongs to no chunk
        m = self.m
        for g in [j for j, x in enumerate(items) if x == '?']:
            for s, nid in self.fresh(st, k):
                l = list(items); l[g:g + 1] = ['?', nid, '?']; self.setcoll(s, k, l)
                if m.add_eq(s, self.keyof(s, nid, ismap) - kv) and self.order(s, k, nid) and m.feasible(s): out.append((s, nid))
        return out
    def isfree(self, st, kv):
        """kv is the offset of a known free chunk: it is not allocated (invariant)"""
        return isinstance(kv, Poly) and any(self.same(st, self.keyof(st, x, False), kv) is True for L in range(self.nlevels(st)) for x in self.coll(st, (self.LV, SETSZ * L)) if x != '?')
    def place(self, st, k, nid, ismap):
        """inserts node nid: [state] with its possible positions"""
        items = list(self.coll(st, k)); m = self.m
        if ismap:
            self.setcoll(st, k, items[:-1] + [nid, '?'] if items and items[-1] == '?' else items + [nid]); return [st]
        out = []
        kv = self.keyof(st, nid, ismap)
        for j in range(len(items) + 1):
            if j < len(items) and items[j] == '?' and j > 0 and items[j - 1] == '?': continue
            if j < len(items) and items[j] == '?': l = items[:j] + ['?', nid] + items[j:]
            elif j > 0 and items[j - 1] == '?': continue
            else: l = items[:j] + [nid] + items[j:]
            s = st.copy(); ok = True
            kn = [x for x in l if x != '?']; q = kn.index(nid)
            if q > 0: ok = m.add(s, kv - self.keyof(s, kn[q - 1], ismap) - 1)
            if ok and q + 1 < len(kn): ok = m.add(s, self.keyof(s, kn[q + 1], ismap) - kv - 1)
            if ok and m.feasible(s): self.setcoll(s, k, l); out.append(s)
        return out
    def collection(self, m, fr, st, i, fn, n, args, ret, thr, ismap):
        if n in ('set', 'map'):
            k = self.key(st, args[0]); self.setcoll(st, k, ()); self.mkend(st, k)
            if len(args) > 1: raise Undecided('construction of a collection from another at %s' % fr.fn.where(i))
            return [ret(st)]
        if n in ('~set', '~map'): return [ret(st)]
        k = self.checkkey(st, args[0], fr, i)
        if k is None: return []
        items = self.coll(st, k); self.mkend(st, k); E = Ptr(self.end(st, k), ZERO)
        P = lambda x: E if x is None else Ptr(x, ZERO)
        if n == 'empty':
            return [ret(s, x is None) for s, x in self.step(st, k, 0, 1)]
        if n in ('begin', 'cbegin'): return [ret(s, P(x)) for s, x in self.step(st, k, 0, 1)]
        if n in ('end', 'cend'): return [ret(st, E)]
        if n in ('rbegin', 'crbegin'): raise Undecided('reverse iteration at %s' % fr.fn.where(i))
        if n == 'clear': self.setcoll(st, k, ()); self.put(st, 'abs' if not ismap else 'absmap', True); return [ret(st)]
        if n == 'size' or n == 'count':
            if n == 'count': return [ret(s, Int(ZERO if x is None else ONE, 64)) for s, x in self.lookup(st, k, self.keyval(st, args[1], ismap), ismap)]
            if '?' not in items: return [ret(st, Int(Poly.const(len(items)), 64))]
            return [ret(st, Int(m.sym('count', len([x for x in items if x != '?']), 1 << 40), 64))]
        if n == 'find': return [ret(s, P(x)) for s, x in self.lookup(st, k, self.keyval(st, args[1], ismap), ismap)]
        if n in ('insert', 'emplace', 'emplace_hint', 'operator[]', 'insert_or_assign', 'try_emplace'):
            if n == 'emplace_hint' or (n == 'insert' and len(args) > 2): raise Undecided('hinted insertion at %s' % fr.fn.where(i))
            out = [thr(st.copy())]
            kv = self.keyval(st, args[1], ismap)
            for s, x in self.lookup(st, k, kv, ismap, n == 'operator[]' and not self.isfree(st, kv)):
                if x is not None:
                    if n != 'operator[]': self.event(s, 'dup', k)
                    out.append(ret(s, Ptr(x, Poly.const(40)) if n == 'operator[]' else Agg([Ptr(x, ZERO), Int(ZERO, 8)]))); continue
                o = m.newobj(s, 'cells', 'element', Poly.const(NODE)); o.meta = dict(k=k); cells = {}
                def cp(p, at, size):
                    c = m.norm(s, p.p).cval()
                    for a, v in s.mem[p.o].items():
                        if c <= a < c + size: cells[at + a - c] = v
                if not ismap: cells[32] = (8, Int(kv, 64))
                elif n == 'insert': cp(args[1], 32, 24)
                else:
                    cp(args[1], 32, 8)
                    if n == 'operator[]':
                        if not self.cl: cells[40] = (1, Int(ZERO, 8))
                    elif self.cl and len(args) > 2: cp(args[2], 40, 16)
                    elif len(args) > 2: cp(args[2], 40, 1)
                    else: cp(args[1], 32, 24)
                s.mem[o.id] = cells
                for s2 in self.place(s, k, o.id, ismap):
                    out.append(ret(s2, Ptr(o.id, Poly.const(40)) if n == 'operator[]' else Agg([Ptr(o.id, ZERO), Int(ONE, 8)])))
            return out
        if n == 'erase':
            a = args[1]
            isit = 'iterator' in (ir.param_list(fn.dem) or [''])[0]
            if not isit:
                out = []
                for s, x in self.lookup(st, k, self.keyval(st, a, ismap), ismap):
                    if x is not None: l = list(self.coll(s, k)); l.remove(x); self.setcoll(s, k, l)
                    out.append(ret(s, Int(ZERO if x is None else ONE, 64)))
                return out
            na = self.itnode(st, a, fr, i); ka, ja = self.pos(st, na, fr, i)
            if len(args) > 2:
                nb = self.itnode(st, args[2], fr, i); z = meta(m, nb).get('lazy')
                if z and z[2] != items: raise Undecided('iterator used after a change of the collection at %s' % fr.fn.where(i))
                kb, jb = z[:2] if z else self.pos(st, nb, fr, i)
                if '?' in items[ja:jb]: raise Undecided('erasure of an unknown range at %s' % fr.fn.where(i))
                if ka != k or kb != k: self.bad('B03', 'an element is erased from another collection', i, fr, st)
                l = list(items); del l[ja:jb]; self.setcoll(st, k, l); return [ret(st, args[2] if isinstance(args[2], Ptr) else E)]
            if ka != k: self.bad('B03', 'an element is erased from another collection', i, fr, st)
            if meta(m, na).get('end'): self.bad('B03', 'the end of a collection is erased', i, fr, st); return []
            l = list(items); l.pop(ja); self.setcoll(st, k, l)
            return [ret(st, Ptr(self.lazy(st, k, ja), ZERO))]
        raise Undecided('collection operation %s at %s' % (n, fr.fn.where(i)))
    def move(self, st, nid, d, fr, i, ret, store=None, post=False):
        k, j = self.pos(st, nid, fr, i); out = []
        if d > 0 and meta(self.m, nid).get('end'): self.bad('B03', 'the end of a collection is passed', i, fr, st); return []
        for s, x in [(st, self.lazy(st, k, j + 1))] if d > 0 else self.step(st, k, j - 1, d):
            if x is None and d < 0: self.bad('B03', 'the begin of a collection is passed', i, fr, s); continue
            v = Ptr(self.end(s, k) if x is None else x, ZERO)
            if store is not None: Machine.write_cell(self.m, s, store.o, self.m.norm(s, store.p).cval(), 8, v)
            out.append(ret(s, (Ptr(nid, ZERO) if post else store) if store is not None else v))
        return out
    def iterator(self, m, fr, st, i, fn, n, args, ret):
        n = n.split('(')[0]
        if n.startswith('_Rb_tree'): return None       # constructors are interpreted
        if n in ('operator==', 'operator!='):
            return [ret(st, (self.itnode(st, args[0], fr, i) == self.itnode(st, args[1], fr, i)) == (n[-2] == '='))]
        if n == '_M_const_cast': return [ret(st, Ptr(self.itnode(st, args[0], fr, i), ZERO))]
        nid = self.itnode(st, args[0], fr, i)
        if n in ('operator*', 'operator->'):
            k, j = self.pos(st, nid, fr, i)
            if meta(m, nid).get('end'):
                if self.real(st): self.bad('B03', 'the end of a collection is dereferenced', i, fr, st)
                return []
            return [ret(st, Ptr(nid, Poly.const(32)))]
        if n in ('operator++', 'operator--'): return self.move(st, nid, 1 if n[-1] == '+' else -1, fr, i, ret, args[0], len(args) > 1)
        raise Undecided('iterator operation %s' % n)
    # ---- measures
    def measure(self, st):
        """formal boundaries {polynomial: coefficient} of the change of free and allocated memory"""
        m = self.m
        D = {'F': {}, 'A': {}}
        def add(w, iv, sg):
            if iv is None or iv[1] is None: raise Undecided('chunk of unknown place or level')
            for p, c in ((m.norm(st, iv[0]), sg), (m.norm(st, iv[0] + (1 << iv[1])), -sg)): D[w][p] = D[w].get(p, 0) + c
        for k, nid, iv in self.get(st, 'mat', ()):
            if self.islevel(k) or self.ismap(k): add('A' if self.ismap(k) else 'F', iv, -1)
        for L in range(self.nlevels(st)):
            for x in self.coll(st, (self.LV, SETSZ * L)):
                if x != '?': add('F', self.interval_of(st, (self.LV, SETSZ * L), x), 1)
        k = (self.A, self.moff)
        for x in self.coll(st, k):
            if x != '?': add('A', self.interval_of(st, k, x), 1)
        return {w: self.collect(st, d) for w, d in D.items()}
    def collect(self, st, d):
        m = self.m; out = []
        for p, c in d.items():
            for e in out:
                x = e[0] - p
                if not x.t or (m.prove(st, x) and m.prove(st, -x)): e[1] += c; break
            else: out.append([p, c])
        return [(p, c) for p, c in out if c]
    def eq(self, st, a, b):
        x = self.m.norm(st, a) - self.m.norm(st, b)
        return not x.t or (self.m.prove(st, x) and self.m.prove(st, -x))
    def equals(self, st, d, want):
        """d equals the boundary of the wanted intervals [(offset, end, sign)]"""
        x = {}
        for p, c in d: x[p] = x.get(p, 0) + c
        for a, b, s in want:
            for p, c in ((a, s), (b, -s)): x[p] = x.get(p, 0) + c
        rest = self.collect(st, x)
        if not rest: return True
        P = self.m.P.samples; mask = P.mask(tuple(st.facts)); at = np.flatnonzero(mask)[:64]
        vals = [(P.eval(self.m.norm(st, q))[at], c) for q, c in rest]
        for k in range(len(at)):
            tot = {}
            for v, c in vals: tot[v[k]] = tot.get(v[k], 0) + c
            if any(tot.values()): return False
        return None
    def ge(self, st, p):
        p = self.m.norm(st, p)
        if self.m.prove(st, p): return True
        P = self.m.P.samples; f = tuple(st.facts)
        return False if P.refutes(f, p) or (P.mask(f) & (P.eval(p) < -1e18)).any() else None
    def reset(self, st):
        """any valid state of the collections: forget the known elements"""
        for L in range(self.nlevels(st)): self.setcoll(st, (self.LV, SETSZ * L), ('?',))
        k = (self.A, self.moff); self.setcoll(st, k, ('?',)); self.mkend(st, k)
        self.put(st, 'mat', ()); self.put(st, 'ev', ()); self.put(st, 'abs', False)

class Check:
    def __init__(self):
        self.bads = {}; self.unks = {}; self.counts = {}; self.good = {'B03': 0, 'T02': 0}; self.calls = []
        self.mod = ir.load(ir.compile_ir(os.path.join(ir.VERIF, 'tools', 'tu', 'memory.cpp')))
        self.fns = {}
        for f in self.mod.defined(): self.fns.setdefault(short(f.dem), []).append(f)
    def fail(self, prop, fn, where, msg): self.bads.setdefault((prop, fn, msg), where)
    def unk(self, fn, msg): self.unks.setdefault((fn, msg), '')
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def need(self, c, prop, p, where, msg):
        if c: self.good[prop] += 1
        elif c is None or not p.real(p.cur): self.unk(p.entry, 'not decided whether ' + msg)
        else: self.fail(prop, p.entry, where, msg)
    def call(self, p, f, args, st):
        p.entry = short(f.dem).replace('penguinV::', ''); p.where = f.where()
        if p.entry not in self.calls: self.calls.append(p.entry)
        p.m.steps = 0
        t0 = time.time()
        outs = p.m.call(f, [p.this] + args, st)
        if os.environ.get('PVT'): print('%.2f' % (time.time() - t0), len(outs), p.m.steps, f.dem[:60], p.P)
        outs = [o for o in outs if p.m.feasible(o.st)]
        self.count('paths', len(outs))
        return self.each(p, f, outs)
    def each(self, p, f, outs):
        for o in outs:
            p.cur = o.st; ev = p.get(o.st, 'ev', ())
            self.need(not p.held(o.st), 'T02', p, f.where(), 'a mutex is still held %s' % ('when an exception leaves the function' if o.kind == 'throw' else 'when the function returns')); self.put0(p, o.st)
            self.need(not [e for e in ev if e[0] == 'dup'], 'B03', p, f.where(), 'a chunk is added twice')
            yield o
    def put0(self, p, st): p.put(st, 'held', ())
    def ctor(self, p):
        fs = [f for f in self.fns.get(p.cls + '::' + p.cls.split('::')[-1], []) if 'C2E' in f.name] or self.fns.get(p.cls + '::' + p.cls.split('::')[-1], [])
        if not fs: raise ir.AnalysisError('constructor of %s not found' % p.cls)
        f = fs[0]; m = p.m; a = []
        for x, t in zip(f.args[1:], ir.param_list(f.dem)):
            if 'long' in t: a.append(Int(m.sym('available', 1, 1 << 50, gen=lambda g: g.rng.integers(1 << 21, 1 << 30, g.K)), 64))
            else: a.append(Ptr(m.newobj(p.st, 'heap', 'handle', Poly.const(8)).id, ZERO))
        outs = [o for o in self.call(p, f, a, p.st) if o.kind == 'ret']
        if len(outs) < 1: raise ir.AnalysisError('construction of %s fails' % p.cls)
        return outs[0].st
    def one(self, name): 
        fs = self.fns.get(name, [])
        return fs[0] if fs else None
    def buffer(self, p, st):
        """the pool buffer and the places of it that members point to"""
        out = []
        for off, (s, v) in st.mem[p.A].items():
            if isinstance(v, Ptr) and v.o is not None and (meta(p.m, v.o).get('new') or meta(p.m, v.o).get('handle')): out.append((off, v))
        return out
    def reserve(self, p, st, N, fresh=True):
        """reserve( N ): checks the pool and returns the states"""
        m = p.m; f = self.one('BaseMemoryAllocator::reserve'); g = self.one(p.cls + '::reserve') or f
        if not g: raise ir.AnalysisError('reserve not found')
        outs = self.call(p, g, [Int(Poly.const(N), 64)], st); good = []
        for o in outs:
            s = o.st
            if o.kind == 'throw': continue
            try: d = p.measure(s)
            except Undecided as e: self.unk(p.entry, str(e)); continue
            self.need(p.equals(s, d['F'], [(Poly.const(0), Poly.const(N), -1)]), 'B03', p, g.where(), 'the free chunks of a new pool are not exactly the reserved memory')
            self.need(p.equals(s, d['A'], []), 'B03', p, g.where(), 'a new pool has allocated chunks')
            b = self.buffer(p, s)
            self.need(bool(b), 'B03', p, g.where(), 'no memory is allocated for the pool')
            live = {}
            for e in p.get(s, 'ev', ()):
                if e[0] == 'new': live[e[1]] = e
                if e[0] == 'delete': live.pop(e[1], None)
            for x in {v.o for _, v in b}:
                if x in live: live.pop(x)
                elif fresh: self.fail('B03', p.entry, g.where(), 'a released block is kept as pool')
            self.need(not live, 'B03', p, g.where(), 'a block allocated for the pool is lost')
            good.append(s)
        self.count('pools of enumerated size')
        return good
    def allocate(self, p, f, st, pool):
        m = p.m; ps = ir.param_list(f.dem)
        mm = re.search(r'allocate<(.*?)>', f.dem); es = {'unsigned char': 1, 'unsigned short': 2, 'float': 4, 'unsigned int': 4}.get(mm.group(1) if mm else '', None)
        if es is None: self.unk(short(f.dem), 'element size'); return None
        n = m.sym('count', 1, (1 << 63) - 1, gen=lambda g: np.where(g.rng.random(g.K) < 0.85, g.rng.integers(1, 140, g.K), g.rng.choice([1 << 40, 1 << 33, 1 << 62, (1 << 62) + 1, (1 << 63) - 1], g.K)))
        m.wrapsyms = frozenset(n.syms())       # products with the requested count may wrap around 64 bits
        outs = list(self.call(p, f, [Int(n, 64)], st.copy())); m.wrapsyms = frozenset(); N = n * es; field = None
        for o in outs:
            s = p.cur = o.st
            try: d = p.measure(s)
            except Undecided as e: self.unk(p.entry, str(e)); continue
            ev = p.get(s, 'ev', ())
            if o.kind == 'throw':
                self.need(both(p.equals(s, d['F'], []), p.equals(s, d['A'], [])), 'B03', p, f.where(), 'a failed allocation changes the pool')
                continue
            v = o.val
            if not isinstance(v, Ptr) or v.o is None: self.unk(p.entry, 'result of an allocation'); continue
            sub = [e for e in ev if e[0] == 'sub' and e[1] == v.o]
            new = [e for e in ev if e[0] == 'new' and e[1] == v.o]
            if new:
                self.need(both(p.equals(s, d['F'], []), p.equals(s, d['A'], [])), 'B03', p, f.where(), 'an allocation from the system changes the pool')
                self.need(p.ge(s, s.size[v.o] - N), 'B03', p, f.where(), 'a block smaller than requested is returned'); self.count('allocations from the system'); continue
            if sub: off = sub[0][3]; base = None
            else: off = None
            known = [x for x in p.coll(s, (p.A, p.moff)) if x != '?']
            hit = None
            for x in known:
                iv = p.interval_of(s, (p.A, p.moff), x)
                if iv is None: continue
                if sub:
                    if p.eq(s, iv[0], off): hit = (x, iv, None)
                else:
                    for o2, b in self.buffer(p, s):
                        if b.o == v.o and p.eq(s, b.p + iv[0], v.p): hit = (x, iv, (o2, b))
            if hit is None: self.need(False, 'B03', p, f.where(), 'the returned memory is not that of a chunk marked as allocated'); continue
            x, (a, L), fb = hit; b = a + (1 << L)
            self.need(p.equals(s, d['A'], [(a, b, -1)]), 'B03', p, f.where(), 'an allocation does not mark exactly the returned chunk as allocated')
            self.need(p.equals(s, d['F'], [(a, b, 1)]), 'B03', p, f.where(), 'an allocation does not remove exactly the returned chunk from the free memory')
            self.need(p.ge(s, Poly.const(1 << L) - N), 'B03', p, f.where(), 'the returned chunk is smaller than requested')
            if sub: self.need(both(p.ge(s, sub[0][4] - N), p.ge(s, Poly.const(1 << L) - sub[0][4])), 'B03', p, f.where(), 'the sub-buffer does not lie in its chunk')
            else:
                self.need(p.ge(s, s.size[fb[1].o] - fb[1].p - p.P), 'B03', p, f.where(), 'the pool reaches beyond its block')
                field = fb[0]
            self.count('allocations from the pool')
        return field
    def release(self, p, f, st, field, pool):
        """free() of a chunk of the pool, and of a block of the system"""
        m = p.m; k = (p.A, p.moff)
        if pool:
            for s, nid in p.fresh(st, k):
                p.setcoll(s, k, ['?', nid, '?']); iv = p.interval_of(s, k, nid)
                if p.cl: arg = Machine.read_cell(m, s, m.objs[nid], 32, 8, dict(k='ptr', size=8))
                else:
                    if field is None: return
                    b = s.mem[p.A][field][1]; arg = Ptr(b.o, b.p + iv[0])
                for o in self.call(p, f, [arg], s):
                    t = o.st
                    try: d = p.measure(t)
                    except Undecided as e: self.unk(p.entry, str(e)); continue
                    a, b2 = iv[0], iv[0] + (1 << iv[1]); dels = [e for e in p.get(t, 'ev', ()) if e[0] == 'delete']
                    if o.kind == 'throw':
                        moved = both(p.equals(t, d['F'], [(a, b2, -1)]), p.equals(t, d['A'], [(a, b2, 1)]))
                        kept = both(p.equals(t, d['F'], []), p.equals(t, d['A'], []))
                        self.need(True if moved or kept else None if None in (moved, kept) else False, 'B03', p, f.where(), 'a failed release leaves a chunk both free and allocated, or neither'); continue
                    self.need(p.equals(t, d['A'], [(a, b2, 1)]), 'B03', p, f.where(), 'a released chunk stays allocated')
                    self.need(p.equals(t, d['F'], [(a, b2, -1)]), 'B03', p, f.where(), 'a released chunk does not become free exactly')
                    if not p.cl: self.need(not dels, 'B03', p, f.where(), 'memory of the pool is returned to the system')
                    else: self.need(len(dels) == 1, 'B03', p, f.where(), 'the handle of a chunk is not released exactly once')
                    self.count('releases to the pool')
        o = m.newobj(st, 'heap', 'block of the system', Poly.const(64)); o.meta = dict(new='_Znam')
        bufs = sorted({b.o for _, b in self.buffer(p, st)})
        for above in (False, True) if bufs and not p.cl else (None,):
            s = st.copy()
            if above is not None:
                A = m.addr[bufs[0]]; B = m.addr[o.id] = m.sym('block address', 16, 1 << 47, gen=lambda g: g.rng.integers(16, 1 << 24, g.K))
                if not m.add(s, B - A - s.size[bufs[0]] if above else A - B - 64): continue
            self.release_system(p, f, s, o)
    def release_system(self, p, f, s, o):
        m = p.m
        for r in self.call(p, f, [Ptr(o.id, ZERO)], s):
            t = r.st; dels = [e for e in p.get(t, 'ev', ()) if e[0] == 'delete']
            if r.kind == 'throw': continue
            try: d = p.measure(t)
            except Undecided as e: self.unk(p.entry, str(e)); continue
            self.need(both(p.equals(t, d['F'], []), p.equals(t, d['A'], [])), 'B03', p, f.where(), 'releasing a block of the system changes the pool')
            self.need(len(dels) == 1 and dels[0][1] == o.id and p.eq(t, dels[0][2], ZERO) and dels[0][3], 'B03', p, f.where(), 'a block of the system is not returned to it exactly once')
            self.count('releases to the system')
    def fresh(self, cls):
        p = Pool(self, self.mod, cls); p.entry = cls; st = self.ctor(p); p.put(st, 'ev', ()); p.free_lock = False; return p, st
    def members(self, cls): return [[f for f in self.mod.defined() if short(f.dem) == cls + '::' + n] for n in ('allocate', 'free')]
    def unit(self, cls, kind, N, merge=False):
        """one part of the analysis"""
        al, fr = self.members(cls); p, st = self.fresh(cls)
        if kind == 'sizes':
            for n in N:
                p, st = self.fresh(cls); p.P = Poly.const(n); self.guard(p, lambda: self.reserve(p, st, n))
        elif kind == 'no pool':
            for f in al: self.guard(p, lambda: self.allocate(p, f, st, False))
            for f in fr: self.guard(p, lambda: self.release(p, f, st, None, False))
        else:               # any state of a pool
            p.P = Poly.const(N)
            for s in self.guard(p, lambda: self.reserve(p, st, N)) or []:
                if merge:
                    for n in sorted({max(1, N // 2), N - 1, N - N // 4, N + 1} - {0, N}): self.guard(p, lambda: self.again(p, s, N, n))
                p.reset(s); field = None
                for f in al: field = self.guard(p, lambda: self.allocate(p, f, s, True)) or field
                if not merge: continue
                for f in fr: self.guard(p, lambda: self.release(p, f, s, field, True))
                self.guard(p, lambda: self.again(p, s, N)); self.guard(p, lambda: self.destroy(p, s))
    def run(self, tier='quick', par=6):
        quick = tier == 'quick'
        sizes = list(range(1, 34)) + [48, 64, 100, 127, 128, 1000, (1 << 20) + 12345] if quick else list(range(1, 260)) + [1000, 4096, 65535, 1 << 20, (1 << 20) + 12345, (1 << 31) + 77]
        jobs = []
        for cls in ('cpu_Memory::MemoryAllocator', 'multiCL::MemoryAllocator'):
            if not all(self.members(cls)): raise ir.AnalysisError('allocate or free of %s not found' % cls)
            for N, merge in [(12, True), (5, True), (1000, False)] if quick else [(20, True), (9, True), (4, True), (1, True), (2, True), (12, True), (100, False), (20000, False)]: jobs.append((cls, 'pool', N, merge))
            jobs += [(cls, 'sizes', sizes[k::3]) for k in range(3)] + [(cls, 'no pool', 0)]
        jobs.sort(key=lambda j: -(j[2] if len(j) == 4 and j[3] else 0))
        global _shared
        _shared = self
        with multiprocessing.get_context('fork').Pool(par) as pool: res = pool.map(_job, jobs, chunksize=1)
        for bads, unks, counts, good, calls in res:
            for k, v in bads.items(): self.bads.setdefault(k, v)
            self.unks.update(unks)
            for k, v in counts.items(): self.count(k, v)
            for k, v in good.items(): self.good[k] += v
            self.calls += [c for c in calls if c not in self.calls]
        return self
    def again(self, p, st, N, to=None):
        """a second reservation: refused while chunks are in use, otherwise a new pool. With a size, the pool is as the first reservation left it"""
        k = (p.A, p.moff)
        for empty in (True, False) if to is None else (True,):
            s = st.copy(); p.put(s, 'ev', ())
            if empty: p.setcoll(s, k, ())
            else:
                for s2, nid in p.fresh(s, k)[:1]: p.setcoll(s2, k, ['?', nid, '?']); s = s2
            g = self.one(p.cls + '::reserve') or self.one('BaseMemoryAllocator::reserve'); old = {v.o for _, v in self.buffer(p, s)}
            for o in self.call(p, g, [Int(Poly.const(to or N + 30), 64)], s):
                ev = p.get(o.st, 'ev', ()); dels = [e for e in ev if e[0] == 'delete']
                if not empty:
                    self.need(o.kind == 'throw' and not dels, 'B03', p, g.where(), 'the pool is replaced while chunks of it are in use'); continue
                if o.kind == 'throw': continue
                self.need(sorted(e[1] for e in dels) == sorted(old), 'B03', p, g.where(), 'the old pool is not released exactly once')
                p2 = p.P; d = p.measure_abs(o.st) if hasattr(p, 'measure_abs') else None
                try: d = self.absolute(p, o.st)
                except Undecided as e: self.unk(p.entry, str(e)); continue
                self.need(p.equals(o.st, d, [(Poly.const(0), Poly.const(to or N + 30), -1)]), 'B03', p, g.where(), 'the free chunks of a new pool are not exactly the reserved memory')
    def absolute(self, p, st):
        d = {}
        for L in range(p.nlevels(st)):
            for x in p.coll(st, (p.LV, SETSZ * L)):
                if x == '?': raise Undecided('free chunks of the old pool remain')
                a, l = p.interval_of(st, (p.LV, SETSZ * L), x)
                for q, c in ((p.m.norm(st, a), 1), (p.m.norm(st, a + (1 << l)), -1)): d[q] = d.get(q, 0) + c
        return p.collect(st, d)
    def destroy(self, p, st):
        fs = [f for f in self.fns.get(p.cls + '::~' + p.cls.split('::')[-1], []) if 'D2E' in f.name]
        if not fs: self.unk(p.cls, 'destructor not found'); return
        s = st.copy(); p.put(s, 'ev', ()); old = sorted({v.o for _, v in self.buffer(p, s)}); p.free_lock = True
        try:
            for o in self.call(p, fs[0], [], s):
                if o.kind == 'throw': continue
                dels = sorted(e[1] for e in p.get(o.st, 'ev', ()) if e[0] == 'delete')
                self.need(dels == old, 'B03', p, fs[0].where(), 'the pool is not released exactly once when the allocator is destroyed')
        finally: p.free_lock = False
    def guard(self, p, f):
        try: return f()
        except Undecided as e: self.unk(p.entry, str(e))
        except Throws: self.unk(p.entry, 'construct not understood')
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, Fork) as e: self.unk(p.entry, 'internal: %r' % e)
def _job(j):
    c = Check.__new__(Check); c.mod = _shared.mod; c.fns = _shared.fns; c.bads = {}; c.unks = {}; c.counts = {}; c.good = {'B03': 0, 'T02': 0}; c.calls = []
    try: c.unit(*j)
    except ir.AnalysisError as e: c.unk(j[0], str(e))
    except RecursionError: c.unk(j[0], 'recursion')
    return c.bads, c.unks, c.counts, c.good, c.calls
if __name__ == '__main__':
    import time
    t = time.time(); c = Check(); c.run()
    for k, v in c.counts.items(): print(k, v)
    print(c.good, c.calls)
    for k, w in c.bads.items(): print('BAD', k, w)
    for k, w in c.unks.items(): print('UNK', k, w)
    print(time.time() - t)
