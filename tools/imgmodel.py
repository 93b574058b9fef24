"""Models of images and std::vector for the abstract interpreter, and the analysis of image functions."""
import re, time, json, os, sys, traceback
import ir
import numpy as np
from absint import *

class Layout:
    """Field offsets of ImageTemplate<T>, read from its accessors (falls back to the debug-info record)."""
    ACC = dict(width='W', height='H', colorCount='C', alignment='A', rowSize='R', type='T')
    def __init__(self, mods):
        self.off = {}; self.size = None
        for m in mods:
            for f in m.functions.values():
                b = ir.base_name(f.dem)
                if f.decl or not b.startswith('penguinV::ImageTemplate::'): continue
                n = b.split('::')[-1]
                if n in self.ACC or n == 'data':
                    off = self.accessor(f)
                    if off is not None: self.off.setdefault({'data': 'D'}.get(n, self.ACC.get(n)), off)
            for name, r in m.records.items():
                if name.startswith('penguinV::ImageTemplate<') and not r.get('enum'):
                    self.size = self.size or r['size']
                    for mm in r['members']:
                        k = {'_width': 'W', '_height': 'H', '_colorChannelCount': 'C', '_alignment': 'A', '_rowSize': 'R', '_data': 'D', '_deviceType': 'T'}.get(mm['n'])
                        if k: self.off.setdefault(k, mm['off'])
        miss = [k for k in 'WHCARDT' if k not in self.off]
        if miss or not self.size: raise ir.AnalysisError('image layout not found: missing %s' % miss)
    def accessor(self, f):
        ins = [i for b in f.blocks for i in b]
        loads = [i for i in ins if i['op'] == 'load']
        if len(f.blocks) != 1 or len(loads) != 1: return None
        o = loads[0]['ops'][0]
        if o[0] == 'a': return 0
        if o[0] == 'v':
            g = f.byid[o[1]]
            if g['op'] == 'getelementptr' and g['base'][0] == 'a' and not g['vars']: return g['off']
        return None
SZ = dict(W=4, H=4, C=1, A=1, R=4, D=8, T=1)
ESZ = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4, 'char': 1, 'signed char': 1, 'short': 2, 'int': 4, 'float': 4, 'double': 8, 'unsigned long': 8, 'long': 8, 'bool': 1}
LIM = (1 << 32) - 1

# concrete sample points for the prover's quick refutations
def shared(s, key, f):
    c = s.col.get(key)
    if c is None: c = s.col[key] = f()
    return c
def scen(s): return shared(s, 'scen', lambda: s.rng.choice([0, 0, 1, 2], s.K))      # 1: regions are whole images, 2: whole rows
def wide(s, axis): return shared(s, 'wide', lambda: s.rng.choice([1] * 9 + [8, 8, 8, 24, 24, 24, 48, 48, 48, 1 << 20], s.K)) if axis == 'W' else 1      # wide regions, for vectorised code
def jitter(s, axis): return shared(s, 'jitter', lambda: s.rng.integers(0, 7, s.K) * (wide(s, 'W') > 1)) if axis == 'W' else 0
def side(s, axis): return shared(s, 'side' + axis, lambda: s.rng.integers(1, 9, s.K) * wide(s, axis) + jitter(s, axis))
def gen_dim(axis):
    return lambda s: np.where((scen(s) == 1) | ((scen(s) == 2) & (axis == 'W')), side(s, axis), s.rng.integers(3, 24, s.K) * wide(s, axis))
def gen_cc(s):
    c = shared(s, 'C', lambda: s.rng.choice([1, 3, 4], s.K))
    return np.where(s.rng.random(s.K) < 0.7, c, s.rng.choice([1, 3, 4, 1, 3, 2], s.K))
def gen_row(W, C):
    w = next(iter(W.t))[0]; c = next(iter(C.t))[0] if not C.is_const() else None
    return lambda s: s.column(w) * (s.column(c) if c is not None else C.cval()) + np.where(scen(s) > 0, 0, s.rng.choice([0, 0, 1, 5], s.K))
def big(s, v):
    b = s.rng.choice([LIM, LIM - 1, 1 << 31, LIM - 5, 1 << 30], s.K)
    return np.where(s.rng.random(s.K) < 0.06, b, v)
def gen_start(axis):
    return lambda s: big(s, np.where((scen(s) == 1) | ((scen(s) == 2) & (axis == 'W')), 0, s.rng.geometric(0.6, s.K) - 1))
def gen_len(axis):
    return lambda s: big(s, np.where(((scen(s) == 1) | (scen(s) == 2) & (axis == 'W')) & (axis != ''), side(s, axis or 'W'), s.rng.geometric(0.4, s.K) * wide(s, axis) + jitter(s, axis) - s.rng.integers(0, 20, s.K) // 19))
def gen_param(nm):
    n = nm.lower()
    if 'start' in n or n in ('x', 'y') or 'mask' in n: return gen_start('W' if 'x' in n else 'H')
    return gen_len('W' if 'width' in n else ('H' if 'height' in n else ''))
class Models:
    def __init__(self, m, lay):
        self.m = m; self.lay = lay
        m.contracts.append(self.image); m.contracts.append(self.vector); m.contracts.append(self.misc)
        self.full = {}      # mangled name -> handler for calls that are not inlined
    # -- images
    def get(self, fr, st, ins, p, k):
        m = self.m
        if not isinstance(p, Ptr) or p.o is None: raise Undecided('image object expected at %s' % fr.fn.where(ins))
        t = dict(k='ptr', size=8) if k == 'D' else dict(k='int', w=8 * SZ[k], size=SZ[k])
        off = m.norm(st, p.p).cval()
        if off is None: raise Undecided('image in an array')
        return m.retype(m.read_cell(st, m.objs[p.o], off + self.lay.off[k], SZ[k], t), t)
    def put(self, st, p, k, v):
        off = self.m.norm(st, p.p).cval()
        self.m.write_cell(st, p.o, off + self.lay.off[k], SZ[k], v)
    def putall(self, st, p, d):
        for k, v in d.items(): self.put(st, p, k, v)
    def empty_fields(self, C=None, A=None, T=None):
        return dict(W=Int(ZERO, 32), H=Int(ZERO, 32), R=Int(ZERO, 32), D=Ptr(None, ZERO), C=C or Int(ONE, 8), A=A or Int(ONE, 8), T=T or Int(ZERO, 8))
    def dataobj(self, st, label, H, R, es, meta):
        m = self.m
        m.add(st, Poly.const(LIM) - R * H * es)       # images larger than 4 GiB are outside the claims
        return m.newobj(st, 'image', label, R * H * es, es, meta)
    def sized(self, fr, st, ins, w, h, C, A, T, es, label):
        """fields of an image after resize( w, h ): Int values"""
        m = self.m
        pw, ph, pc, pa = m.U(st, w), m.U(st, h), m.U(st, C), m.U(st, A)
        for p in (pw, ph):
            if p.cval() == 0: return self.empty_fields(C, A, T)
            if not m.prove(st, p - 1):
                raise Fork([[('eq', p)], [('ge', p - 1)]])
        if not m.prove(st, Poly.const(LIM) - pw * pc):
            # a row that does not fit is refused by the image class (checked by B02)
            if m.prove(st, pw * pc - LIM - 1): raise Throws()
            raise Fork([[('ge', Poly.const(LIM) - pw * pc)], [('ge', pw * pc - LIM - 1)]])
        if False: pass
        elif pa.cval() == 1: R = pw * pc
        else:
            R = m.sym('R', 1, LIM); m.add(st, R - pw * pc)
        o = self.dataobj(st, label, ph, R, es, dict(W=pw, H=ph, R=R, C=pc, es=es, label=label))
        return dict(W=Int(pw, 32), H=Int(ph, 32), R=Int(R, 32), D=Ptr(o.id, ZERO), C=C, A=A, T=T)
    def esz(self, fn):
        x = re.search(r'ImageTemplate<([^<>]*)>', fn.dem)
        return ESZ.get(x.group(1).strip(), 1) if x else 1
    def image(self, m, fr, st, i, fn, base, args):
        if not base.startswith('penguinV::ImageTemplate::'): return None
        n = base.split('::')[-1]; pl = ir.param_list(fn.dem); es = self.esz(fn)
        g = lambda p, k: self.get(fr, st, i, p, k)
        if n in ('width', 'height', 'colorCount', 'rowSize', 'alignment', 'type', 'data', 'empty', 'operator=='): return None
        if n == 'ImageTemplate':
            this = args[0]
            if len(pl) == 1 and 'ImageTemplate' in pl[0]:
                src = args[1]
                d = {k: g(src, k) for k in 'WHCARDT'}
                if pl[0].endswith('&&'):
                    self.putall(st, this, d)
                    self.putall(st, src, self.empty_fields()); return m.ret(st)
                self.putall(st, this, self.clone(st, d)); return m.ret(st)
            w = args[1] if len(args) > 1 else Int(ZERO, 32)
            h = args[2] if len(args) > 2 else Int(ZERO, 32)
            C = args[3] if len(args) > 3 else Int(ONE, 8); A = args[4] if len(args) > 4 else Int(ONE, 8)
            self.putall(st, this, self.sized(fr, st, i, w, h, C, A, Int(ZERO, 8), es, 'image created at %s' % fr.fn.where(i)))
            return m.ret(st)
        if n == '~ImageTemplate': return m.ret(st)
        if n == 'generate':
            out, this = args[0], args[1]
            w, h, C, A = (list(args[2:6]) + [Int(ZERO, 32), Int(ZERO, 32), Int(ONE, 8), Int(ONE, 8)][len(args) - 2:])
            f = self.sized(fr, st, i, w, h, C, A, g(this, 'T'), es, 'image generated at %s' % fr.fn.where(i))
            self.putall(st, out, f)
            return m.ret(st)
        if n == 'operator=':
            this, src = args[0], args[1]
            d = {k: g(src, k) for k in 'WHCARDT'}
            if pl and pl[0].endswith('&&'):
                mine = {k: g(this, k) for k in 'WHCARDT'}
                self.putall(st, this, d); self.putall(st, src, mine)
            else: self.putall(st, this, self.clone(st, d))
            return m.ret(st, this)
        if n == 'copy':
            self.putall(st, args[0], self.clone(st, {k: g(args[1], k) for k in 'WHCARDT'})); return m.ret(st)
        if n == 'swap':
            a = {k: g(args[0], k) for k in 'WHCARDT'}; b = {k: g(args[1], k) for k in 'WHCARDT'}
            self.putall(st, args[0], b); self.putall(st, args[1], a); return m.ret(st)
        if n == 'clear':
            C, A, T = g(args[0], 'C'), g(args[0], 'A'), g(args[0], 'T')
            self.putall(st, args[0], self.empty_fields(C, A, T)); return m.ret(st)
        if n == 'resize':
            this, w, h = args
            W, H = g(this, 'W'), g(this, 'H')
            pw, ph = m.U(st, w), m.U(st, h)
            for p in (pw, ph):
                if p.cval() == 0: return m.ret(st)
                if p.cval() is None and not m.prove(st, p - 1): raise Fork([[('eq', p)], [('ge', p - 1)]])
            c = Cond('and', Cond('cmp', 'eq', w, W), Cond('cmp', 'eq', h, H))
            d = m.decide(st, c)
            if d is None: raise Fork([[('cond', Cond('cmp', 'eq', w, W), True), ('cond', Cond('cmp', 'eq', h, H), True)], [('cond', Cond('cmp', 'ne', w, W), True)], [('cond', Cond('cmp', 'eq', w, W), True), ('cond', Cond('cmp', 'ne', h, H), True)]])
            if d: return m.ret(st)
            self.putall(st, this, self.sized(fr, st, i, w, h, g(this, 'C'), g(this, 'A'), g(this, 'T'), es, 'image resized at %s' % fr.fn.where(i)))
            return m.ret(st)
        if n in ('setColorCount', 'setAlignment'):
            k = 'C' if n == 'setColorCount' else 'A'
            cur = g(args[0], k); c = Cond('cmp', 'eq', args[1], cur); d = m.decide(st, c)
            if d is None: raise Fork([[('cond', c, True)], [('cond', c, False)]])
            if d: return m.ret(st)
            z = m.decide(st, Cond('cmp', 'eq', args[1], Int(ZERO, 8)))
            if z: return m.ret(st)
            if z is None: raise Fork([[('cond', Cond('cmp', 'eq', args[1], Int(ZERO, 8)), True)], [('cond', Cond('cmp', 'eq', args[1], Int(ZERO, 8)), False)]])
            C, A, T = g(args[0], 'C'), g(args[0], 'A'), g(args[0], 'T')
            self.putall(st, args[0], self.empty_fields(args[1] if k == 'C' else C, args[1] if k == 'A' else A, T))
            return m.ret(st)
        if n == 'fill':
            D = g(args[0], 'D')
            if isinstance(D, Ptr) and D.o is None: return m.ret(st)
            H, R = m.U(st, g(args[0], 'H')), m.U(st, g(args[0], 'R'))
            m.access(fr, st, i, D, R * H * es, 'W', Unk(taint_of(args[1], m.S), 'fill'))
            return m.ret(st)
        if n == 'assign' or n == 'mutate': raise Undecided('%s of an image' % n)
        return None
    def clone(self, st, d):
        m = self.m; d = dict(d)
        D = d['D']
        if isinstance(D, Ptr) and D.o is not None:
            o = m.objs[D.o]; meta = dict(o.meta); meta['copyof'] = o.id
            x = m.newobj(st, 'image', 'copy of ' + o.label.replace('copy of ', ''), st.size[o.id], o.esize, meta)
            d['D'] = Ptr(x.id, ZERO)
        elif not isinstance(D, Ptr): raise Undecided('copy of an image with unknown buffer')
        return d
    # -- std::vector
    def velem(self, fn):
        x = re.search(r'std::vector<(.*?)(?:, std::allocator<|>)', fn.dem)
        t = x.group(1).strip() if x else ''
        if t in ESZ: return ESZ[t]
        if t.endswith('*'): return 8
        for r in fn.mod.records:
            if r == t: return fn.mod.records[r]['size']
        return None
    def vset(self, st, p, o, n):
        """begin, end, capacity end"""
        off = self.m.norm(st, p.p).cval()
        for k, v in ((0, Ptr(o, ZERO)), (8, Ptr(o, n)), (16, Ptr(o, n))): self.m.write_cell(st, p.o, off + k, 8, v)
    def vget(self, st, p):
        off = self.m.norm(st, p.p).cval()
        t = dict(k='ptr', size=8)
        b = self.m.read_cell(st, self.m.objs[p.o], off, 8, t); e = self.m.read_cell(st, self.m.objs[p.o], off + 8, 8, t)
        return b, e
    def vnew(self, fr, st, i, p, n, es, label=None):
        o = self.m.newobj(st, 'vec', label or 'array created at %s' % fr.fn.where(i), n * es, es, dict(n=n))
        self.vset(st, p, o.id, n * es); return o
    def vector(self, m, fr, st, i, fn, base, args):
        if not base.startswith('std::vector::'): return None
        n = base.split('::')[-1]
        if n in ('size', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'empty', 'rbegin', 'rend', '_M_data_ptr'): 
            if n == 'at': return None
            return None
        es = self.velem(fn)
        if es is None: raise Undecided('vector of %s' % fn.dem[:80])
        pl = ir.param_list(fn.dem)
        if n == 'vector':
            if not pl or 'allocator' in pl[0] and 'vector' not in pl[0]: self.vset(st, args[0], None, ZERO); return m.ret(st)
            if 'unsigned long' in pl[0]:
                self.vnew(fr, st, i, args[0], m.U(st, args[1]), es); return m.ret(st)
            if 'std::vector' in pl[0] and isinstance(args[1], Ptr):
                b, e = self.vget(st, args[1])
                if pl[0].endswith('&&'):
                    self.move(st, args[0], args[1]); return m.ret(st)
                if isinstance(b, Ptr) and isinstance(e, Ptr) and b.o == e.o:
                    if b.o is None: self.vset(st, args[0], None, ZERO)
                    else:
                        o = m.newobj(st, 'vec', 'copy of ' + m.objs[b.o].label, e.p - b.p, es, dict(n=None, copyof=b.o)); self.vset(st, args[0], o.id, e.p - b.p)
                    return m.ret(st)
            if 'initializer_list' in pl[0] and len(args) >= 3 and isinstance(args[2], Int):
                self.vnew(fr, st, i, args[0], m.U(st, args[2]), es); return m.ret(st)
            raise Undecided('vector constructor %s' % pl)
        if n == '~vector': return m.ret(st)
        if n in ('resize', 'assign') and pl and 'unsigned long' in pl[0]:
            self.vnew(fr, st, i, args[0], m.U(st, args[1]), es); return m.ret(st)
        if n == 'reserve': return m.ret(st)
        if n == 'clear':
            b, e = self.vget(st, args[0])
            if isinstance(b, Ptr):
                off = m.norm(st, args[0].p).cval(); m.write_cell(st, args[0].o, off + 8, 8, b)
            return m.ret(st)
        if n in ('push_back', 'emplace_back'):
            b, e = self.vget(st, args[0])
            if not (isinstance(b, Ptr) and isinstance(e, Ptr)): raise Undecided('push_back on unknown vector')
            off = m.norm(st, args[0].p).cval()
            if b.o is None:
                o = m.newobj(st, 'vec', 'array grown at %s' % fr.fn.where(i), Poly.const(es), es, dict(n=None)); b = Ptr(o.id, ZERO); e = b
                m.write_cell(st, args[0].o, off, 8, b)
            e2 = Ptr(e.o, e.p + es)
            if m.objs[e.o].kind == 'vec': st.size[e.o] = e2.p
            m.write_cell(st, args[0].o, off + 8, 8, e2)
            return m.ret(st)
        if n == 'swap': 
            a = [self.m.read_cell(st, m.objs[args[0].o], m.norm(st, args[0].p).cval() + k, 8, dict(k='ptr', size=8)) for k in (0, 8, 16)]
            b = [self.m.read_cell(st, m.objs[args[1].o], m.norm(st, args[1].p).cval() + k, 8, dict(k='ptr', size=8)) for k in (0, 8, 16)]
            for k in range(3):
                m.write_cell(st, args[0].o, m.norm(st, args[0].p).cval() + 8 * k, 8, b[k]); m.write_cell(st, args[1].o, m.norm(st, args[1].p).cval() + 8 * k, 8, a[k])
            return m.ret(st)
        if n == 'operator=' and pl and 'vector' in pl[0]:
            if pl[0].endswith('&&'): self.move(st, args[0], args[1])
            else:
                b, e = self.vget(st, args[1])
                if not (isinstance(b, Ptr) and isinstance(e, Ptr)): raise Undecided('vector assignment')
                if b.o is None: self.vset(st, args[0], None, ZERO)
                else:
                    o = m.newobj(st, 'vec', 'copy of ' + m.objs[b.o].label, e.p - b.p, es, dict(n=None, copyof=b.o)); self.vset(st, args[0], o.id, e.p - b.p)
            return m.ret(st, args[0])
        raise Undecided('std::vector::%s' % n)
    def move(self, st, d, s):
        m = self.m
        for k in (0, 8, 16):
            v = m.read_cell(st, m.objs[s.o], m.norm(st, s.p).cval() + k, 8, dict(k='ptr', size=8))
            m.write_cell(st, d.o, m.norm(st, d.p).cval() + k, 8, v)
            m.write_cell(st, s.o, m.norm(st, s.p).cval() + k, 8, Ptr(None, ZERO))
    # -- other library functions
    def misc(self, m, fr, st, i, fn, base, args):
        if base.startswith('CpuInformation::') or base.startswith('simd::actualSimdType') :
            t = m.ty(fr, i['ty'])
            return m.ret(st, m.fresh(t, base, EMPTY, data=False)) if base.startswith('CpuInformation') else None
        if fn.decl and base in ('std::vector::_M_range_check', 'std::__throw_length_error', 'std::__throw_out_of_range_fmt', 'std::__throw_out_of_range', 'std::__throw_bad_alloc', 'std::__throw_bad_array_new_length', 'std::__throw_bad_function_call', 'std::__throw_logic_error', 'std::__throw_invalid_argument'):
            return [Outcome('throw', st, val=fr.fn.where(i))]
        if base in ('std::fill', 'std::fill_n', 'std::sort', 'std::accumulate') : return None
        return None

def parse_params(fn):
    """[(kind, elemsize, const, name)]: 'image','u32','i32','u8','u16','bool','f64','vec','ptr','other' for each IR argument (sret skipped)"""
    out = []
    pl = ir.param_list(fn.dem)
    args = [a for a in fn.args if 'sret' not in a]
    skip = len(args) - len(pl)     # this pointer
    names = [a['name'] for a in args]
    for k in range(skip): out.append(('this', 0, False, 'this'))
    for k, p in enumerate(pl):
        x = re.match(r'penguinV::ImageTemplate<([^<>]*)>( const)?(&|&&)?$', p)
        nm = names[k + skip] or 'arg%d' % k
        if x:
            out.append(('image', ESZ[x.group(1).strip()], bool(x.group(2)), nm)); continue
        x = re.match(r'std::vector<(.*?), std::allocator<.*>( const)?(&|&&)?$', p)
        if x:
            t = x.group(1).strip(); out.append(('vec', ESZ.get(t, 0), bool(x.group(2)), nm)); continue
        k2 = {'unsigned int': 'u32', 'int': 'i32', 'unsigned char': 'u8', 'unsigned short': 'u16', 'bool': 'bool', 'double': 'f64', 'float': 'f32'}.get(p)
        if k2: out.append((k2, 0, False, nm)); continue
        if p == 'simd::SIMDType': out.append(('simd', 0, False, nm)); continue
        out.append(('other', 0, False, p))
    return out
def setup(m, mdl, fn, empties, simd=None):
    """initial state for fn; empties: per image param True (empty) / False"""
    st = State(); args = []; info = []
    for a in fn.args:
        if 'sret' in a:
            o = m.newobj(st, 'cells', 'returned object', Poly.const(fn.mod.tsize(a['sret']))); args.append(Ptr(o.id, ZERO)); 
    k = 0
    for kind, es, const, nm in parse_params(fn):
        if kind == 'image':
            o = m.newobj(st, 'cells', 'image ' + nm, Poly.const(mdl.lay.size))
            p = Ptr(o.id, ZERO)
            if empties[k]:
                mdl.putall(st, p, mdl.empty_fields(Int(m.sym(nm + '.C', 1, 255), 8), Int(m.sym(nm + '.A', 1, 255), 8)))
                info.append(dict(kind='image', name=nm, empty=True, obj=o.id))
            else:
                W, H, C, A = m.sym(nm + '.W', 1, LIM, gen=gen_dim('W')), m.sym(nm + '.H', 1, LIM, gen=gen_dim('H')), m.sym(nm + '.C', 1, 255, gen=gen_cc), m.sym(nm + '.A', 1, 255)
                R = m.sym(nm + '.R', 1, LIM, gen=gen_row(W, C))
                m.add(st, R - W * C)
                d = mdl.dataobj(st, 'image ' + nm, H, R, es, dict(W=W, H=H, R=R, C=C, es=es, label=nm, param=nm))
                mdl.putall(st, p, dict(W=Int(W, 32), H=Int(H, 32), C=Int(C, 8), A=Int(A, 8), R=Int(R, 32), D=Ptr(d.id, ZERO), T=Int(m.sym(nm + '.T', 0, 255), 8)))
                info.append(dict(kind='image', name=nm, empty=False, obj=o.id, data=d.id, W=W, H=H, C=C, R=R, es=es))
            args.append(p); k += 1
        elif kind in ('u32', 'i32', 'u8', 'u16'):
            w = int(kind[1:]); lo, hi = m.rng(w, kind[0] == 'i')
            s = m.sym(nm, lo, hi, gen=gen_param(nm)); args.append(Int(s, w)); info.append(dict(kind=kind, name=nm, sym=s))
        elif kind == 'bool':
            s = m.sym(nm, 0, 1); args.append(Cond('cmp', 'ne', Int(s, 8), Int(ZERO, 8))); info.append(dict(kind=kind, name=nm, sym=s))
        elif kind == 'simd': args.append(Int(Poly.const(simd), 32)); info.append(dict(kind=kind, name=nm, value=simd))
        elif kind in ('f64', 'f32'): args.append(Unk(EMPTY, 'f')); info.append(dict(kind=kind, name=nm))
        elif kind == 'vec':
            if not es: raise Undecided('vector parameter of unknown element')
            n = m.sym(nm + '.n', 0, LIM)
            o = m.newobj(st, 'cells', 'array ' + nm, Poly.const(24)); d = m.newobj(st, 'vec', 'array ' + nm, n * es, es, dict(n=n, param=nm))
            mdl.vset(st, Ptr(o.id, ZERO), d.id, n * es)
            args.append(Ptr(o.id, ZERO)); info.append(dict(kind='vec', name=nm, n=n, data=d.id, obj=o.id, es=es))
        else: raise Undecided('parameter %s' % nm)
    return st, args, info
