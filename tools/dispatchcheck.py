"""D01: the function tables and the device independent interface.

Three parts are interpreted abstractly (absint.py; nothing is executed):
  registration  - the start-up code of each library, up to the table it hands to ImageTypeManager::setFunctionTable;
  merging       - ImageTypeManager::setFunctionTable on tables of distinct symbols, for absent and existing tables and both values of the flag;
  dispatch      - every full form of penguinV:: for all combinations of image types, registered tables and the conversion flag, with the code of
                  ImageManager inlined (containers that relocate their elements do so at every insertion)."""
import itertools, multiprocessing, os, re, time, traceback
import ir
from absint import *
from imgmodel import *
import imgmodel, imgcheck, i07
HOLDER = 'Image_Function_Helper::FunctionTableHolder'
LIBS = [('image_function.cpp', 'scalar'), ('image_function_simd.cpp', 'simd'), ('opencl/image_function_opencl.cpp', 'opencl')]
def strip(n): return re.sub(r'\d+$', '', n)
def fields(mods):
    for md in mods:
        if HOLDER in md.records: return [(x['n'], x['off']) for x in md.records[HOLDER]['members'] if x['sz'] == 8]
    raise Undecided('the table type was not found')
class DMachine(Machine):
    run = None; statics = False
    def globalv(self, fr, name, st):
        """start-up code: variables of this file begin as zero"""
        g = fr.fn.mod.globals.get(name)
        if self.statics and name not in self.funcs and name not in self.gobj and g and not g.get('const') and not g.get('decl') and 0 < fr.fn.mod.tsize(g['ty']) <= 8192:
            o = Obj(len(self.objs), 'cells', 'variable ' + g['dem']); self.objs.append(o); o.meta = None; self.gobj[name] = o
            n = fr.fn.mod.tsize(g['ty']); st.size[o.id] = Poly.const(n)
            st.mem[o.id] = {k: (8, Ptr(None, ZERO)) for k in range(0, n - 7, 8)}
            return Ptr(o.id, ZERO)
        if self.statics and name in self.gobj and self.gobj[name].kind == 'cells': return Ptr(self.gobj[name].id, ZERO)
        return Machine.globalv(self, fr, name, st)
    def indirect(self, fr, st, i, callee, args):
        if isinstance(callee, Ptr) and callee.o is None: return self.run.nullcall(fr, st, i)
        return Machine.indirect(self, fr, st, i, callee, args)
    def invoke(self, fr, st, i, fn, args):
        return Machine.invoke(self, fr, st, i, fn, args)
class Base:
    """a machine with containers, map contents and a ledger of events"""
    def __init__(self, mods, lay):
        self.mods = mods
        m = self.m = DMachine(mods); m.run = self; m.maxsteps = 400000; m.unwind = True; m.unroll = True; m.resample = {}
        self.mdl = Models(m, lay)
        m.contracts.insert(0, self.contract)
        self.rec = dict((r, md.records[r]['size']) for md in mods for r in md.records)
        self.fails = []
    def begin(self, st): self.L = self.m.newobj(st, 'cells', 'ledger', ZERO).id
    def nullcall(self, fr, st, i):
        self.note(st, ('null call', fr.fn.where(i))); return [Outcome('throw', st, val='call through a null pointer at %s' % fr.fn.where(i))]
    def get(self, st, k, d=None):
        x = st.mem[self.L].get(k); return x[1] if x else d
    def put(self, st, k, v):
        d = dict(st.mem[self.L]); d[k] = (0, v); st.mem[self.L] = d
    def note(self, st, e): self.put(st, 'ev', self.get(st, 'ev', ()) + (e,))
    def dead(self, st, o, off=None): self.put(st, 'dead', self.get(st, 'dead', frozenset()) | {(o, off)})
    def alive(self, st, o, off): self.put(st, 'dead', self.get(st, 'dead', frozenset()) - {(o, off)})
    def isdead(self, st, o, off):
        d = self.get(st, 'dead', frozenset()); return (o, None) in d or (o, off) in d
    def esize(self, t):
        t = t.strip()
        if t in ESZ: return ESZ[t]
        if t.endswith('*'): return 8
        t = t[:-6] if t.endswith(' const') else t
        if t in self.rec: return self.rec[t]
        if re.sub(r'\s+', '', t) in ('std::pair<unsignedchar,unsignedchar>',): return 2
        raise Undecided('element type %s' % t[:60])
    def ret(self, s, v=None): return Outcome('ret', s, val=v)
    # ---- containers: contents in one array
    def cell(self, st, p, k, t=dict(k='ptr', size=8)):
        m = self.m; off = m.norm(st, p.p).cval()
        if off is None: raise Undecided('container at a symbolic position')
        return m.read_cell(st, m.objs[p.o], off + k, t['size'], t)
    def setc(self, st, p, k, v, n=8):
        self.m.write_cell(st, p.o, self.m.norm(st, p.p).cval() + k, n, v)
    def isimg(self, t): return 'penguinV::ImageTemplate<' in t.split('*')[0] and not t.strip().endswith('*')
    def copyel(self, fr, st, i, src, dst, es, t, move):
        m = self.m
        if self.isimg(t):
            d = {k: self.mdl.get(fr, st, i, src, k) for k in 'WHCARDT'}
            if self.isdead(st, src.o, m.norm(st, src.p).cval()): self.note(st, ('dead', 'a destroyed image is copied', fr.fn.where(i)))
            self.mdl.putall(st, dst, d if move else self.mdl.clone(st, d))
            if move: self.mdl.putall(st, src, self.mdl.empty_fields())
            self.alive(st, dst.o, m.norm(st, dst.p).cval())
            if not move: self.note(st, ('clone', self.dobj(fr, st, i, src), self.dobj(fr, st, i, dst)))
            return
        a = m.norm(st, src.p).cval(); b = m.norm(st, dst.p).cval()
        if a is None or b is None: raise Undecided('element at a symbolic position')
        if m.objs[src.o].kind != 'cells': raise Undecided('copied element')
        for k, (n, v) in sorted(st.mem[src.o].items()):
            if isinstance(k, int) and a <= k < a + es: m.write_cell(st, dst.o, b + k - a, n, v)
    def dobj(self, fr, st, i, p):
        D = self.mdl.get(fr, st, i, p, 'D')
        return D.o if isinstance(D, Ptr) else None
    def container(self, fr, st, i, fn, base, args):
        m = self.m; _, cls, n = base.rsplit('::', 2) if base.count('::') >= 2 else ('', '', '')
        mt = re.search(r'std::(?:__cxx11::)?(vector|deque|list)<', fn.dem)
        t = self.targ(fn.dem, mt.end() - 1); stable = cls != 'vector'; es = self.esize(t); this = args[0]; pl = ir.param_list(fn.dem)
        sret = any('sret' in a for a in fn.args)
        if sret: out, this = args[0], args[1]
        def cur():
            b, e = self.cell(st, this, 0), self.cell(st, this, 8)
            if not (isinstance(b, Ptr) and isinstance(e, Ptr)): raise Undecided('container at %s' % fr.fn.where(i))
            k = m.norm(st, e.p - b.p).cval() if b.o is not None else 0
            if k is None: raise Undecided('size of a container at %s' % fr.fn.where(i))
            return b, k // es
        def store(o, k):
            for q, v in ((0, Ptr(o, ZERO)), (8, Ptr(o, Poly.const(k * es))), (16, Ptr(o, Poly.const(k * es)))): self.setc(st, this, q, v)
        if n == cls:
            store(None, 0)
            if not pl or 'allocator' in pl[0] and cls not in pl[0]: return [self.ret(st)]
            if 'unsigned long' in pl[0] or 'initializer_list' in pl[0]: raise Undecided('container constructed with a size at %s' % fr.fn.where(i))
            if pl[0].endswith('&&'):
                for q in (0, 8, 16): self.setc(st, this, q, self.cell(st, args[1], q)); self.setc(st, args[1], q, Ptr(None, ZERO))
                return [self.ret(st)]
            src = args[1]; b, e = self.cell(st, src, 0), self.cell(st, src, 8)
            if b.o is None: return [self.ret(st)]
            k = m.norm(st, e.p - b.p).cval() // es
            o = m.newobj(st, 'cells', 'copied container', Poly.const(k * es)); 
            for q in range(k): self.copyel(fr, st, i, Ptr(b.o, Poly.const(q * es)), Ptr(o.id, Poly.const(q * es)), es, t, False)
            store(o.id, k); return [self.ret(st)]
        if n == '~' + cls:
            b, k = cur()
            if b.o is not None: self.dead(st, b.o)
            return [self.ret(st)]
        if n == 'reserve': 
            self.setc(st, this, 16, self.cell(st, this, 16)); c = m.norm(st, m.U(st, args[1])).cval()
            b, k = cur()
            if c is not None and b.o is None:
                o = m.newobj(st, 'cells', 'array reserved at %s' % fr.fn.where(i), Poly.const(c * es)); o.meta = dict(cap=c)
                for q in (0, 8): self.setc(st, this, q, Ptr(o.id, ZERO))
            return [self.ret(st)]
        if n in ('push_back', 'emplace_back'):
            b, k = cur(); old = b.o
            mv = pl[0].endswith('&&') if n == 'push_back' and pl else None
            if n == 'emplace_back':
                if len(args) != 2: raise Undecided('element built in place')
                mv = bool(pl) and pl[0].endswith('&&')
            cap = (m.objs[old].meta or {}).get('cap') if old is not None else None
            if old is None or (not stable and not (cap is not None and k < cap)):
                o = m.newobj(st, 'cells', 'container at %s' % fr.fn.where(i), Poly.const((k + 1 if not stable else 64) * es)).id
                src = args[1]
                if old is not None and src.o == old: raise Undecided('element of the container inserted into it')
                for q in range(k): self.copyel(fr, st, i, Ptr(old, Poly.const(q * es)), Ptr(o, Poly.const(q * es)), es, t, True)
                if old is not None: self.dead(st, old)
            else: o = old
            if k >= 60: raise Undecided('container grows')
            self.copyel(fr, st, i, args[1], Ptr(o, Poly.const(k * es)), es, t, mv)
            store(o, k + 1); return [self.ret(st, Ptr(o, Poly.const(k * es)) if fn.mod and m.ty(fr, i['ty'])['k'] == 'ptr' else None)]
        if n in ('size',): return [self.ret(st, Int(Poly.const(cur()[1]), 64))]
        if n == 'empty': return [self.ret(st, cur()[1] == 0)]
        if n in ('operator[]', 'at', 'back', 'front'):
            b, k = cur()
            if n in ('back', 'front'): q = k - 1 if n == 'back' else 0
            else:
                q = m.norm(st, m.U(st, args[1])).cval()
                if q is None: raise Undecided('index at %s' % fr.fn.where(i))
            if not 0 <= q < k:
                if n == 'at': return [Outcome('throw', st, val=fr.fn.where(i))]
                self.note(st, ('bounds', 'element %d of %d is accessed' % (q, k), fr.fn.where(i))); return [Outcome('throw', st, val=fr.fn.where(i))]
            return [self.ret(st, Ptr(b.o, Poly.const(q * es)))]
        if n in ('begin', 'end', 'cbegin', 'cend'):
            b, k = cur(); p = Ptr(b.o, ZERO if 'begin' in n else Poly.const(k * es))
            if sret: self.setc(st, out, 0, p); return [self.ret(st)]
            return [self.ret(st, p)]
        if n == 'clear':
            b, k = cur()
            if b.o is not None: self.dead(st, b.o)
            store(None, 0); return [self.ret(st)]
        if n == 'data': return [self.ret(st, cur()[0])]
        raise Undecided('%s at %s' % (base, fr.fn.where(i)))
    def targ(self, s, k):
        d = 0; b = k + 1
        for q in range(b, len(s)):
            if s[q] in '<(': d += 1
            elif s[q] in '>)':
                d -= 1
                if d < 0: return s[b:q].strip()
            elif s[q] == ',' and d == 0: return s[b:q].strip()
        return ''
    def iterator(self, fr, st, i, fn, base, args):
        """iterators of deques and lists: a pointer to the element"""
        n = base.split('::')[-1]; m = self.m
        x = re.search(r'_(?:Deque|List)_(?:const_)?iterator<', fn.dem); es = self.esize(self.targ(fn.dem, x.end() - 1)); this = args[0]
        if any('sret' in a for a in fn.args): raise Undecided('%s at %s' % (base, fr.fn.where(i)))
        if n.startswith('_Deque_') or n.startswith('_List_'):
            if len(args) == 2: self.setc(st, this, 0, self.cell(st, args[1], 0) if 'iterator' in ' '.join(ir.param_list(fn.dem)) else args[1])
            return [self.ret(st)]
        p = self.cell(st, this, 0)
        if not isinstance(p, Ptr): raise Undecided('iterator at %s' % fr.fn.where(i))
        if n in ('operator*', 'operator->'): return [self.ret(st, p)]
        if n in ('operator++', 'operator--') and not ir.param_list(fn.dem):
            self.setc(st, this, 0, Ptr(p.o, p.p + (es if n == 'operator++' else -es))); return [self.ret(st, this)]
        if n in ('operator==', 'operator!='):
            q = self.cell(st, args[1], 0); e = p.o == q.o and m.norm(st, p.p - q.p).cval() == 0
            return [self.ret(st, e if n == 'operator==' else not e)]
        raise Undecided('%s at %s' % (base, fr.fn.where(i)))
    def exceptions(self, fr, st, i, fn, base, args):
        n = fn.name; last = base.split('::')[-1]
        if n == '__cxa_allocate_exception': return [self.ret(st, Ptr(self.m.newobj(st, 'heap', 'exception', Poly.const(256)).id, ZERO))]
        if n in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'): return [self.ret(st)]
        if n == '__cxa_begin_catch': return [self.ret(st, Unk(EMPTY, 'ptr'))]
        if n in ('__clang_call_terminate', '_ZSt9terminatev'):
            self.note(st, ('terminate', fr.fn.where(i))); return []
        if base.startswith('penguinVException::') or (base.startswith('std::') and last in ('exception', '~exception', 'runtime_error', 'logic_error')): return [self.ret(st)]
        if 'basic_string' in base or 'basic_string' in fn.dem.split('(')[0] or base == 'std::operator+':
            t = self.m.ty(fr, i['ty'])
            return [self.ret(st, Unk(EMPTY, 'ptr') if t['k'] == 'ptr' else self.m.fresh(t, 'string', EMPTY, data=False) if t['k'] != 'void' else None)]
        if base.startswith('std::allocator') or base.startswith('std::__new_allocator'): return [self.ret(st, Unk(EMPTY, 'ptr') if self.m.ty(fr, i['ty'])['k'] == 'ptr' else None)] if 'allocate' not in last else None
        if '::FunctionFacade::' in base and self.m.ty(fr, i['ty'])['k'] == 'void': return [self.ret(st)]
        if base.endswith('::FunctionFacade::instance'): return [self.ret(st, Ptr(self.m.newobj(st, 'heap', 'device functions', Poly.const(65536)).id, ZERO))]
        if base.startswith('std::function::') and last != 'operator()': return [self.ret(st, args[0] if self.m.ty(fr, i['ty'])['k'] == 'ptr' else None)]
        if n in ('_Znwm', '_Znam'):
            c = self.m.norm(st, self.m.U(st, args[0])).cval()
            if c is None: return None
            return [self.ret(st, Ptr(self.m.newobj(st, 'cells', 'object created at %s' % fr.fn.where(i), Poly.const(c)).id, ZERO))]
        if base in ('std::uncaught_exception', 'std::uncaught_exceptions'):
            t = self.m.ty(fr, i['ty']); v = bool(self.get(st, 'flying'))
            return [self.ret(st, v if t.get('w') == 1 else Int(Poly.const(int(v)), t['w']))]
        return None
    def contract(self, m, fr, st, i, fn, base, args):
        r = self.special(fr, st, i, fn, base, args)
        if r is not None: return r
        r = self.exceptions(fr, st, i, fn, base, args)
        if r is not None: return r
        if re.match(r'std::(__cxx11::)?(vector|deque|list)::', base) and base.split('::')[-2] in ('vector', 'deque', 'list'): return self.container(fr, st, i, fn, base, args)
        if '_Deque_' in base or '_List_' in base: return self.iterator(fr, st, i, fn, base, args)
        if base.split('::')[-1] in ('operator==', 'operator!=') and re.search(r'_(Deque|List)_(const_)?iterator<', fn.dem): return self.iterator(fr, st, i, fn, base, args)
        if base.startswith('penguinV::ImageTemplate::'):
            n = base.split('::')[-1]; o = args[0] if args else None
            if isinstance(o, Ptr) and o.o is not None:
                off = m.norm(st, o.p).cval()
                if n == '~ImageTemplate': self.dead(st, o.o, off)
                elif n == 'ImageTemplate': self.alive(st, o.o, off)
                if n in ('generate', 'copy') or any('sret' in a for a in fn.args): self.alive(st, o.o, off)
        return None
    def special(self, fr, st, i, fn, base, args): return None

# ---------------------------------------------------------------- registration
class Registration(Base):
    def special(self, fr, st, i, fn, base, args):
        m = self.m; last = base.split('::')[-1]
        if base == 'ImageTypeManager::instance': return [self.ret(st, Ptr(m.newobj(st, 'heap', 'manager', Poly.const(4096)).id, ZERO))]
        if base == 'ImageTypeManager::setFunctionTable':
            t = m.norm(st, m.U(st, args[1])).cval(); f = args[3]
            f = f if isinstance(f, bool) else m.decide(st, f) if not isinstance(f, Int) else bool(m.norm(st, f.p).cval())
            tab = {}
            for nm, off in self.fields: tab[nm] = self.cell(st, args[2], off)
            self.note(st, ('table', t, f, tab, fr.fn.where(i))); return [self.ret(st)]
        if base == 'ImageTypeManager::setConvertFunction':
            self.note(st, ('convert', args[1], self.ty(fr, st, i, args[2]), self.ty(fr, st, i, args[3]), fr.fn.where(i))); return [self.ret(st)]
        if fn.decl and base.startswith('multiCL::'): raise Undecided('a device is used while registering')
        return None
    def ty(self, fr, st, i, p): return self.m.norm(st, self.m.U(st, self.mdl.get(fr, st, i, p, 'T'))).cval()
def reaches(md, targets):
    """functions of the module from which a call of one of the targets is reachable"""
    callers = {}
    for f in md.functions.values():
        if f.decl: continue
        for b, x in f.instrs():
            if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g': callers.setdefault(x['callee'][1], set()).add(f.name)
    seen = set(); work = [f.name for f in md.functions.values() if ir.base_name(f.dem) in targets]
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in seen: seen.add(c); work.append(c)
    return seen
def registration(src, flags):
    """(events, problem) of the start-up code of one source file"""
    md = ir.load(ir.compile_ir(os.path.join(ir.REPO, 'src', src), flags)); lay = Layout([md])
    R = reaches(md, {'ImageTypeManager::setFunctionTable', 'ImageTypeManager::setConvertFunction'})
    roots = [md.functions[n] for n in sorted(R) if n.startswith('__cxx_global_var_init')]
    if not roots: return md, [], 'nothing is registered at start-up' if not R else 'the registration is not part of the start-up code of this file'
    evs = []
    for f in roots:
        b = Registration([md], lay); b.m.statics = True; b.fields = fields([md]); st = State(); b.begin(st)
        outs = [o for o in b.m.call(f, [], st) if b.m.feasible(o.st)]
        if any(o.kind == 'throw' for o in outs) or len(outs) != 1: raise Undecided('start-up code has %d outcomes' % len(outs))
        evs += b.get(outs[0].st, 'ev', ())
    return md, evs, None
# ---------------------------------------------------------------- merging
class Merge(Base):
    def __init__(self, mods, lay, present, pat, force, flds):
        Base.__init__(self, mods, lay); self.present = present; self.fields = flds; m = self.m
        st = self.st = State(); self.begin(st); size = self.rec[HOLDER]
        self.mgr = m.newobj(st, 'cells', 'manager', Poly.const(self.rec.get('ImageTypeManager', 4096)))
        self.node = m.newobj(st, 'cells', 'registered table', Poly.const(size + 40)); new = m.newobj(st, 'cells', 'new table', Poly.const(size))
        self.endn = m.newobj(st, 'cells', 'end of the map', Poly.const(64))
        d = {32: (1, Int(Poly.const(7), 8))}; e = {}
        for k, (n, off) in enumerate(flds):
            o, w = pat(k)
            d[40 + off] = (8, Fn('old:' + n) if o and present else Ptr(None, ZERO)); e[off] = (8, Fn('new:' + n) if w else Ptr(None, ZERO))
        st.mem[self.node.id] = d; st.mem[new.id] = e
        self.args = [Ptr(self.mgr.id, ZERO), Int(Poly.const(7), 8), Ptr(new.id, ZERO), force]
    def special(self, fr, st, i, fn, base, args):
        m = self.m; n = base.split('::')[-1]
        if base.startswith('std::map::') and HOLDER in fn.dem:
            there = self.get(st, 'there', self.present); hit = Ptr(self.node.id, ZERO); end = Ptr(self.endn.id, ZERO)
            if n in ('find', 'count', 'at', 'operator[]', 'contains'):
                k = m.read_cell(st, m.objs[args[1].o], m.norm(st, args[1].p).cval(), 1, dict(k='int', w=8, size=1))
                if m.norm(st, m.U(st, k)).cval() != 7: self.note(st, ('key', 'the table is looked up under another type', fr.fn.where(i)))
            if n == 'find': return [self.ret(st, hit if there else end)]
            if n in ('end', 'cend'): return [self.ret(st, end)]
            if n == 'count': return [self.ret(st, Int(Poly.const(int(there)), 64))]
            if n == 'operator[]' or n == 'at':
                if not there and n == 'at': return [Outcome('throw', st, val=fr.fn.where(i))]
                self.put(st, 'there', True); return [self.ret(st, Ptr(self.node.id, Poly.const(40)))]
            if n in ('insert', 'emplace', 'insert_or_assign'): raise Undecided('insertion into the map')
            raise Undecided('std::map::%s' % n)
        if '_Rb_tree_' in base and n in ('operator->', 'operator*'): 
            p = self.cell(st, args[0], 0); return [self.ret(st, Ptr(p.o, p.p + 32))]
        return None
def merging(src='image_function_helper.cpp'):
    """yields (label, obligations: [(field, ok, text)], where)"""
    md = ir.load(ir.compile_ir(os.path.join(ir.REPO, 'src', src), [])); lay = Layout([md]); flds = fields([md])
    fn = [f for f in md.by_base('ImageTypeManager::setFunctionTable') if not f.decl]
    if len(fn) != 1: raise Undecided('setFunctionTable not found')
    fn = fn[0]
    pats = [('old %s, new %s' % ('set' if o else 'absent', 'set' if w else 'absent'), (lambda o, w: lambda k: (o, w))(o, w)) for o in (0, 1) for w in (0, 1)]
    pats.append(('every combination in turn', lambda k: (k & 1, k >> 1 & 1)))
    for present in (False, True):
        for nm, pat in pats:
            if not present and nm.startswith('old set'): continue
            for force in (False, True):
                b = Merge([md], lay, present, pat, force, flds)
                outs = [o for o in b.m.call(fn, b.args, b.st) if b.m.feasible(o.st)]
                res = []
                for o in outs:
                    if o.kind == 'throw': res.append(('', False, 'registering a table fails')); continue
                    for e in b.get(o.st, 'ev', ()): res.append(('', False, e[1]))
                    if not b.get(o.st, 'there', b.present): res.append(('', False, 'the table is not stored')); continue
                    for k, (n, off) in enumerate(flds):
                        ol, nw = pat(k); ol = ol and present
                        v = b.cell(o.st, Ptr(b.node.id, Poly.const(40)), off)
                        want = ('new:' + n if force or not ol else 'old:' + n) if nw else ('old:' + n if ol else None)
                        got = v.n if isinstance(v, Fn) else None if isinstance(v, Ptr) and v.o is None else '?'
                        if got == '?': raise Undecided('entry %s after merging' % n)
                        res.append((n, got == want, '' if got == want else 'entry %s: %s instead of %s' % (n, show(got), show(want))))
                yield '%s, %s, %sforced' % ('existing table' if present else 'first table', nm, '' if force else 'not '), res, fn.where(None)
class Lookup(Merge):
    """functionTable, convert, image and setConvertFunction on maps with or without the entry asked for"""
    def __init__(self, mods, lay, fn, present, flds, ta, tb):
        Merge.__init__(self, mods, lay, present, lambda k: (1, 1), False, flds); m = self.m; st = self.st; self.ta = ta; self.tb = tb; self.slots = {}
        self.fn = fn; ps = parse_params(fn); self.args = []; self.imgs = []; T = [ta, tb]
        if any('sret' in a for a in fn.args): self.out = Ptr(m.newobj(st, 'cells', 'returned image', Poly.const(lay.size)).id, ZERO); self.args.append(self.out)
        for k, p in enumerate(ps):
            if p[0] == 'image':
                o = m.newobj(st, 'cells', 'image ' + p[3], Poly.const(lay.size)); q = Ptr(o.id, ZERO)
                self.mdl.putall(st, q, self.mdl.empty_fields(T=Int(Poly.const(T[len(self.imgs)]), 8))); self.imgs.append(q); self.args.append(q)
            elif p[0] == 'u8': self.args.append(Int(Poly.const(7), 8))
            elif p[0] == 'this': self.args.append(Ptr(self.mgr.id, ZERO))
            else: self.args.append(Fn('0:given'))
        self.cnode = m.newobj(st, 'cells', 'conversion', Poly.const(64)); st.mem[self.cnode.id] = {40: (8, Fn('0:registered'))}
        self.inode = m.newobj(st, 'cells', 'registered image', Poly.const(40 + lay.size)); self.info = []; self.off = 0
        self.mdl.putall(st, Ptr(self.inode.id, Poly.const(40)), self.mdl.empty_fields(T=Int(Poly.const(7), 8)))
    def special(self, fr, st, i, fn, base, args):
        m = self.m; n = base.split('::')[-1]; end = Ptr(self.endn.id, ZERO)
        if not base.startswith('std::map::') or HOLDER in fn.dem: return Merge.special(self, fr, st, i, fn, base, args)
        conv = 'pair<unsigned char, unsigned char>' in fn.dem[:fn.dem.rindex('::')]
        if n in ('end', 'cend'): return [self.ret(st, end)]
        if n not in ('find', 'at', 'operator[]', 'count'): raise Undecided(base)
        rd = lambda k: m.norm(st, m.U(st, m.read_cell(st, m.objs[args[1].o], m.norm(st, args[1].p).cval() + k, 1, dict(k='int', w=8, size=1)))).cval()
        key = (rd(0), rd(1)) if conv else rd(0)
        if n == 'operator[]':
            o = m.newobj(st, 'cells', 'entry', Poly.const(8 if conv else self.mdl.lay.size))
            if conv: st.mem[o.id] = {0: (8, Ptr(None, ZERO))}
            else: self.mdl.putall(st, Ptr(o.id, ZERO), self.mdl.empty_fields())
            self.note(st, ('slot', key, o.id)); return [self.ret(st, Ptr(o.id, ZERO))]
        self.note(st, ('look', key))
        node = self.cnode if conv else self.inode
        if n == 'count': return [self.ret(st, Int(Poly.const(int(self.present)), 64))]
        if n == 'at': return [self.ret(st, Ptr(node.id, Poly.const(40)))] if self.present else [Outcome('throw', st, val=fr.fn.where(i))]
        return [self.ret(st, Ptr(node.id, ZERO) if self.present else end)]
def lookups(flds):
    """yields (function, location, text or None)"""
    md = ir.load(ir.compile_ir(os.path.join(ir.REPO, 'src', 'image_function_helper.cpp'), [])); lay = Layout([md])
    for nm in ('functionTable', 'convert', 'image', 'setConvertFunction'):
        fs = [f for f in md.by_base('ImageTypeManager::' + nm) if not f.decl]
        if len(fs) != 1: yield nm, '', ('?', 'not found'); continue
        fn = fs[0]; w = fn.where(None)
        for present in (False, True):
            b = Lookup([md], lay, fn, present, flds, 4, 9); m = b.m; calls = []
            orig = m.docall
            def docall(fr, st, bl, i, orig=orig, b=b):
                c = b.m.val(fr, st, i['callee'])
                if isinstance(c, Fn) and c.n in ('0:registered', '0:given'):
                    b.note(st, ('called', c.n, [b.m.val(fr, st, a) for a in i['args']])); return [('goto', st, i['nd'])] if i['op'] == 'invoke' else [('at', st)]
                return orig(fr, st, bl, i)
            m.docall = docall
            try: outs = [o for o in m.call(fn, b.args, b.st) if m.feasible(o.st)]
            except Undecided as e: yield nm, w, ('?', str(e)); continue
            for o in outs:
                ev = b.get(o.st, 'ev', ()); bad = [e[1] for e in ev if e[0] in ('key', 'dead', 'bounds')]
                look = [e[1] for e in ev if e[0] == 'look']
                if bad: yield nm, w, bad[0]; continue
                if nm != 'setConvertFunction' and not present:
                    yield nm, w, None if o.kind == 'throw' else 'accepts a type that is not registered'; continue
                if o.kind == 'throw': yield nm, w, 'refuses registered types'; continue
                if nm == 'functionTable':
                    ok = isinstance(o.val, Ptr) and o.val.o == b.node.id and m.norm(o.st, o.val.p).cval() == 40
                    yield nm, w, None if ok else 'does not return the table of the type'
                elif nm == 'convert':
                    cs = [e for e in ev if e[0] == 'called']
                    ok = look and set(look) == {(4, 9)} and len(cs) == 1 and cs[0][1] == '0:registered' and [(a.o, m.norm(o.st, a.p).cval()) for a in cs[0][2]] == [(a.o, 0) for a in b.imgs]
                    yield nm, w, None if ok else 'does not call the conversion registered from the type of the first to the type of the second image'
                elif nm == 'image':
                    T = m.norm(o.st, m.U(o.st, b.cell(o.st, b.out, lay.off['T'], dict(k='int', w=8, size=1)))).cval()
                    yield nm, w, None if set(look) == {7} and T == 7 else 'does not return an image of the type'
                else:
                    sl = [e for e in ev if e[0] == 'slot']; c = [e for e in sl if isinstance(e[1], tuple)]; im = {e[1]: e[2] for e in sl if not isinstance(e[1], tuple)}
                    f = b.cell(o.st, Ptr(c[0][2], ZERO), 0) if len(c) == 1 else None
                    ok = len(c) == 1 and c[0][1] == (4, 9) and isinstance(f, Fn) and f.n == '0:given'
                    yield nm, w, None if ok else 'does not store the conversion for the types of the images'
                    ts = {k: m.norm(o.st, m.U(o.st, b.cell(o.st, Ptr(x, ZERO), lay.off['T'], dict(k='int', w=8, size=1)))).cval() for k, x in im.items()}
                    yield nm, w, None if ts == {4: 4, 9: 9} else 'does not store an image of each type'
def show(n): return 'nothing' if n is None else {'old': 'the registered function', 'new': 'the newly registered function'}[n[:3]] + (' of ' + n[4:])
# ---------------------------------------------------------------- dispatch
class Dispatch(Base):
    """one full form of penguinV:: for given image types, tables {type: function or not} and conversion flag"""
    def __init__(self, mods, lay, fn, field, types, have, conv, flds):
        Base.__init__(self, mods, lay); self.fn = fn; self.field = field; self.types = types; self.have = have; self.conv = conv; m = self.m; self.flds = flds
        self.st, self.args, self.info = imgmodel.setup(m, self.mdl, fn, [False] * 8)
        m.params = {q: True for q in range(len(m.S.s))}
        st = self.st; self.begin(st); k = 0; off = 1 if any('sret' in a for a in fn.args) else 0; self.off = off
        for j, i in enumerate(self.info):
            if i['kind'] == 'image': self.mdl.put(st, self.args[j + off], 'T', Int(Poly.const(types[k]), 8)); i['T'] = types[k]; k += 1
        self.tables = {}
        for t in sorted(have):
            o = m.newobj(st, 'cells', 'table of type %d' % t, Poly.const(max(o for _, o in flds) + 8)); self.tables[t] = o.id
            st.mem[o.id] = {q: (8, Fn('%d:%s' % (t, n)) if n != field or have[t] else Ptr(None, ZERO)) for n, q in flds}
        self.mgr = m.newobj(st, 'cells', 'manager', Poly.const(4096))
        self.called = []
    def special(self, fr, st, i, fn, base, args):
        m = self.m; n = base.split('::')[-1]
        if base.startswith('ImageTypeManager::'):
            if n == 'instance': return [self.ret(st, Ptr(self.mgr.id, ZERO))]
            if n == 'functionTable':
                t = m.norm(st, m.U(st, args[1])).cval()
                if t is None: raise Undecided('image type at %s' % fr.fn.where(i))
                if t not in self.tables: return [Outcome('throw', st, val=fr.fn.where(i))]
                return [self.ret(st, Ptr(self.tables[t], ZERO))]
            if n == 'isIntertypeConversionEnabled': return [self.ret(st, self.conv)]
            if n == 'imageTypes':
                o = m.newobj(st, 'cells', 'types', Poly.const(len(self.have))); st.mem[o.id] = {k: (1, Int(Poly.const(t), 8)) for k, t in enumerate(sorted(self.have))}
                for q, v in ((0, 0), (8, len(self.have)), (16, len(self.have))): self.setc(st, args[0], q, Ptr(o.id, Poly.const(v)))
                return [self.ret(st)]
            if n == 'image':
                t = m.norm(st, m.U(st, args[2])).cval()
                if t is None: raise Undecided('image type at %s' % fr.fn.where(i))
                self.mdl.putall(st, args[0], self.mdl.empty_fields(T=Int(Poly.const(t), 8))); self.alive(st, args[0].o, m.norm(st, args[0].p).cval()); return [self.ret(st)]
            if n == 'convert':
                a, b = args[1], args[2]
                for p, w in ((a, 'source'), (b, 'target')):
                    if self.isdead(st, p.o, m.norm(st, p.p).cval()): self.note(st, ('dead', 'the %s of a conversion has been destroyed' % w, fr.fn.where(i)))
                self.note(st, ('convert', self.dobj(fr, st, i, a), self.dobj(fr, st, i, b), fr.fn.where(i)))
                for k in 'WHC':
                    x, y = [m.U(st, self.mdl.get(fr, st, i, p, k)) for p in (a, b)]
                    if not (m.norm(st, x - y).cval() == 0): self.note(st, ('size', 'conversion between images of different size', fr.fn.where(i)))
                return [self.ret(st)]
            raise Undecided(base)
        return None
    def indirect(self, fr, st, i, callee, args): pass
    def judge(self, res):
        m = self.m; fi = dict(enumerate(self.info)); here = self.fn.where(None)
        outs = m.call(self.fn, self.args, self.st)
        imgs = [(k, i) for k, i in fi.items() if i['kind'] == 'image']; ps = parse_params(self.fn)
        allsame = len(set(self.types)) == 1
        ts = [t for t in sorted(set(self.types)) if self.have.get(t)]
        must = bool(ts) and allsame
        label = 'image types %s, function registered for %s, conversion %s' % (list(self.types), [t for t in self.have if self.have[t]], 'on' if self.conv else 'off')
        def bad(w, what): res['bad'].append((w, what, label))
        for o in outs:
            if not m.feasible(o.st): continue
            st = o.st; ev = self.get(st, 'ev', ())
            for e in ev:
                if e[0] in ('dead', 'bounds', 'size'): bad(e[2], e[1])
                if e[0] in ('null call',): bad(e[1], 'calls through a null table entry')
            calls = [e for e in ev if e[0] == 'call']
            if o.kind == 'throw':
                if any(e[0] in ('null call', 'bounds') for e in ev): continue
                if must: bad(str(o.val or here), 'fails although the function is registered for the type of the images')
                else: res['ok'] += 1
                continue
            if len(calls) != 1: bad(here, 'calls %d table entries' % len(calls)); continue
            e = calls[0]; t, f, av, w, rv, pos = e[1:]
            if f != self.field: bad(w, 'calls entry %s' % f); continue
            res['ok'] += 1
            if must and t != self.types[0]: bad(w, 'calls the function of type %d although one is registered for type %d' % (t, self.types[0])); continue
            if len(av) != len(fi): bad(w, 'wrong number of arguments'); continue
            conv = [(x[1], x[2]) for x in ev[:pos] if x[0] == 'convert']; back = [(x[1], x[2]) for x in ev[pos + 1:] if x[0] == 'convert']
            for k, i in fi.items():
                v = av[k]
                if i['kind'] == 'image':
                    o_, D, T, dead, whole = v
                    nm = i['name']
                    if dead: bad(w, 'argument %s refers to an image that no longer exists' % nm); continue
                    if T != t: bad(w, 'image %s of type %s is given to a function for type %d' % (nm, T, t)); continue
                    if D == i['data']:
                        if i['T'] == t: res['ok'] += 1
                        else: bad(w, 'image %s is not converted' % nm)
                        continue
                    src = [a for a, b in conv if b == D]
                    if src != [i['data']]: bad(w, 'argument %s is not a conversion of that image' % nm); continue
                    res['ok'] += 1
                    if not ps[k + 0][2]:
                        if [x for x in back if x[1] == i['data']] == [(D, i['data'])]: res['ok'] += 1
                        else: bad(w, 'the result for %s is not converted back to it' % nm)
                else:
                    same = v == ('arg', k)
                    if same: res['ok'] += 1
                    else: bad(w, 'parameter %s is not passed in its position' % i['name'])
            t_ = self.fn.mod.types[self.fn.ret] if hasattr(self.fn, 'ret') else None
            if rv is not None:
                same = o.val is rv or (isinstance(o.val, Int) and isinstance(rv, Int) and m.norm(st, m.U(st, o.val) - m.U(st, rv)).cval() == 0) or o.val == rv
                if same: res['ok'] += 1
                else: bad(w, 'does not return the result of the called function')
        return len(outs)
class DispatchMachine(DMachine): pass
def call_entry(run):
    """calls through a table entry: Fn('type:field')"""
    m = run.m; orig = m.docall
    def docall(fr, st, b, i):
        callee = m.val(fr, st, i['callee'])
        if isinstance(callee, Fn) and ':' in callee.n and callee.n.split(':')[0].isdigit():
            args = [m.val(fr, st, a) for a in i['args']]; t, f = callee.n.split(':'); av = []
            for k, v in enumerate(args):
                x = run.info[k] if k < len(run.info) else None
                if x is not None and x['kind'] == 'image':
                    if not isinstance(v, Ptr) or v.o is None: raise Undecided('image argument at %s' % fr.fn.where(i))
                    off = m.norm(st, v.p).cval()
                    av.append((v.o, run.dobj(fr, st, i, v), m.norm(st, m.U(st, run.mdl.get(fr, st, i, v, 'T'))).cval(), run.isdead(st, v.o, off), off == 0))
                else: av.append(('arg', k) if x is not None and same(run, st, v, run.args[k + run.off], x) else ('other', str(v)))
            ty = m.ty(fr, i['ty']); rv = None
            if ty['k'] != 'void': rv = m.fresh(ty, 'result of the operation', EMPTY, data=False)
            run.note(st, ('call', int(t), f, av, fr.fn.where(i), rv, len(run.get(st, 'ev', ()))))
            if rv is not None: st.env[i['id']] = rv
            return [('goto', st, i['nd'])] if i['op'] == 'invoke' else [('at', st)]
        return orig(fr, st, b, i)
    m.docall = docall
def same(run, st, v, a, x):
    m = run.m
    if v is a: return True
    if isinstance(v, Int) and isinstance(a, Int): return m.norm(st, m.U(st, v) - m.U(st, a)).cval() == 0
    if isinstance(v, Ptr) and isinstance(a, Ptr): return v.o == a.o and m.norm(st, v.p - a.p).cval() == 0
    if isinstance(v, bool) or isinstance(a, bool): return v is a
    if isinstance(v, Cond) and isinstance(a, Cond):
        return v is a or (m.decide(st, a) is not None and m.decide(st, a) == m.decide(st, v)) or all(eqc(m, st, a, v, b) for b in (True, False))
    return False
def eqc(m, st, a, v, b):
    s = m.assume_all(st, [('cond', a, b)])
    return s is None or m.decide(s, v) is b
MODS = None; LAY = None; FLDS = None
def targets(scalar):
    """[(function of penguinV::, field)]: the operation of a field is the scalar function of that signature"""
    out = []; none = []
    for f in MODS[0].functions.values():
        b = ir.base_name(f.dem).split('::')
        if f.decl or len(b) != 2 or b[0] != 'penguinV' or '<' in f.dem.split('(')[0]: continue
        sig = (b[1], tuple(ir.param_list(f.dem)))
        for field, (nm, pl) in scalar.items():
            if sig == (strip(nm), tuple(pl)): out.append((f.name, field))
    return out
def job(a):
    name, field = a; fn = MODS[0].functions[name]; res = dict(ok=0, bad=[], runs=0, paths=0); t0 = time.time()
    ps = [p for p in parse_params(fn) if p[0] != 'this']; ni = sum(1 for p in ps if p[0] == 'image')
    try:
        for types in itertools.product((0, 1), repeat=ni):
            for have in itertools.product((False, True), repeat=2):
                for conv in (False, True):
                    d = Dispatch(MODS, LAY, fn, field, types, dict(enumerate(have)), conv, FLDS); call_entry(d)
                    res['paths'] += imgcheck.limited(lambda: d.judge(res)); res['runs'] += 1
        return a, fn.dem, dict(res, time=time.time() - t0), None
    except Undecided as e: return a, fn.dem, res, str(e)
    except Exception as e: return a, fn.dem, None, 'internal: %r %s' % (e, traceback.format_exc()[-700:])
def dispatch(scalar, flds, procs=8):
    global MODS, LAY, FLDS
    MODS = imgcheck.load(dict(src=['penguinv/penguinv.cpp'], flags=[])); LAY = Layout(MODS); FLDS = flds
    jobs = targets(scalar)
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=4) as p:
        for x in p.imap_unordered(job, jobs): yield x
if __name__ == '__main__':
    import sys
    sc = {}
    for s, nm in LIBS:
        try: md, evs, prob = registration(s, [])
        except Undecided as e: print(nm, 'UNDECIDED', e); continue
        print(nm, prob, [(e[0], e[1:3]) for e in evs])
        for e in evs:
            if e[0] == 'table':
                if nm == 'scalar': fl = fields([md]); sc = {n: (ir.base_name(md.functions[v.n].dem).split('::')[-1], ir.param_list(md.functions[v.n].dem)) for n, v in e[3].items() if isinstance(v, Fn)}
                print({n: (ir.base_name(md.functions[v.n].dem) if isinstance(v, Fn) else v) for n, v in e[3].items()})
    for x in lookups(fl): print(x)
    for l, r, w in merging(): print(l, len(r), [x for x in r if not x[1]])
    for a, dem, r, err in dispatch(sc, fl, 4): print(a[1], r and (r['ok'], r['runs'], r.get('time')), err, sorted({(b[0], b[1]) for b in r['bad']})[:4] if r else '')
