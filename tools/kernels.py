"""O03: memory accesses of the OpenCL kernels, decided on the LLVM IR of the program text (never executed).

The program text is the constant of the host sources that contains __kernel; it is compiled for a generic 64-bit OpenCL target. Every kernel is enumerated path by path (a block at most
three times per path). Integers are polynomials over the arguments, the global ids and opaque values; comparisons become facts of the path."""
import os, re, hashlib
import ir
LOOP = 3
class Stop(Exception): pass
def P(x): return {(): x} if x else {}
def S(s): return {(s,): 1}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n, key=repr)); r[q] = r.get(q, 0) + c * d
            if not r[q]: del r[q]
    return r
def cst(p): return p.get((), 0) if not p or list(p) == [()] else None
def key(p): return tuple(sorted(p.items(), key=repr))
def syms(p): return {s for m in p for s in m}
class Ptr:
    def __init__(self, base, off): self.base = base; self.off = off
class Cmp:
    def __init__(self, pred, a, b): self.pred = pred; self.a = a; self.b = b
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
class Bool:
    def __init__(self, alts, nalts): self.t = alts; self.f = nalts      # lists of alternatives, each a list of (pred, a, b)
def lit(pred, a, b): return Bool([[(pred, a, b)]], [[(NEG[pred], a, b)]])
TRUE = Bool([[]], []); FALSE = Bool([], [[]])
def land(x, y): return Bool([p + q for p in x.t for q in y.t], x.f + [p + q for p in x.t for q in y.f])
def lnot(x): return Bool(x.f, x.t)
def less(facts):
    """facts as polynomials known to be negative"""
    for pred, a, b in facts:
        if pred in ('ult', 'slt'): yield padd(a, b, -1)
        elif pred in ('ule', 'sle'): yield padd(padd(a, b, -1), P(-1))
        elif pred in ('ugt', 'sgt'): yield padd(b, a, -1)
        elif pred in ('uge', 'sge'): yield padd(padd(b, a, -1), P(-1))
        elif pred == 'eq':
            yield padd(padd(a, b, -1), P(-1)); yield padd(padd(b, a, -1), P(-1))
        elif pred == 'ne' and cst(b) == 0: yield padd(P(0), a, -1)
def lt(q, w, facts):
    d = padd(q, w, -1)
    for f in less(facts):
        c = cst(padd(d, f, -1))
        if c is not None and c <= 0: return True
    return False
class Run:
    def __init__(self, mod): self.mod = mod; self.acc = []; self.steps = 0; self.npath = 0; self.fresh = 0
    def size(self, t): return self.mod.types[t].get('size', 0)
    def val(self, v, env, args):
        k = v[0]
        if k == 'v': return env[v[1]]
        if k == 'a': return args[v[1]]
        if k == 'i':
            w = int(v[1]); n = int(v[2])
            if w == 1: return TRUE if n & 1 else FALSE
            return P(n)
        if k == 'n': return Ptr(None, {})
        return self.opaque('value', repr(v))
    def opaque(self, *a): return S(('op',) + a)
    def num(self, x):
        if isinstance(x, dict): return x
        if isinstance(x, Bool): return S(('op', 'bool', repr((x.t, x.f))))
        raise Stop('a pointer is used as a number')
    def bool(self, x):
        if isinstance(x, Bool): return x
        c = cst(x)
        if c is not None: return TRUE if c & 1 else FALSE
        return lit('ne', x, {})
    def feasible(self, alt):
        for pred, a, b in alt:
            c = cst(padd(a, b, -1))
            if c is not None and not {'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'slt': c < 0, 'ule': c <= 0, 'sle': c <= 0, 'ugt': c > 0, 'sgt': c > 0, 'uge': c >= 0, 'sge': c >= 0}[pred]: return False
        return True
    def access(self, fn, i, p, size, kind, facts):
        if isinstance(p, Ptr) and p.base is not None:
            if isinstance(p.base, tuple) and p.base[0] == 'local': return
            self.acc.append((fn, i, p.base, p.off, size, kind, list(facts)))
        else: raise Stop('access through an unknown pointer at line %s' % i.get('ln'))
    def run(self, fn, args, facts, depth=0):
        if depth > 6: raise Stop('calls nested too deeply')
        work = [(0, None, 0, {}, list(facts), {}, {})]
        while work:
            b, pred, idx, env, facts, hops, mem = work.pop()
            ins = fn.blocks[b]
            if idx == 0:
                n = hops.get(b, 0)
                if n >= LOOP: continue
                hops = dict(hops); hops[b] = n + 1
                new = {}
                for i in ins:
                    if i['op'] != 'phi': break
                    for pb, v in i['inc']:
                        if pb == pred: new[i['id']] = self.val(v, env, args)
                env = dict(env); env.update(new)
            k = idx
            while k < len(ins):
                i = ins[k]; op = i['op']; self.steps += 1
                if self.steps > 100000: raise Stop('too many paths')
                V = lambda o: self.val(o, env, args)
                if op == 'phi': k += 1; continue
                if op == 'br':
                    if 'cond' in i:
                        c = self.bool(V(i['cond']))
                        for alts, s in ((c.t, i['succ'][0]), (c.f, i['succ'][1])):
                            for alt in alts:
                                if self.feasible(alt): work.append((s, b, 0, env, facts + alt, hops, mem))
                    else: work.append((i['succ'][0], b, 0, env, facts, hops, mem))
                    break
                if op == 'switch':
                    v = self.num(V(i['cond'])); cs = [(P(int(x[0][2])), x[1]) for x in i['cases']]
                    for c, s in cs: work.append((s, b, 0, env, facts + [('eq', v, c)], hops, mem))
                    work.append((i['def'], b, 0, env, facts + [('ne', v, c) for c, s in cs], hops, mem)); break
                if op == 'ret':
                    yield facts, (V(i['ops'][0]) if i.get('ops') else None); break
                if op == 'unreachable': break
                if op == 'select':
                    c = self.bool(V(i['ops'][0])); x, y = V(i['ops'][1]), V(i['ops'][2])
                    for alts, v in ((c.t, x), (c.f, y)):
                        for alt in alts:
                            if self.feasible(alt):
                                e = dict(env); e[i['id']] = v; work.append((b, pred, k + 1, e, facts + alt, hops, mem))
                    break
                if op == 'call':
                    name = i['callee'][1] if i.get('callee') and i['callee'][0] == 'g' else None
                    vals = [V(a) if a[0] != 'm' else None for a in i['args']]
                    f = self.mod.functions.get(name) if name else None
                    if f is not None and not f.decl:
                        for fs, v in list(self.run(f, vals, facts, depth + 1)):
                            e = dict(env); e[i['id']] = v; work.append((b, pred, k + 1, e, fs, hops, mem))
                        break
                    m = re.match(r'_Z\d+(get_global_id|get_global_size|get_local_id|get_local_size|get_group_id|get_num_groups|get_global_offset)j$', name or '')
                    if m: r = S(('id', m.group(1), cst(vals[0])))
                    elif name and re.match(r'_Z\d+atom', name):
                        self.access(fn, i, vals[0], self.size(i['ty']), 'atomic', facts); self.fresh += 1; r = self.opaque('atomic', self.fresh)
                    elif name and (name.startswith('llvm.') or re.match(r'_Z\d+(mem_fence|barrier)', name)): r = self.opaque('intrinsic', name, k)
                    elif any(isinstance(v, Ptr) for v in vals): raise Stop('a pointer is passed to %s' % name)
                    elif name and re.match(r'_Z\d+mul24[ij]', name): r = pmul(vals[0], vals[1])
                    elif name and re.match(r'_Z\d+mad24[ij]', name): r = padd(pmul(vals[0], vals[1]), vals[2])
                    else: r = self.opaque('call', name, tuple(key(self.num(v)) for v in vals))
                    env = dict(env); env[i['id']] = r; k += 1; continue
                env = dict(env)
                if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): r = V(i['ops'][0])
                elif op == 'icmp':
                    a, c = V(i['ops'][0]), V(i['ops'][1])
                    if isinstance(a, Bool) or isinstance(c, Bool):
                        if isinstance(c, Bool): a, c = c, a
                        z = cst(c) if isinstance(c, dict) else None
                        r = (a if (i['pred'] == 'ne') == (z == 0) else lnot(a)) if z in (0, 1) and i['pred'] in ('eq', 'ne') else self.bool(self.opaque('cmp', fn.name, i['id']))
                    elif isinstance(a, Ptr) or isinstance(c, Ptr): r = self.bool(self.opaque('cmp', fn.name, i['id']))
                    else: r = lit(i['pred'], a, c)
                elif op in ('and', 'or', 'xor') and self.mod.types[i['ty']].get('w') == 1 or op in ('and', 'or') and all(isinstance(V(o), Bool) for o in i['ops']):
                    a, c = (self.bool(V(o)) for o in i['ops'][:2])
                    r = land(a, c) if op == 'and' else lnot(land(lnot(a), lnot(c))) if op == 'or' else lnot(a) if c is TRUE else self.bool(self.opaque('xor', fn.name, i['id']))
                elif op in ('add', 'sub', 'mul', 'shl'):
                    a, c = self.num(V(i['ops'][0])), self.num(V(i['ops'][1]))
                    if op == 'add': r = padd(a, c)
                    elif op == 'sub': r = padd(a, c, -1)
                    elif op == 'mul': r = pmul(a, c)
                    elif cst(c) is not None: r = pmul(a, P(1 << cst(c)))
                    else: r = self.opaque(op, key(a), key(c))
                    if cst(r) is None and cst(c) is not None and op == 'add' and cst(c) >= 1 << (self.mod.types[i['ty']]['w'] - 1): r = padd(a, P(cst(c) - (1 << self.mod.types[i['ty']]['w'])))
                elif op == 'getelementptr':
                    p = V(i['base']); off = P(int(i.get('off') or 0))
                    for v, sc in i['vars']: off = padd(off, pmul(self.num(V(v)), P(int(sc))))
                    if not isinstance(p, Ptr): raise Stop('address of an unknown pointer')
                    r = Ptr(p.base, padd(p.off, off))
                elif op == 'alloca': r = Ptr(('local', fn.name, i['id']), {})
                elif op == 'load':
                    p = V(i['ops'][0]); self.access(fn, i, p, self.size(i['ty']), 'load', facts)
                    r = mem.get((p.base, key(p.off))) if isinstance(p.base, tuple) else None
                    if r is None: r = S(('load', self.size(i['ty']), p.base, key(p.off)))
                    if self.mod.types[i['ty']]['k'] == 'ptr': raise Stop('a pointer is loaded from memory')
                elif op == 'store':
                    p = V(i['ops'][1]); self.access(fn, i, p, self.size(i['vty']), 'store', facts)
                    if isinstance(p.base, tuple): mem = dict(mem); mem[(p.base, key(p.off))] = V(i['ops'][0])
                    k += 1; continue
                elif op == 'atomicrmw':
                    self.access(fn, i, V(i['ops'][0]), self.size(i['ty']), 'atomic', facts); self.fresh += 1; r = self.opaque('atomic', self.fresh)
                else: r = self.opaque(op, tuple(key(self.num(V(o))) for o in i.get('ops', []) if not isinstance(V(o), Ptr)), i.get('ty'))
                env[i['id']] = r; k += 1
def programs():
    """(text, host file, line of the text in it or None) of every OpenCL program kept in the host sources"""
    S_ = os.path.join(ir.REPO, 'src', 'opencl'); out = []
    for n in sorted(os.listdir(S_)):
        if not n.endswith('.cpp'): continue
        mod = ir.load(ir.compile_ir(os.path.join(S_, n), []))
        for g in mod.globals.values():
            t = g.get('str')
            if not t or '__kernel' not in t and not re.search(r'\bkernel\s+void', t): continue
            t = t.rstrip('\0'); src = open(os.path.join(S_, n)).read(); at = src.find(t)
            out.append((t, 'src/opencl/' + n, src.count('\n', 0, at) if at >= 0 else None))
    return out
FLAGS = ['-x', 'cl', '-cl-std=CL1.2', '-target', 'spir64', '-Xclang', '-finclude-default-header', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w']
def compile_program(text):
    os.makedirs(ir.CACHE, exist_ok=True)
    p = os.path.join(ir.CACHE, 'program-%s.cl' % hashlib.sha256(text.encode()).hexdigest()[:16])
    if not os.path.exists(p):
        with open(p + '.%d' % os.getpid(), 'w') as f: f.write(text)
        os.rename(p + '.%d' % os.getpid(), p)
    return ir.load(ir.compile_ir(p, FLAGS, base=[]))
def dim(s): return s[2] if s[0] == 'id' else None
def name(mod, f, k): return f.args[k].get('name') or 'argument %d' % (k + 1)
def kernels(mod):
    called = {i['callee'][1] for f in mod.defined() for b, i in f.instrs() if i['op'] == 'call' and i.get('callee') and i['callee'][0] == 'g'}
    return [f for f in mod.defined() if f.name not in called and any(mod.types[a['ty']]['k'] == 'ptr' for a in f.args)]
def width_of(mod, f): return lambda k: mod.types[f.args[k]['ty']].get('w') if k < len(f.args) and mod.types[f.args[k]['ty']]['k'] == 'int' else None
def roles(mod, f, R):
    """images of a kernel {pointer parameter: (offset, row size, colours or None)} and its other 32-bit parameters"""
    W = width_of(mod, f); img = {}; used = set()
    for k in range(len(f.args)):
        sizes = {a[4] for a in R.acc if a[2] == k}
        if mod.types[f.args[k]['ty']]['k'] == 'ptr' and sizes == {1} and W(k + 1) == 32 and W(k + 2) == 32:
            img[k] = (('arg', k + 1), ('arg', k + 2), ('arg', k + 3) if W(k + 3) == 8 and k + 4 < len(f.args) else None); used |= {k + 1, k + 2}
    if len([k for k in range(len(f.args)) if W(k) == 32 and k not in used]) < 2: img = {}; used = set()      # no width and height: plain buffers
    return img, [k for k in range(len(f.args)) if W(k) == 32 and k not in used]
def check(rep, tier):
    rep.rule = ('every access of a kernel to an image (pointer parameter followed by its offset and row size) must be at offset + y * rowSize + x (x * colours + channel if the kernel gets the number of colours), with that image\'s own offset and row size, '
                'x taken from the first and y from the second coordinate, and the path must have established x < width and y < height; every other buffer is indexed by a constant, by a pixel value or by a guarded index')
    rep.assumptions = ['offsets and row sizes fit 32 bits without wrap-around', 'the host passes at least one colour and a channel below the number of colours', 'tables indexed by a pixel value have 256 entries']
    nk = 0
    for text, host, base in programs():
        try: mod = compile_program(text)
        except ir.AnalysisError as e: rep.unk(host, '', 'the OpenCL program does not compile: ' + str(e).splitlines()[0][:150]); continue
        for f in kernels(mod):
            nk += 1; R = Run(mod); nargs = []
            for k, a in enumerate(f.args): nargs.append(Ptr(k, {}) if mod.types[a['ty']]['k'] == 'ptr' else S(('arg', k)))
            try: paths = len(list(R.run(f, nargs, [])))
            except (Stop, KeyError) as s: rep.unk(host, f.dem, 'not analysed: %s' % s); continue
            rep.count('kernels'); rep.count('paths', paths)
            W = width_of(mod, f)
            img, limits = roles(mod, f, R)
            seen = set()
            for fn, i, b, off, size, kind, facts in R.acc:
                where = '%s:%d' % (host, base + i.get('ln', 0)) if base is not None else host
                sig = (i.get('ln'), b, kind, key(off), tuple(sorted(map(repr, facts))))
                if sig in seen: continue
                seen.add(sig); rep.count('accesses')
                def bad(t):
                    rep.fail(where, f.dem, '%s of buffer %d: %s' % (kind, b + 1, t), '')
                if any(s[0] == 'op' for s in syms(off)): rep.unk(where, f.dem, 'index with an operation outside the domain'); continue
                bound = lambda q: [k for k in limits if lt(q, S(('arg', k)), facts)]
                def inside(q):
                    r = bound(q)
                    for k in limits:                                    # mirrored coordinate
                        g = padd(padd(S(('arg', k)), P(-1)), q, -1)
                        if k not in r and all(c > 0 for c in g.values()) and lt(g, S(('arg', k)), facts): r.append(k)
                    return r
                if b not in img:
                    if size == 0 or any(c % size for c in off.values()): rep.unk(where, f.dem, 'unaligned index'); continue
                    q = {m: c // size for m, c in off.items()}
                    if cst(q) is not None or len(q) == 1 and list(q.values()) == [1] and list(q)[0] and len(list(q)[0]) == 1 and list(q)[0][0][:2] == ('load', 1): rep.good(1); continue
                    if not bound(q) and not any(bound(padd(q, S(('arg', k)), -1)) for k in limits): bad('the index is not compared with a limit on this path')
                    else: rep.good(1)
                    continue
                o, rs, cc = img[b]; D = padd(off, S(o), -1)
                if any(s in syms(D) for s in [o] + [x for k, v in img.items() if k != b for x in v[:2]]): bad('the index does not use the offset and row size of this buffer'); continue
                Y = {}; X = {}; ok = True
                for m, c in D.items():
                    if m.count(rs) == 1: q = list(m); q.remove(rs); Y[tuple(q)] = c
                    elif rs in m: ok = False
                    else: X[m] = c
                ch = {}
                if cc is not None and (cc in syms(D)):
                    if cc in syms(Y): bad('the row size is multiplied by the number of colours'); continue
                    Z = {}
                    for m, c in X.items():
                        if m.count(cc) == 1: q = list(m); q.remove(cc); Z[tuple(q)] = c
                        else: ch[m] = c
                    X = Z
                elif cc is not None and X and kind != 'none' and any(dim(s) is not None for s in syms(X)) : bad('the column is not multiplied by the number of colours'); continue
                if not ok: bad('the row size is multiplied by itself'); continue
                if ch:
                    n = cst(ch)
                    if n == 0 or n is None and len(ch) == 1 and list(ch.values()) == [1] and list(ch)[0][0][0] == 'arg' and W(list(ch)[0][0][1]) == 8: pass
                    elif not lt(ch, S(cc), facts): bad('the channel is not below the number of colours'); continue
                if any(dim(s) == 1 for s in syms(X)) or any(dim(s) == 0 for s in syms(Y)): bad('row and column are exchanged'); continue
                if kind == 'store' and (not syms(X) or not syms(Y)): bad('all work-items of a row or column write the same element'); continue
                bx, by = inside(X), inside(Y)
                if not any(x < y for x in bx for y in by): bad('column and row are not both compared with width and height on this path'); continue
                rep.good(1)
            if len(rep.samples) < 12: rep.samples.append('%s: %d paths, %d accesses' % (f.dem, paths, len(seen)))
    rep.floor('kernels', nk, 5)

# ---- O02: host functions that pass arguments to kernels
SIZE = {'unsigned char': 8, 'signed char': 8, 'char': 8, 'bool': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32, 'float': 32, 'unsigned long': 64, 'long': 64, 'double': 64, 'unsigned long long': 64, 'long long': 64}
def split(t):
    out = []; d = 0; cur = ''
    for c in t:
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += c in '<('; d -= c in '>)'; cur += c
    return out + [cur.strip()] if cur.strip() else out
class Host:
    """values of a host function as polynomials over its parameters and properties of images"""
    def __init__(self, mod, fn): self.mod = mod; self.fn = fn; self.memo = {}
    def callee(self, i):
        c = i.get('callee')
        if not c or c[0] != 'g': return ''
        f = self.mod.functions.get(c[1]); return f.dem if f else c[1]
    def obj(self, v): return ('a', v[1]) if v[0] == 'a' else tuple(v) if v[0] in ('v', 'g') and not isinstance(v[1], dict) else ('?', repr(v))
    def val(self, v, depth=0):
        if v[0] == 'i': return P(int(v[2]))
        if v[0] == 'a': return S(('arg', v[1]))
        if v[0] != 'v' or depth > 40: return S(('op', repr(v)))
        if v[1] not in self.memo: self.memo[v[1]] = self.ins(self.fn.byid.get(v[1]), v, depth)
        return self.memo[v[1]]
    def ins(self, i, v, depth):
        if i is None: return S(('op', repr(v)))
        op = i['op']; R = lambda k: self.val(i['ops'][k], depth + 1)
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): return R(0)
        if op == 'add': return padd(R(0), R(1))
        if op == 'sub': return padd(R(0), R(1), -1)
        if op == 'mul': return pmul(R(0), R(1))
        if op == 'phi':
            vs = {key(self.val(x, depth + 1)): self.val(x, depth + 1) for _, x in i['inc'] if x != v}
            if len(vs) == 1: return list(vs.values())[0]
        if op in ('call', 'invoke'):
            d = self.callee(i); n = ir.base_name(d).split('::')[-1] if d else ''
            if n in ('rowSize', 'data', 'colorCount', 'width', 'height') and 'Image' in d and len(i['args']) == 1: return S((n, self.obj(i['args'][0])))
            if n == 'CheckCommonColorCount': return S(('colorCount', 'common'))
        return S(('op', v[1]))
def text_of(mod, v):
    g = mod.globals.get(v[1]) if v[0] == 'g' else None
    return g.get('str', '').rstrip('\0') if g and g.get('str') else None
def strings(mod, fn, v, depth=0):
    """texts a const char pointer may point to, None when not known"""
    t = text_of(mod, v)
    if t is not None: return [t]
    i = fn.byid.get(v[1]) if v[0] == 'v' else None
    if i is None or depth > 5: return None
    vs = i['ops'][1:3] if i['op'] == 'select' else [x for _, x in i['inc']] if i['op'] == 'phi' else None
    if vs is None: return None
    out = []
    for x in vs:
        r = strings(mod, fn, x, depth + 1)
        if r is None: return None
        out += r
    return out
def host_check(rep, tier):
    rep.rule = ('every function that creates a kernel: the kernel name is defined exactly once by a program of the library, the types of the arguments passed have number, kind and size of the kernel parameters, the pointer, offset and row size of an image parameter are those of the same image, '
                'the offset is y * rowSize + x * colours of the coordinates given for that image, and the launch covers the width and height passed')
    rep.assumptions = ['a function of Image_Function_OpenCL that takes an image followed by two 32-bit values takes its x and y', 'rows do not wrap around 32 bits']
    ker = {}; partial = False
    for text, host, base in programs():
        try: mod = compile_program(text)
        except ir.AnalysisError as e: rep.unk(host, '', 'the OpenCL program does not compile: ' + str(e).splitlines()[0][:150]); partial = True; continue
        for f in kernels(mod):
            R = Run(mod)
            try: list(R.run(f, [Ptr(k, {}) if mod.types[a['ty']]['k'] == 'ptr' else S(('arg', k)) for k, a in enumerate(f.args)], []))
            except (Stop, KeyError): R.acc = []
            ker.setdefault(f.name, []).append((mod, f, R))
    n = 0; d_ = os.path.join(ir.REPO, 'src', 'opencl')
    for src in sorted(x for x in os.listdir(d_) if x.endswith('.cpp')):
        mod = ir.load(ir.compile_ir(os.path.join(d_, src), []))
        for fn in mod.defined():
            if not fn.file or not ir.relname(fn.file).startswith('src/opencl/'): continue
            H = Host(mod, fn); made = []; sets = []; runs = []; strs = {}
            for b, i in fn.instrs():
                if i['op'] not in ('call', 'invoke'): continue
                d = H.callee(i)
                if 'basic_string(char const*' in d and len(i['args']) > 1: strs.setdefault(H.obj(i['args'][0]), []).append(i['args'][1])
                elif d.startswith('multiCL::OpenCLKernel::OpenCLKernel(multiCL::OpenCLProgram'): made.append(i)
                elif re.match(r'void multiCL::OpenCLKernel::setArgument<', d): sets.append((i, d))
                elif re.match(r'multiCL::launchKernel\dD\(', d): runs.append(i)
            if fn.dem.startswith('void multiCL::OpenCLKernel::setArgument') or not made: continue
            rep.count('functions that create kernels')
            for i in made:
                ks = strs.get(H.obj(i['args'][2])); n += 1
                names = None
                if ks and len(ks) == 1: names = strings(mod, fn, ks[0])
                if not names: rep.unk(fn.where(i), ir.base_name(fn.dem), 'the kernel name is not a constant'); continue
                for nm in names:
                    if nm not in ker and partial: rep.unk(fn.where(i), ir.base_name(fn.dem), 'the program of %s is not known' % nm); continue
                    if nm not in ker: rep.fail(fn.where(i), ir.base_name(fn.dem), 'no program defines the kernel %s' % nm, ''); continue
                    rep.good(1)
                    k = ker[nm]
                    mine = [(j, d) for j, d in sets if H.obj(j['args'][0]) == H.obj(i['args'][0])]
                    if not mine: rep.unk(fn.where(i), ir.base_name(fn.dem), 'arguments of %s are set elsewhere' % nm); continue
                    C = fn.cfg(); bl = {j['id']: b for b, j in fn.instrs()}
                    if not all(C.dominates(bl[x['id']], bl[y['id']]) or C.dominates(bl[y['id']], bl[x['id']]) for x, _ in mine for y, _ in mine): rep.unk(fn.where(i), ir.base_name(fn.dem), 'arguments of %s are set on different paths' % nm); continue
                    if len(mine) > 1 and any(fn.cfg().inner[b] is not None for b, j in fn.instrs() if any(j is x for x, _ in mine)): rep.unk(fn.where(i), ir.base_name(fn.dem), 'arguments are set in a loop'); continue
                    one(rep, mod, fn, H, mine, [j for j in runs if H.obj(j['args'][0]) == H.obj(i['args'][0])], nm, *k[0])
    rep.floor('kernels created', n, 1)
def one(rep, mod, fn, H, mine, runs, nm, km, kf, R):
    types = []; vals = []
    order = [j['id'] for b, j in fn.instrs()]
    for j, d in sorted(mine, key=lambda x: order.index(x[0]['id'])):
        m = d[d.rindex('>(') + 2:d.rindex(')')]
        types += split(m); vals += j['args'][1:]
    where = fn.where(mine[0][0]); who = ir.base_name(fn.dem); bad = lambda t: rep.fail(where, who, t, '')
    if len(types) != len(kf.args) or len(types) != len(vals): bad('%d arguments are passed to the kernel %s, which has %d parameters' % (len(types), nm, len(kf.args))); return
    ok = True
    for k, t in enumerate(types):
        kt = km.types[kf.args[k]['ty']]; rep.count('arguments')
        if t.endswith('*'):
            if kt['k'] != 'ptr': bad('argument %d of the kernel %s is a buffer, its parameter is a number' % (k + 1, nm)); ok = False
        elif kt['k'] == 'ptr': bad('argument %d of the kernel %s is no buffer' % (k + 1, nm)); ok = False
        elif t in SIZE and SIZE[t] != (kt.get('w') or 8 * kt.get('size', 0)): bad('argument %d of the kernel %s has %d bits, its parameter has %d' % (k + 1, nm, SIZE[t], kt.get('w') or 8 * kt.get('size', 0))); ok = False
        elif t not in SIZE: rep.unk(where, who, 'type %s' % t)
        else: rep.good(1)
    if not ok: return
    img, limits = roles(km, kf, R); v = [None if types[k].endswith('*') and x[0] not in ('v', 'a') else H.val(x) for k, x in enumerate(vals)]
    # coordinates given for each image by the parameters of the function
    at = {}; A = fn.args; w32 = lambda k: k < len(A) and mod.types[A[k]['ty']].get('w') == 32
    pl = ir.param_list(fn.dem); sh = len(A) - len(pl)
    for k in range(len(pl)):
        if 'Image' in pl[k] and pl[k].rstrip().endswith('&') and w32(k + sh + 1) and w32(k + sh + 2): at[('a', k + sh)] = (('arg', k + sh + 1), ('arg', k + sh + 2))
    cc = lambda s: s[0] == 'colorCount'
    for p, (o, rs, kc) in img.items():
        q = v[p]; obj = None
        if q and len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1 and list(q)[0][0][0] == 'data': obj = list(q)[0][0][1]
        if obj is None: rep.unk(where, who, 'the image of parameter %d is not known' % (p + 1)); continue
        row = v[p + 2]
        if row != S(('rowSize', obj)):
            if any(s[0] == 'op' for s in syms(row)): rep.unk(where, who, 'the row size of parameter %d is not known' % (p + 1))
            else: bad('the row size passed with the buffer of parameter %d of %s is not the one of that image' % (p + 1, nm))
            continue
        rep.good(1)
        if kc is not None and v[p + 3] != S(('colorCount', obj)) and v[p + 3] != S(('colorCount', 'common')):
            if any(s[0] == 'op' for s in syms(v[p + 3])): rep.unk(where, who, 'the number of colours of parameter %d is not known' % (p + 1))
            else: bad('the number of colours passed with the buffer of parameter %d of %s is not the one of that image' % (p + 1, nm))
            continue
        off = v[p + 1]
        own = all(any(s[0] == 'id' for s in syms(a[3])) for a in R.acc if a[2] == p)
        if not off and not (own and obj in at): rep.good(1); continue
        if any(s[0] == 'op' for s in syms(off)): rep.unk(where, who, 'the offset of parameter %d is not known' % (p + 1)); continue
        if not own: bad('the kernel %s adds its coordinates to the offset of parameter %d, which is not 0' % (nm, p + 1)); continue
        if obj not in at: rep.unk(where, who, 'the coordinates of the image of parameter %d are not known' % (p + 1)); continue
        x, y = at[obj]; rest = padd(off, pmul(S(y), S(('rowSize', obj))), -1)
        wide = kc is not None or any(cc(s) for k in limits for s in syms(v[k]))
        good = [pmul(S(x), S(c)) for c in (('colorCount', obj), ('colorCount', 'common'))] + ([] if wide else [S(x)])
        if rest not in good: bad('the offset passed with the buffer of parameter %d of %s is not y * rowSize + x%s of that image' % (p + 1, nm, ' * colours' if wide else ''))
        else: rep.good(1)
    if img and len(limits) >= 2 and len(runs) == 1 and len(runs[0]['args']) == 3 and all(any(s[0] == 'id' for s in syms(a[3])) for a in R.acc if a[2] in img):
        a = [H.val(x) for x in runs[0]['args'][1:]]; b = [v[limits[0]], v[limits[1]]]
        if any(s[0] == 'op' for x in a + b for s in syms(x)): rep.unk(where, who, 'the launch size is not known')
        else:
            # the region of the operation, when the function takes one
            reg = [k for k in range(len(A)) if w32(k) and ('arg', k) not in [s for q in at.values() for s in q]]
            if a != b: bad('the launch of %s does not cover the width and height passed to it' % nm)
            elif at and len(reg) >= 2 and ([s for s in syms(b[0]) if not cc(s)] != [('arg', reg[0])] or syms(b[1]) != {('arg', reg[1])}): bad('width and height passed to %s are not those of the region' % nm)
            else: rep.good(1)
CHECKS = {'O03': ('other', check), 'O02': ('other', host_check)}
