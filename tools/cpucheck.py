"""D02: processor identification and selection of instruction sets, decided on the LLVM IR (never executed).

Values are vectors of bits; a bit is 0, 1, unknown, or a condition with the facts that hold when it is true (T) and when it is false (F).
Facts are bits of cpuid and xgetbv outputs, the highest supported cpuid leaf, and flags kept in global variables. All paths are enumerated."""
import os, re
import ir
BASECASES = 4000
class Bit:
    __slots__ = ('T', 'F', 'unk')
    def __init__(self, T=frozenset(), F=frozenset(), unk=False): self.T = T; self.F = F; self.unk = unk
    def neg(self): return Bit(self.F, self.T, self.unk)
UNK = Bit(unk=True)
def atom(*a): return Bit(frozenset([(a, 1)]), frozenset([(a, 0)]))
def conj(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    return Bit(a.T | b.T, a.F & b.F, a.unk or b.unk)
def inv(a): return 1 - a if isinstance(a, int) else a.neg()
def disj(a, b): return inv(conj(inv(a), inv(b)))
def xor(a, b):
    if isinstance(a, int): return b if a == 0 else inv(b)
    if isinstance(b, int): return a if b == 0 else inv(a)
    return Bit(unk=a.unk or b.unk)
def const(n, w): return tuple((n >> i) & 1 for i in range(w))
def cval(v):
    if isinstance(v, tuple) and v and v[0] in (0, 1) and all(isinstance(b, int) for b in v): return sum(b << i for i, b in enumerate(v))
    return None
class Agg(list): pass
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off=0): self.o = o; self.off = off
class Stop(Exception): pass
# feature -> facts that a processor check must establish; the operating system must save the registers of AVX and AVX-512
CPUID = {'sse2': [(1, 0, 'd', 26)], 'sse3': [(1, 0, 'c', 0)], 'ssse3': [(1, 0, 'c', 9)], 'sse4.1': [(1, 0, 'c', 19)], 'sse4.2': [(1, 0, 'c', 20)], 'avx': [(1, 0, 'c', 28)], 'avx2': [(7, 0, 'b', 5)],
         'avx512f': [(7, 0, 'b', 16)], 'avx512dq': [(7, 0, 'b', 17)], 'avx512cd': [(7, 0, 'b', 28)], 'avx512bw': [(7, 0, 'b', 30)], 'avx512vl': [(7, 0, 'b', 31)], 'popcnt': [(1, 0, 'c', 23)], 'fma': [(1, 0, 'c', 12)]}
XCR = {'avx': (1, 2), 'avx2': (1, 2), 'fma': (1, 2)}
for k in ('avx512f', 'avx512dq', 'avx512cd', 'avx512bw', 'avx512vl'): XCR[k] = (1, 2, 5, 6, 7)
MODEL = {'popcnt': 2, 'sse2': 4, 'sse3': 5, 'ssse3': 6, 'sse4.1': 7, 'sse4.2': 8, 'avx': 9, 'avx2': 10, 'avx512f': 15, 'avx512vl': 20, 'avx512bw': 21, 'avx512dq': 22, 'avx512cd': 23}
IMPLIED = {'sse2': ['sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'fma', 'avx512f'], 'sse3': ['ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'avx512f'], 'ssse3': ['sse4.1', 'sse4.2', 'avx', 'avx2', 'avx512f'],
           'sse4.1': ['sse4.2', 'avx', 'avx2', 'avx512f'], 'sse4.2': ['avx', 'avx2', 'avx512f'], 'avx': ['avx2', 'avx512f', 'fma'], 'avx2': ['avx512f'], 'popcnt': ['sse4.2', 'avx', 'avx2', 'avx512f']}
for k in ('avx512dq', 'avx512cd', 'avx512bw', 'avx512vl'):
    for f in list(IMPLIED): IMPLIED[f] = IMPLIED[f] + [k]
def established(feature, facts):
    """missing facts for the feature (empty: established)"""
    def direct(f):
        if f not in CPUID: return ['feature %s is not known to this check' % f]
        if f in MODEL and (('model', MODEL[f]), 1) in facts: return []
        miss = ['bit %d of %s of cpuid leaf %d' % (b, {'a': 'EAX', 'b': 'EBX', 'c': 'ECX', 'd': 'EDX'}[r], l) for l, s, r, b in CPUID[f] if (('cpuid', l, s, r, b), 1) not in facts]
        return miss + ['bit %d of XCR0 (register state enabled by the operating system)' % b for b in XCR.get(f, ()) if (('xcr0', b), 1) not in facts]
    best = direct(feature)
    for g in IMPLIED.get(feature, ()):
        if best and not direct(g): best = []
    return best

class Paths:
    """all paths of a function with everything inlined"""
    def __init__(self, mod):
        self.mod = mod; self.summary = {}; self.newsum = {}; self.bad = []; self.steps = 0; self.stores = {}; self.n = 0; self.asms = 0
    def ty(self, t): return self.mod.types[t]
    def width(self, t):
        x = self.ty(t)
        return x.get('w', 8 * x.get('size', 0)) if x['k'] == 'int' else 8 * x.get('size', 0)
    def val(self, v, env, args):
        k = v[0]
        if k == 'v': return env.get(v[1], (UNK,) * 64)
        if k == 'a': return args[v[1]] if v[1] < len(args) else (UNK,)
        if k == 'i': return const(int(v[2]) & ((1 << int(v[1])) - 1), int(v[1]))
        if k == 'g': return Ptr(('g', v[1]))
        if k == 'n': return Ptr(None)
        if k == 'ce':
            e = v[1]
            if e.get('op') == 'getelementptr': return self.gep(e, lambda x: self.val(x, env, args))
        return (UNK,) * 64
    def gep(self, e, val):
        b = e['ops'][0] if 'base' not in e else e['base']
        p = val(b)
        if not isinstance(p, Ptr): return (UNK,) * 64
        off = p.off
        if off is not None: off += e.get('off', 0) or 0
        for x in e.get('vars', e.get('var', [])) or []:
            c = cval(val(x[0]))
            if c is None or off is None: off = None
            else: off += c * x[1]
        return Ptr(p.o, off)
    def add(self, facts, new):
        for a, v in new:
            if (a, 1 - v) in facts: return None
        return facts | new
    def run(self, fn, args, facts=frozenset(), mem=None, depth=0, unk=False):
        """yields (facts, memory, value, unknown condition on the path)"""
        if depth > 24: raise Stop('calls nested too deeply at %s' % fn.dem)
        self.n += 1; inst = self.n
        work = [(0, None, 0, {}, facts, dict(mem or {}), unk, 0)]
        while work:
            b, pred, idx, env, facts, mem, unk, hops = work.pop()
            ins = fn.blocks[b]
            if hops > 400: raise Stop('a loop at %s is not bounded' % fn.where(ins[0]))
            if idx == 0 and pred is not None:
                new = {}
                for i in ins:
                    if i['op'] != 'phi': break
                    for pb, v in i['inc']:
                        if pb == pred: new[i['id']] = self.val(v, env, args)
                env = dict(env); env.update(new)
            k = idx
            while k < len(ins):
                i = ins[k]; op = i['op']; self.steps += 1
                if self.steps > 400000: raise Stop('too many steps')
                if op == 'phi': k += 1; continue
                if op == 'br':
                    if 'cond' in i:
                        c = self.val(i['cond'], env, args); c = c[0] if isinstance(c, tuple) else UNK
                        for bit, s in ((c, i['succ'][0]), (inv(c), i['succ'][1])):
                            if bit == 0: continue
                            f = facts if bit == 1 else self.add(facts, bit.T)
                            if f is not None: work.append((s, b, 0, env, f, mem, unk or (bit != 1 and bit.unk), hops + 1))
                    else: work.append((i['succ'][0], b, 0, env, facts, mem, unk, hops + 1))
                    break
                if op == 'switch':
                    c = self.val(i['cond'], env, args); n = cval(c)
                    rest = facts
                    for x in i['cases']:
                        cv = int(x[0][2]) if isinstance(x[0], list) else int(x[0])
                        if n is not None:
                            if n == cv & ((1 << len(c)) - 1): work.append((x[1], b, 0, env, facts, mem, unk, hops + 1)); break
                            continue
                        e = self.eq(c, const(cv & ((1 << len(c)) - 1), len(c)))
                        if e == 0: continue
                        f = facts if e == 1 else self.add(facts, e.T)
                        if f is not None: work.append((x[1], b, 0, env, f, mem, unk or (e != 1 and e.unk), hops + 1))
                    else: work.append((i['def'], b, 0, env, rest, mem, unk, hops + 1))
                    break
                if op == 'ret':
                    yield facts, mem, self.val(i['ops'][0], env, args) if i.get('ops') else None, unk
                    break
                if op in ('unreachable', 'resume'): break
                if op in ('call', 'invoke'):
                    outs = self.call(fn, i, env, args, facts, mem, depth, unk)
                    nb = i.get('nd')
                    if len(outs) == 1 and op == 'call':
                        facts, mem, v, unk = outs[0]; env = dict(env); env[i['id']] = v; k += 1; continue
                    for f, m, v, u in outs:
                        e = dict(env); e[i['id']] = v
                        work.append((nb, b, 0, e, f, m, u, hops + 1) if op == 'invoke' else (b, pred, k + 1, e, f, m, u, hops + 1))
                    break
                if op == 'select':
                    c, x, y = (self.val(o, env, args) for o in i['ops'][:3]); c = c[0] if isinstance(c, tuple) else UNK
                    if c in (0, 1): env = dict(env); env[i['id']] = x if c == 1 else y; k += 1; continue
                    for bit, v in ((c, x), (inv(c), y)):
                        f = self.add(facts, bit.T)
                        if f is not None:
                            e = dict(env); e[i['id']] = v; work.append((b, pred, k + 1, e, f, mem, unk or bit.unk, hops))
                    break
                env = dict(env); mem = self.step(fn, i, op, env, args, facts, mem, inst); k += 1
    def eq(self, a, b):
        r = 1
        for x, y in zip(a, b): r = conj(r, inv(xor(x, y)))
        return r
    def step(self, fn, i, op, env, args, facts, mem, inst):
        V = lambda o: self.val(o, env, args)
        if op == 'alloca': env[i['id']] = Ptr(('l', inst, i['id'])); return mem
        if op == 'getelementptr': env[i['id']] = self.gep(i, V); return mem
        if op == 'store':
            v, p = V(i['ops'][0]), V(i['ops'][1]); n = self.ty(i['vty'] if 'vty' in i else i['oty'][0]).get('size', 0)
            if not isinstance(p, Ptr): return mem
            mem = dict(mem)
            if p.off is None:
                for k in [k for k in mem if k[0] == p.o]: del mem[k]
                return mem
            for k in [k for k in mem if k[0] == p.o and k[1] < p.off + n and k[1] + mem[k][0] > p.off]: del mem[k]
            mem[(p.o, p.off)] = (n, v)
            if p.o and p.o[0] == 'g': self.stored(p.o[1], v, facts, fn, i)
            return mem
        if op == 'load':
            p = V(i['ops'][0]); n = self.ty(i['ty']).get('size', 0); w = self.width(i['ty']); r = None
            if isinstance(p, Ptr) and p.off is not None:
                c = mem.get((p.o, p.off))
                if c and c[0] == n: r = c[1]
                elif p.o and p.o[0] == 'g':
                    g = p.o[1]; G = self.mod.globals.get(g)
                    if g.startswith('_ZGV'): r = (atom('guard', g),) + (0,) * (w - 1)
                    elif g == '__cpu_model' and p.off == 12 and w == 32: r = tuple(atom('model', b) for b in range(32))
                    elif G and G.get('const') and 'init' in G and G['init'][0] == 'i': r = const(int(G['init'][2]) & ((1 << w) - 1), w)
                    elif self.ty(i['ty'])['k'] == 'int':
                        s = self.summary.get(g); a = atom('global', g)
                        if s is not None: a = Bit(a.T | s[0], a.F | s[1])
                        r = (a,) + (0,) * (w - 1) if G and (self.ty(G['ty']).get('size') == 1) else (UNK,) * w
            if r is None: r = (UNK,) * w if self.ty(i['ty'])['k'] == 'int' else (UNK,) * 64
            env[i['id']] = r; return mem
        if op in ('trunc',):
            v = V(i['ops'][0]); env[i['id']] = tuple(v[:self.width(i['ty'])]) if isinstance(v, tuple) else (UNK,) * self.width(i['ty']); return mem
        if op in ('zext', 'sext'):
            v = V(i['ops'][0]); w = self.width(i['ty'])
            env[i['id']] = tuple(v) + (0 if op == 'zext' else v[-1],) * (w - len(v)) if isinstance(v, tuple) else (UNK,) * w; return mem
        if op in ('freeze', 'bitcast'): env[i['id']] = V(i['ops'][0]); return mem
        if op == 'extractvalue':
            v = V(i['ops'][0]); env[i['id']] = v[i['ix'][0]] if isinstance(v, Agg) else (UNK,) * 64; return mem
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul'):
            a, b = V(i['ops'][0]), V(i['ops'][1]); w = self.width(i['ty']); r = (UNK,) * w
            if isinstance(a, tuple) and isinstance(b, tuple):
                a = a[:w]; b = b[:w]
                if op in ('and', 'or', 'xor'): r = tuple({'and': conj, 'or': disj, 'xor': xor}[op](x, y) for x, y in zip(a, b))
                elif op in ('shl', 'lshr') and cval(b) is not None:
                    n = min(cval(b), w); r = (0,) * n + a[:w - n] if op == 'shl' else a[n:] + (0,) * n
                elif cval(a) is not None and cval(b) is not None: r = const({'add': cval(a) + cval(b), 'sub': cval(a) - cval(b), 'mul': cval(a) * cval(b)}.get(op, 0) & ((1 << w) - 1), w)
            env[i['id']] = r; return mem
        if op == 'icmp':
            a, b = V(i['ops'][0]), V(i['ops'][1]); p = i['pred']; r = UNK
            if isinstance(a, Ptr) or isinstance(b, Ptr): env[i['id']] = (UNK,); return mem
            if isinstance(a, tuple) and isinstance(b, tuple):
                if p in ('eq', 'ne'): r = self.eq(a, b) if p == 'eq' else inv(self.eq(a, b))
                else:
                    if cval(a) is not None and cval(b) is None: a, b = b, a; p = p[0] + {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[p[1:]]
                    c = cval(b)
                    if c is not None and cval(a) is not None:
                        x = cval(a); w = len(a)
                        if p[0] == 's': x = x - (1 << w) if x >> (w - 1) else x; c = c - (1 << w) if c >> (w - 1) else c
                        r = int({'lt': x < c, 'le': x <= c, 'gt': x > c, 'ge': x >= c}[p[1:]])
                    elif c is not None and self.maxleaf(a):
                        n = c + (p[1:] in ('gt', 'le')); t = Bit(frozenset((('leaf', k), 1) for k in range(1, min(n, 64) + 1)), frozenset())
                        r = t if p[1:] in ('gt', 'ge') else t.neg()
                    elif c == 0 and p in ('slt', 'sge'): r = a[-1] if p == 'slt' else inv(a[-1])
                    elif c == 0 and p in ('ugt', 'ule'): r = inv(self.eq(a, b)) if p == 'ugt' else self.eq(a, b)
            env[i['id']] = (r,); return mem
        env[i['id']] = (UNK,) * 64
        return mem
    def maxleaf(self, a):
        return len(a) >= 32 and isinstance(a[0], Bit) and any(x[0][:4] == ('cpuid', 0, 0, 'a') for x in a[0].T)
    def stored(self, g, v, facts, fn, i):
        b = v[0] if isinstance(v, tuple) and v else UNK
        self.stores.setdefault(g, []).append((b, fn, i))
        T = None if b == 0 else (facts | b.T if isinstance(b, Bit) else facts)
        F = None if b == 1 else (facts | b.F if isinstance(b, Bit) else facts)
        o = self.newsum.get(g)
        if o is None: self.newsum[g] = [T, F]
        else:
            if T is not None: o[0] = T if o[0] is None else o[0] & T
            if F is not None: o[1] = F if o[1] is None else o[1] & F
    def call(self, fn, i, env, args, facts, mem, depth, unk):
        V = lambda o: self.val(o, env, args)
        if 'asm' in i: return [(facts, mem, self.asm(fn, i, [V(a) for a in i['args']], facts), unk)]
        c = i['callee']; name = c[1] if c[0] == 'g' else None
        w = self.width(i['ty']) or 1
        if name == '__cxa_guard_acquire': return [(facts, mem, const(1, 32), unk), (facts, mem, const(0, 32), unk)]
        if name and name.startswith('llvm.memcpy'): 
            d, s, n = V(i['args'][0]), V(i['args'][1]), cval(V(i['args'][2])); mem = dict(mem)
            if isinstance(d, Ptr):
                for k in [k for k in mem if k[0] == d.o]: del mem[k]
                if isinstance(s, Ptr) and n is not None and None not in (d.off, s.off):
                    for (o, a), x in list(mem.items()):
                        if o == s.o and s.off <= a and a + x[0] <= s.off + n: mem[(d.o, d.off + a - s.off)] = x
            return [(facts, mem, None, unk)]
        f = self.mod.functions.get(name) if name else None
        if f is None or f.decl:
            # unknown function: everything it could reach through pointers is unknown
            mem = dict(mem)
            for a in i['args']:
                p = V(a)
                if isinstance(p, Ptr):
                    for k in [k for k in mem if k[0] == p.o]: del mem[k]
            return [(facts, mem, (UNK,) * w, unk)]
        return [(a, b, v, u) for a, b, v, u in self.run(f, [V(a) for a in i['args']], facts, mem, depth + 1, unk)]
    def asm(self, fn, i, vals, facts):
        text = i['asm'].lower(); cons = i['acon'].split(','); outs = [c for c in cons if c.startswith('=')]; ins = [c for c in cons if not c.startswith(('=', '~'))]
        reg = []
        for c in outs:
            m = re.search(r'\{(.)(.*?)\}', c); r = c.lstrip('=&*+')
            x = None
            if m: n = m.group(1) + m.group(2); x = {'ax': 'a', 'bx': 'b', 'cx': 'c', 'dx': 'd', 'eax': 'a', 'ebx': 'b', 'ecx': 'c', 'edx': 'd', 'rax': 'a', 'rdx': 'd', 'rbx': 'b', 'rcx': 'c'}.get(n)
            elif 'cpuid' in text and 'xchg' in text: x = 'b'
            reg.append(x)
        inp = {}
        for c, v in zip(ins, vals):
            if c.isdigit(): r = reg[int(c)]
            else:
                m = re.search(r'\{e?r?(.)x\}', c); r = m.group(1) if m else None
            inp[r] = v
        self.asms += 1
        bytes_ = re.sub(r'[^0-9a-fx,]', '', text.replace('.byte', ''))
        res = Agg()
        if 'xgetbv' in text or '0x0f,0x01,0xd0' in bytes_ or '0xf,0x1,0xd0' in bytes_:
            if (('cpuid', 1, 0, 'c', 27), 1) not in facts: self.bad.append((fn.where(i), fn.dem, 'xgetbv is executed without a check of OSXSAVE (bit 27 of ECX of cpuid leaf 1)'))
            z = cval(inp.get('c')) == 0
            for r in reg: res.append(tuple(atom('xcr0', b) if r == 'a' and z else UNK for b in range(64)))
        elif 'cpuid' in text:
            leaf = cval(inp.get('a')); sub = cval(inp.get('c')) if 'c' in inp else 0
            known = leaf is not None and sub is not None and (leaf == 0 or (('leaf', leaf), 1) in facts)
            for r in reg: res.append(tuple(atom('cpuid', leaf, sub if leaf == 7 else 0, r, b) if known and r else Bit() for b in range(32)))
        else:
            for r in reg: res.append((UNK,) * 64)
        return res if len(outs) > 1 else res[0]
    def settle(self, roots):
        """facts that hold when a global is true (false): greatest fixed point over all stores"""
        for rnd in range(6):
            self.newsum = {}; self.bad = []; self.stores = {}; self.steps = 0
            for f in roots:
                for _ in self.run(f, [(atom('arg', k),) + (0,) * 7 for k in range(len(f.args))]): pass
            new = {}
            for g, (T, F) in self.newsum.items():
                G = self.mod.globals.get(g); init = None
                if G and 'init' in G: init = 0 if G['init'][0] == 'z' else (int(G['init'][2]) & 1 if G['init'][0] == 'i' else None)
                local = g.startswith('_ZZ')          # static local: read only after its initialisation
                drop = lambda s: frozenset(x for x in s if x[0] != ('global', g) and x[0][0] != 'arg')
                t = frozenset() if T is None else T; f = frozenset() if F is None else F
                if not local and init != 0: t = frozenset()
                if not local and init != 1: f = frozenset()
                new[g] = (drop(t), drop(f))
            if new == self.summary: return
            self.summary = new

# ---------------------------------------------------------------- which instruction sets the code of an enumeration value uses
HEADER = {'xmmintrin': 'sse2', 'emmintrin': 'sse2', 'pmmintrin': 'sse3', 'tmmintrin': 'ssse3', 'smmintrin': 'sse4.1', 'nmmintrin': 'sse4.2', 'popcntintrin': 'popcnt', 'avxintrin': 'avx', 'avx2intrin': 'avx2', 'fmaintrin': 'fma',
          'avx512fintrin': 'avx512f', 'avx512bwintrin': 'avx512bw', 'avx512dqintrin': 'avx512dq', 'avx512cdintrin': 'avx512cd', 'avx512vlintrin': 'avx512vl', 'avx512vlbwintrin': 'avx512bw', 'avx512vldqintrin': 'avx512dq', 'avx512vlcdintrin': 'avx512cd'}
LLVM = {'sse': 'sse2', 'sse2': 'sse2', 'sse3': 'sse3', 'ssse3': 'ssse3', 'sse41': 'sse4.1', 'sse42': 'sse4.2', 'avx': 'avx', 'avx2': 'avx2', 'avx512': 'avx512f', 'fma': 'fma'}
def intrinsics():
    """intrinsic -> header of the compiler that defines it"""
    import glob
    out = {}
    for p in glob.glob('/usr/lib/llvm-18/lib/clang/18/include/*intrin.h'):
        for n in re.findall(r'^\s*(?:static\s[^;{}#]*?\s)?(_mm\w*)\s*\([^;{}]*\)\s*\{', open(p, errors='replace').read(), flags=re.M): out.setdefault(n, os.path.basename(p)[:-2])
    return out
def reached(mod, fn, args, seen, need, where):
    """closure of the calls of fn with the given constant arguments (None: unknown); need: feature -> [place]"""
    key = (fn.name, tuple(args))
    if key in seen: return
    seen.add(key)
    vals = {}; live = {0}; edges = set(); work = True
    def V(o):
        if o[0] == 'i': return int(o[2]) & ((1 << int(o[1])) - 1)
        if o[0] == 'a': return args[o[1]] if o[1] < len(args) else None
        if o[0] == 'v': return vals.get(o[1], 'none')
        return None
    while work:
        work = False
        for b in sorted(live):
            for i in fn.blocks[b]:
                op = i['op']; r = None
                if op == 'phi':
                    xs = [V(v) for pb, v in i['inc'] if (pb, b) in edges]; xs = [x for x in xs if x != 'none']
                    r = 'none' if not xs else xs[0] if all(x == xs[0] for x in xs) else None
                elif op in ('icmp', 'and', 'or', 'xor', 'add', 'sub'):
                    x, y = V(i['ops'][0]), V(i['ops'][1])
                    if 'none' in (x, y): r = 'none'
                    elif op in ('and', 'or') and (x == (op == 'or') or y == (op == 'or')) and mod.types[i['ty']].get('w') == 1: r = int(op == 'or')
                    elif x is None or y is None: r = None
                    elif op == 'icmp': r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}.get(i['pred']); r = None if r is None else int(r)
                    else: r = {'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op)
                elif op in ('zext', 'trunc', 'freeze', 'bitcast') and i.get('ops'): r = V(i['ops'][0])
                elif op == 'select':
                    c = V(i['ops'][0]); r = 'none' if c == 'none' else V(i['ops'][1]) if c == 1 else V(i['ops'][2]) if c == 0 else None
                elif op in ('br', 'switch', 'invoke'):
                    if op == 'invoke': out = [i['nd'], i['ud']] if 'ud' in i else [i['nd']]
                    elif op == 'switch':
                        c = V(i['cond']); cs = [((int(x[0][2]) if isinstance(x[0], list) else int(x[0])), x[1]) for x in i['cases']]
                        if c == 'none': out = []
                        elif c is None: out = [x[1] for x in cs] + [i['def']]
                        else: out = [dict(cs).get(c, i['def'])]
                    elif 'cond' in i:
                        c = V(i['cond']); out = [] if c == 'none' else i['succ'] if c is None else [i['succ'][0 if c else 1]]
                    else: out = i['succ'][:1]
                    for s in out:
                        if (b, s) not in edges: edges.add((b, s)); live.add(s); work = True
                if 'id' in i and op != 'br':
                    old = vals.get(i['id'], 'none')
                    if old != r and old is not None: vals[i['id']] = r if old == 'none' else None; work = True
    calls = []
    for b in sorted(live):
        for i in fn.blocks[b]:
            if i['op'] not in ('call', 'invoke') or 'callee' not in i: continue
            for o in [i['callee']] + list(i['args']):
                if o[0] != 'g': continue
                n = o[1]
                if n.startswith('_mm'):
                    h = INTR.get(n); f = HEADER.get(h, '?%s (%s)' % (n, h)); need.setdefault(f, []).append((fn.where(i), fn.dem)); continue
                if n.startswith('llvm.x86.'):
                    x = n.split('.')[2]; f = LLVM.get(x, '?' + n); need.setdefault(f, []).append((fn.where(i), fn.dem)); continue
                g = mod.functions.get(n)
                if g is None or g.decl: continue
                if o is i['callee']: calls.append((g, [x if x != 'none' and x is not None else None for x in map(V, i['args'])]))
                else: calls.append((g, [None] * len(g.args)))
    for g, a in calls:
        # only small numbers matter (the enumeration); others would only multiply the work
        reached(mod, g, [x if isinstance(x, int) and x < 16 else None for x in a], seen, need, where)
INTR = {}
CONFIGS = [('x86-64', ['-march=x86-64']), ('SSSE3', ['-march=x86-64', '-mssse3']), ('AVX2', ['-march=x86-64', '-mavx2']), ('AVX-512', ['-march=skylake-avx512']),
           ('NEON', ['--target=aarch64-linux-gnu', '-D__x86_64__', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13'])]
DECLARED = {'avx512': ('avx512f', 'avx512cd', 'avx512bw', 'avx512dq', 'avx512vl'), 'avx': ('avx2',), 'sse': ('sse2',), 'neon': (), 'cpu': ()}
COMPILED = {'x86-64': ('sse', 'cpu'), 'SSSE3': ('sse', 'cpu'), 'AVX2': ('avx', 'sse', 'cpu'), 'AVX-512': ('avx512', 'avx', 'sse', 'cpu'), 'NEON': ('neon', 'cpu')}
SWITCH = {'avx512': 'EnableAvx512', 'avx': 'EnableAvx', 'sse': 'EnableSse', 'neon': 'EnableNeon'}
NODEBUG = ['-Xclang', '-disable-llvm-passes']
def config(name, flags, rep):
    import imgcheck, imgmodel
    S = os.path.join(ir.REPO, 'src')
    hm = ir.load(ir.compile_ir(os.path.join(S, 'image_function_helper.cpp'), flags)); sm = ir.load(ir.compile_ir(os.path.join(S, 'image_function_simd.cpp'), flags + NODEBUG))
    enum = {v: k.split('_')[0] for k, v in imgcheck.simd_enum().items()}
    # instruction sets used by the code of a value
    if not INTR: INTR.update(intrinsics())
    need = {}; seen = {}; roots = 0
    for v in enum: need[v] = {}; seen[v] = set()
    for f in sm.defined():
        if f.name.startswith('_mm'): continue
        ps = [i for i, p in enumerate(ir.param_list(f.dem)) if p.endswith('SIMDType')]
        if len(ps) != 1 or not ir.base_name(f.dem).startswith('simd::'): continue
        roots += 1
        for v in enum:
            a = [None] * len(f.args); a[len(f.args) - len(ir.param_list(f.dem)) + ps[0]] = v
            reached(sm, f, a, seen[v], need[v], '')
    rep.count('vectorised functions', roots)
    # the switches that the user can turn off
    def one(n):
        x = [f for f in hm.by_base('simd::' + n) if not f.decl]
        return x[0] if len(x) == 1 else None
    flag = {}
    for k, n in SWITCH.items():
        f = one(n)
        if f is None: rep.unk('', n, 'the function is not defined in image_function_helper.cpp'); continue
        P = Paths(hm)
        for _ in P.run(f, [(atom('arg', 0),) + (0,) * 7]): pass
        flag[k] = {g for g, ss in P.stores.items() if all(isinstance(b, Bit) and (('arg', 0), 1) in b.T and (('arg', 0), 0) in b.F for b, _, _ in ss)}
        if not flag[k]: rep.fail(f.where(), n, 'the argument is not stored in a flag', '')
        for o in flag:
            if o != k and flag[o] & flag[k]: rep.fail(f.where(), n, 'the flag is the one of %s' % SWITCH[o], sorted(flag[o] & flag[k])[0])
        rep.good()
    f = one('EnableSimd')
    if f is not None:
        P = Paths(hm); done = None
        for facts, mem, v, u in P.run(f, [(atom('arg', 0),) + (0,) * 7]):
            w = {g[1] for (g, off), x in mem.items() if g and g[0] == 'g' and isinstance(x[1], tuple) and isinstance(x[1][0], Bit) and (('arg', 0), 1) in x[1][0].T and (('arg', 0), 0) in x[1][0].F}
            done = w if done is None else done & w
        for k in flag:
            if done is not None and not (flag[k] & done): rep.fail(f.where(), 'EnableSimd', 'the flag of %s is not changed' % k, '')
            rep.good()
    # selection
    act = one('actualSimdType')
    if act is None: rep.unk('', 'actualSimdType', 'the function is not defined'); return
    P = Paths(hm); helpers = [f for f in hm.defined() if ir.base_name(f.dem).startswith('SimdInfo::is')]
    P.settle([act] + helpers)
    for w, fn, msg in sorted(set(P.bad)): rep.fail(w, fn, msg, 'build for %s' % name)
    per = {}; n = 0; nbad = 0
    for facts, mem, v, unk in P.run(act, []):
        n += 1; k = cval(v) if v is not None else None
        if k is None or k not in enum: rep.unk(act.where(), 'actualSimdType', 'a path returns a value that is not a constant of the enumeration'); continue
        per.setdefault(k, []).append((facts, unk))
    rep.count('paths of the selection', n); rep.count('cpuid and xgetbv instructions', P.asms)
    for k, ps in sorted(per.items()):
        s = enum[k]; req = sorted(set(DECLARED[s]) | set(need[k]))
        if s not in COMPILED[name]: rep.fail(act.where(), 'actualSimdType', 'selects %s in a build for %s that does not contain it' % (s, name), ''); continue
        rep.samples.append('%s, %s: %d paths, instruction sets %s' % (name, s, len(ps), ' '.join(req) or '-'))
        for feat in req:
            if feat.startswith('?'): rep.unk(need[k][feat][0][0], need[k][feat][0][1], 'unknown intrinsic ' + feat[1:]); continue
            worst = None
            for facts, unk in ps:
                m = established(feat, facts)
                if m and (worst is None or (worst[1] and not unk)): worst = (m, unk)
            if worst is None: rep.good(); continue
            msg = 'selects %s without a check of %s' % (s, feat); det = 'build for %s: missing %s%s' % (name, ', '.join(worst[0]), '; used in %s' % ir.base_name(need[k][feat][0][1]) if feat in need[k] else '')
            rep.unk(act.where(), 'actualSimdType', msg + ' (not understood): ' + det) if worst[1] else rep.fail(act.where(), 'actualSimdType', msg, det)
        if s in flag and s != 'cpu':
            miss = [unk for facts, unk in ps if not any((('global', g), 1) in facts for g in flag[s])]
            if not miss: rep.good()
            elif not all(miss): rep.fail(act.where(), 'actualSimdType', 'selects %s although it was disabled by %s' % (s, SWITCH[s]), 'build for %s' % name)
            else: rep.unk(act.where(), 'actualSimdType', 'selection of %s after %s(false)' % (s, SWITCH[s]))
    rep.extra.setdefault('selected', {})[name] = {enum[k]: len(v) for k, v in per.items()}
    if len(per) < 2: rep.unk(act.where(), 'actualSimdType', 'no instruction set is ever selected in a build for %s' % name)
